"""C09: CRPS equals the integral of the squared distance between forecast CDF and observation step."""
import functools
import itertools

import numpy as np

from mc import cross, env, ref, verifs as vf
import PyAnEn

BOUNDS = {'quick': 'all ensembles of 1..4 members over 4 values x 5 observations, all member axes, split mode, 1-3 location dimensions; '
                   'parameter grids 5x3 (Gaussian), 6x4 (truncated), 4x3x3 (gamma) x 9 observations incl. zero and negative ones; shape parameters up to 1e6',
          'thorough': 'as quick with 5 members and denser grids'}
ASSUMPTIONS = ['gamma CRPS: censored at zero (the integral runs over x >= 0), observations >= 0']


def cases(tier):
    yield from cross.cases([k for k in list(vf.ENS) + list(vf.PROB) if k != 'tgamma'], tier)
    yield from cross.unit_cases([k for k in list(vf.ENS) + list(vf.PROB) if k != 'tgamma'], tier)
    for m in range(1, 5 if tier == 'quick' else 6):
        for axis in (0, -1, 'pos'):
            for split in (False, True):
                for nd in (1, 2, 3):
                    yield {'part': 'ens', 'm': m, 'axis': axis, 'split': split, 'nd': nd}
    obs = [-2.0, -0.3, -1e-3, -1e-5, 0.0, 1e-6, 1e-4, 0.01, 0.5, 1.0, 3.0, 7.5, 30.0]
    if tier != 'quick':
        obs += [0.1, 0.2, 0.7, 1.5, 2.0, 2.5, 4.0, 5.0, 6.0, 10.0, 15.0, 20.0]
    for kind in ('gauss', 'tgauss', 'gamma'):
        for o in obs:
            if kind == 'gamma' and o < 0:
                continue
            for nd in (1, 2):
                yield {'part': 'prob', 'kind': kind, 'o': o, 'nd': nd, 'tier': tier}
    for m in (5, 6, 7, 10, 21, 51) + ((33, 101, 300) if tier != 'quick' else ()):
        for scale in (1.0, 1e-5, 1e4):
            for off in (0.0, 273.15):
                yield {'part': 'many', 'm': m, 'scale': scale, 'off': off}
    for ft in ('int64', 'uint8', 'int8', 'uint16', 'float32', 'float64'):
        for ot in ('int64', 'uint8', 'int8', 'float32', 'float64'):
            yield {'part': 'types', 'f': ft, 'o': ot}
    for kind in ('gauss', 'tgauss', 'gamma'):
        for scale in (1e-4, 1e3, 1e6):
            yield {'part': 'units', 'kind': kind, 'scale': scale}
    for shape in (10.0, 1e2, 1e3, 1e4, 1e5, 1e6):
        yield {'part': 'large_shape', 'shape': shape}


SPAN = {'uint8': [0, 3, 100, 200, 255], 'int8': [-128, -3, 5, 100, 127], 'uint16': [0, 3, 400, 30000, 65535]}


def grids(kind, tier):
    th = tier != 'quick'
    if kind == 'gauss':
        return [(m, s) for m in (-3.0, 0.0, 0.4, 2.0, 10.0) for s in ((0.1, 1.0, 4.0) + ((0.5, 2.0, 10.0) if th else ()))]
    if kind == 'tgauss':
        return [(m, s) for m in (-3.0, -0.5, 0.0, 0.4, 2.0, 10.0) for s in ((0.3, 0.6, 1.0, 4.0) + ((0.8, 2.0, 10.0) if th else ()))] + [(m, 1.0) for m in (-8.0, -14.0, -20.0, -30.0, -39.0, -60.0)]
    return [(u, s, h) for u in (0.4, 1.0, 3.0, 8.0) for s in ((0.5, 1.0, 4.0) + ((0.25, 2.0) if th else ())) for h in (-12.0, -1.5, -0.2, 0.0, 1.0)]


@functools.lru_cache(None)
def expected(kind, p, o):
    if kind == 'gauss':
        m, s = p
        return ref.crps_integral(lambda x: ref.norm_cdf(x, m, s), o, min(m - 14 * s, o), max(m + 14 * s, o), [m, m - 3 * s, m + 3 * s])
    if kind == 'tgauss':
        m, s = p
        return ref.crps_integral(lambda x: ref.truncnorm_cdf(x, m, s), o, min(0.0, o), max(m + 14 * s, 5 * s, o), [0.0, max(m, 0.1 * s), max(m, 0) + 3 * s])
    u, s, h = p
    return ref.crps_integral(lambda x: ref.gamma_cdf(x, u, s, h), o, 0.0, max(u + h + 60 * s, o + 1), [max(0.0, h), max(0.0, u + h), max(0.0, u + h) + 3 * s, max(0, u + h) + 12 * s])


def run_case(case, ck):
    if case.get('part') in ('cross', 'binary units'):
        kind = case['kind']
        ops = [['crps', {}]]
        if case['part'] == 'cross':
            cross.run(case, ck, ops)
        else:
            cross.run_units(case, ck, [o for o in ops if not any(isinstance(x, list) and x[0] == 'arr' for x in o[1].values())])
        return
    part = case['part']
    if part == 'ens':
        m, nd = case['m'], case['nd']
        T = np.array(list(itertools.product(itertools.product([-1.0, 0.0, 0.5, 3.0], repeat=m), [-2.0, -1.0, 0.25, 0.5, 4.0])), dtype=object)
        mem = np.array([list(r[0]) for r in T], dtype=float)
        o = np.array([r[1] for r in T], dtype=float)
        N = len(o)
        ck.bulk_states('enumerated_inputs', N)
        want = np.array([ref.ens_crps(a, b) for a, b in zip(mem.tolist(), o.tolist())])
        shp = {1: (N,), 2: (N // 4, 4), 3: (2, N // 4, 2)}[nd]
        f, oo = mem.reshape(shp + (m,)), o.reshape(shp)
        axis = case['axis']
        if axis == 0:
            f = np.ascontiguousarray(np.moveaxis(f, -1, 0))
        ax = {0: 0, -1: -1, 'pos': nd}[axis]
        w = want.reshape(shp)
        with env.settings(split=case['split']):
            for av in [None] + list(range(nd)):
                got = PyAnEn.VerifyEnsemble(f.copy(), oo.copy(), ensemble_axis=ax, avg_axis=av).crps()
                ck.equal(got, w.mean(axis=av), 'ensemble CRPS over %r' % (av,))
                ck.step()
                ck.state(av)
            # per element values: average over a dummy axis
            f1 = f[:, None] if axis == 0 else f[None]
            got = PyAnEn.VerifyEnsemble(f1.copy(), oo[None].copy(), ensemble_axis=0 if axis == 0 else -1, avg_axis=0).crps()
            ck.equal(got, w, 'ensemble CRPS per element')
            ck.check(np.all(np.asarray(got) >= -1e-12), 'negative CRPS')
            # order of members does not matter
            p = f[::-1] if axis == 0 else f[..., ::-1]
            got = PyAnEn.VerifyEnsemble(p.copy(), oo.copy(), ensemble_axis=ax, avg_axis=0).crps()
            ck.equal(got, w.mean(axis=0), 'ensemble CRPS with reversed members')
            ck.step(2)
        for x in want:
            ck.outcome(round(float(x), 9))
        ck.trace('ens', case)
    elif part in ('many', 'types'):
        if part == 'many':
            m = case['m']
            mem = case['off'] + case['scale'] * vf.grid((60, m), 0.3 + m, -2, 5)
            mem[::3, ::4] = mem[::3, :1]                       # equal members
            o = case['off'] + case['scale'] * vf.grid((60,), 1.7, -4, 7)
            o[::5] = mem[::5, m // 2]                          # on a member
            r, a = 1e-9, 1e-12 * case['scale'] + 1e-14 * abs(case['off'])
        else:
            T = list(itertools.product([-3, 0, 2, 7], [-3, 1, 2], [0, 5], [-4, 0, 2, 6]))
            h = 0.25
            mem = np.array([t[:3] for t in T], dtype=float) + (h if 'float' in case['f'] else 0)
            o = np.array([t[3] for t in T], dtype=float) + (h if 'float' in case['o'] else 0)
            # values at both ends of the range of small integer types
            if case['f'] in SPAN:
                mem = np.choose(np.searchsorted([-3, 0, 2, 5, 7], mem), SPAN[case['f']])
            if case['o'] in SPAN:
                o = np.choose(np.searchsorted([-4, 0, 2, 6], o), SPAN[case['o']][:4])
            mem, o = mem.astype(case['f']), o.astype(case['o'])
            r, a = (1e-5, 1e-5) if 'float32' in case.values() else (1e-9, 1e-11)
        m = mem.shape[1]
        want = np.array([ref.ens_crps([float(x) for x in c], float(y)) for c, y in zip(mem.tolist(), o.tolist())])
        ck.bulk_states('enumerated_inputs', len(o))
        for split in (False, True):
            for ax in (0, -1):
                with env.settings(split=split):
                    f = mem.T if ax == 0 else mem
                    got = PyAnEn.VerifyEnsemble(f.copy(), o.copy(), ensemble_axis=ax, avg_axis=()).crps()
                    ck.equal(got, want, 'CRPS of %d members' % m, r, a, split=split)
                    ck.equal(PyAnEn.VerifyEnsemble(f.copy(), o.copy(), ensemble_axis=ax).crps(), want.mean(), 'mean CRPS of %d members' % m, r, a)
                ck.step(2)
                ck.state(split, ax)
        for x in want:
            ck.outcome((m, round(float(x), 9)))
        ck.trace(part, case)
    elif part == 'units':
        # CRPS scales with the unit of the data
        kind, s = case['kind'], case['scale']
        obs = [-0.3, 0.0, 0.5, 3.0, 30.0] if kind != 'gamma' else [0.0, 0.5, 3.0, 30.0]
        P = grids(kind, 'quick')
        names = ('unshifted_mu', 'sigma', 'shift') if kind == 'gamma' else ('mu', 'sigma')
        f = {k: s * np.array([[p[i]] * len(obs) for p in P]) for i, k in enumerate(names)}
        if kind == 'gamma':
            f['mu'] = f['unshifted_mu'] + f['shift']
        o = s * np.array([obs] * len(P))
        want = s * np.array([[expected(kind, p, x) for x in obs] for p in P])
        ck.bulk_states('enumerated_inputs', o.size)
        ck.equal(vf.build(kind, {'f': f, 'o': o}, avg_axis=()).crps(), want, kind + ' CRPS in other units', 1e-5, 1e-7 * s)
        ck.step()
        ck.outcome((kind, s))
        ck.trace('units', case)
    elif part == 'prob':
        kind, o = case['kind'], case['o']
        P = grids(kind, case['tier'])
        want = np.array([expected(kind, p, o) for p in P])
        if kind == 'gamma':
            f = {'unshifted_mu': np.array([p[0] for p in P]), 'sigma': np.array([p[1] for p in P]), 'shift': np.array([p[2] for p in P])}
            f['mu'] = f['unshifted_mu'] + f['shift']
        else:
            f = {'mu': np.array([p[0] for p in P]), 'sigma': np.array([p[1] for p in P])}
        ck.bulk_states('enumerated_inputs', len(P))
        shp = (1, len(P)) if case['nd'] == 1 else (1, 3, len(P) // 3)
        v = vf.build(kind, {'f': {k: x.reshape(shp) for k, x in f.items()}, 'o': np.full(shp, o)}, avg_axis=0)
        got = v.crps()
        ck.equal(got, want.reshape(shp[1:]), '%s CRPS at %r' % (kind, o), 1e-6, 1e-7)
        ck.check(np.all(np.asarray(got) >= -1e-9), 'negative CRPS')
        v = vf.build(kind, {'f': {k: x.reshape(shp) for k, x in f.items()}, 'o': np.full(shp, o)})
        ck.equal(v.crps(), want.mean(), '%s mean CRPS at %r' % (kind, o), 1e-6, 1e-7)
        ck.step(2)
        for x in want:
            ck.outcome(round(float(x), 7))
        ck.trace(kind, case)
    else:
        # sigma fixed, mean growing: the distribution becomes Gaussian; CRPS stays finite and close to the Gaussian one
        k = case['shape']
        sigma, umu = 1.0, np.sqrt(k)
        o = umu + np.array([-2.0, -0.5, 0.0, 0.3, 1.0, 4.0])
        z = np.zeros(6)
        got = PyAnEn.VerifyProbGamma({'mu': z + umu, 'unshifted_mu': z + umu, 'sigma': z + sigma, 'shift': z}, o).crps()
        one = PyAnEn.VerifyProbGamma({'mu': (z + umu)[None], 'unshifted_mu': (z + umu)[None], 'sigma': (z + sigma)[None], 'shift': z[None]}, o[None], avg_axis=0).crps()
        # quadrature in local coordinates
        from scipy import special
        want = []
        for x in o:
            F = lambda t: float(special.gammainc(k, max((t + umu) * umu, 0.0)))
            want.append(ref.crps_integral(F, x - umu, max(-umu, -12.0), 12.0, [-3.0, 0.0, 3.0]))
        ck.equal(one, np.array(want), 'gamma CRPS, shape %g' % k, 1e-5, 1e-5)
        ck.equal(got, np.mean(want), 'gamma mean CRPS, shape %g' % k, 1e-5, 1e-5)
        ck.step(2)
        ck.outcome(k)
        ck.trace('large_shape', case)
