"""C07: threshold probabilities of every forecast type form a valid CDF with the right values."""
import itertools

import numpy as np
from scipy import special

from mc import cross, env, ref, verifs as vf
import PyAnEn

BOUNDS = {'quick': 'all ensembles of 1..4 members over 4 values; thresholds on, between and outside the members; all member axes; '
                   'all parameter combinations (5 mu x 4 sigma x 4 shift, 4 pop, truncated ones with down to 1e-250 of the mass above zero) x 16 thresholds from -5 to 1e6; scalar and array thresholds of 12 number types, 4 parameter types, 4 memory layouts, serial and parallel',
          'thorough': 'as quick with 5 members over 4 values and 40 thresholds'}
ASSUMPTIONS = ['kernel density mode: only range, complement and element order are claimed (its numerical integral is approximate)',
               'truncated gamma: at least 1e-250 of the mass above zero; truncated Gaussian: mu/sigma >= -80']


def thresholds(tier):
    t = [-5.0, -1.0, -1e-9, 0, 0.0, 1e-9, 0.05, 0.5, 1, 1.0, 2.5, 4.0, 12.0, 60.0, 1e4, 1e6]
    if tier != 'quick':
        t += [-3.3, -0.4, 0.01, 0.1, 0.2, 0.3, 0.7, 0.9, 1.3, 1.7, 2.0, 3.0, 3.5, 5.0, 6.0, 7.5, 9.0, 15.0, 20.0, 30.0, 45.0, 100.0, 300.0, 1e5]
    return t


def params(kind):
    if kind in ('gauss', 'tgauss'):
        p = [(mu, s) for mu in (-4.0, -0.5, 0.0, 1.0, 20.0) for s in (0.05, 0.7, 1.0, 4.0)]
        if kind == 'tgauss':
            p += [(m, 1.0) for m in (-9.0, -20.0, -36.0, -39.0, -60.0)]        # hardly any mass above zero
        return ['mu', 'sigma'], p
    if kind in ('gamma', 'tgamma'):
        sh = (-2.0, -0.3, 0.0, 1.0)
        p = [(u, s, h, u + h) for u in (0.5, 1.0, 2.0, 10.0) for s in (0.2, 1.0, 5.0) for h in sh]
        if kind == 'tgamma':
            p += [(u, s, h, u + h) for u, s, h in ((1.0, 1.0, -20.0), (1.0, 1.0, -36.0), (1.0, 1.0, -300.0), (0.1, 0.02, -0.5), (5.0, 3.0, -40.0), (3.0, 0.1, -3.5))]
            p = [t for t in p if special.gammaincc((t[0] / t[1]) ** 2, -min(t[2], 0) * t[0] / t[1] ** 2) > 1e-250]
        return ['unshifted_mu', 'sigma', 'shift', 'mu'], p
    return ['pop', 'mu', 'sigma'], [(q, m, s) for q in (0.0, 0.3, 0.8, 1.0) for m in (0.5, 2.0, 9.0) for s in (0.2, 1.0, 4.0)]


def rcdf(kind, x, t):
    if kind == 'gauss':
        return ref.norm_cdf(x, *t)
    if kind == 'tgauss':
        return ref.truncnorm_cdf(x, *t)
    if kind == 'gamma':
        return ref.gamma_cdf(x, *t[:3])
    if kind == 'tgamma':
        return ref.truncgamma_cdf(x, *t[:3])
    return ref.hurdle_cdf(x, *t)


def cases(tier):
    yield from cross.cases(list(vf.ENS) + list(vf.PROB), tier)
    yield from cross.unit_cases(list(vf.ENS) + list(vf.PROB), tier)
    for m in range(1, 5 if tier == 'quick' else 6):
        for axis in [0, -1, None]:
            for dt in ['float64', 'int64']:
                yield {'part': 'ens', 'm': m, 'axis': axis, 'dtype': dt}
    for kind in vf.PROB:
        for layout in ['1d', '2d', '3d', '2dF']:
            yield {'part': 'prob', 'kind': kind, 'layout': layout, 'tier': tier}
    for kind in vf.PROB + ('ens',):
        for mag in (1e-6, 1e-3, 1.0, 1e3, 1e6, 1e9):
            yield {'part': 'sharp', 'kind': kind, 'mag': mag}
    for m in (5, 10, 21, 51, 100, 101, 1000):
        for axis in (0, -1):
            yield {'part': 'many', 'm': m, 'axis': axis}
    for kind in vf.PROB + ('ens',):
        for pt in ('f8', 'f4', 'i4', '>f8'):
            yield {'part': 'types', 'kind': kind, 'ptype': pt}
    for m in (2, 3, 5):
        for kernel in ['gaussian', 'tophat', 'epanechnikov']:
            for bw in (0.01, 0.5, 5.0):
                yield {'part': 'kde', 'm': m, 'kernel': kernel, 'bandwidth': bw}


def probe(ck, mk, thr, want, what, rtol, atol):
    """mk() builds a verifier; want(t) -> expected array for scalar t"""
    prev = None
    for t in sorted(thr, key=float):
        v = mk()
        below = v.cdf(below=t)
        over = mk().cdf(over=t)
        w = want(t)
        ck.state(what, t, type(t).__name__)
        ck.equal(below, w, '%s: probability below %r' % (what, t), rtol, atol)
        ck.check(np.all((below >= 0) & (below <= 1)) and np.all((over >= 0) & (over <= 1)), what + ': outside [0, 1]', t=t)
        ck.equal(np.asarray(below) + np.asarray(over), np.ones_like(w), what + ': below and over do not sum to one', 0, 1e-9, t=t)
        ck.equal(mk().sharpness(below=t), below, what + ': sharpness below', 0, 0)
        ck.equal(mk().sharpness(over=t), over, what + ': sharpness over', 0, 0)
        if prev is not None:
            ck.check(np.all(below >= prev - 1e-12), what + ': probability decreases with the threshold', t=t)
        prev = below
        ck.step(4)
        ck.outcome(np.round(below, 6).tobytes())
    ck.trace(what.split()[0], {'thresholds': thr[:5]})


def sharp(case, ck):
    """narrow forecasts at all magnitudes: thresholds differ by far less than single precision resolves"""
    kind, mag = case['kind'], case['mag']
    for rel in (1e-2, 1e-5, 1e-7, 1e-9):
        mu, s = mag * 1.2345678901, mag * rel
        zs = (-3.0, -0.7, 0.0, 0.4, 2.1)
        ts = [mu + z * s for z in zs]
        n = len(ts)
        one = np.ones(n)
        if kind == 'ens':
            mem = [mu - 2 * s, mu - 0.5 * s, mu + 0.1 * s, mu + s]
            want = [ref.ens_cdf(t, mem) for t in ts]
            mk = lambda: PyAnEn.VerifyEnsemble(np.array([mem] * n), one.copy(), ensemble_axis=-1)
        else:
            if kind in ('gauss', 'tgauss'):
                f, p = {'mu': one * mu, 'sigma': one * s}, (mu, s)
            elif kind == 'hurdle':
                f, p = {'pop': one * 0.7, 'mu': one * mu, 'sigma': one * s}, (0.7, mu, s)
            else:
                f, p = {'mu': one * (mu - 0.3 * mag), 'unshifted_mu': one * mu, 'sigma': one * s, 'shift': -0.3 * mag * one}, (mu, s, -0.3 * mag)
                ts = [t - 0.3 * mag for t in ts]
            if kind in ('gamma', 'tgamma', 'hurdle') and rel < 1e-6:
                continue                       # shape parameters beyond 1e12
            want = [rcdf(kind, t, p) for t in ts]
            mk = lambda: vf.build(kind, {'f': {k: a.copy() for k, a in f.items()}, 'o': one.copy()})
        tol = (1e-6, 1e-7) if rel > 1e-6 else (1e-4, 1e-5)
        ta = np.array(ts)
        ck.equal(mk().cdf(below=ta.copy()), np.array(want), kind + ': sharp forecast, threshold array', *tol, mu=mu, sigma=s)
        ck.equal(mk().cdf(over=ta.copy()), 1 - np.array(want), kind + ': sharp forecast, threshold array', *tol, mu=mu, sigma=s)
        for t, w in zip(ts, want):
            for form in (float(t), np.float64(t)):
                ck.equal(mk().cdf(below=form), one * w, kind + ': sharp forecast', *tol, mu=mu, sigma=s, t=t)
                ck.equal(mk().cdf(over=form), one * (1 - w), kind + ': sharp forecast', *tol, mu=mu, sigma=s, t=t)
            ck.step(4)
            ck.state(rel, t)
            ck.outcome((rel, round(w, 6)))
    ck.trace('sharp/' + kind, case)


def types(case, ck):
    """parameters and thresholds of other number types, memory layouts, serial and parallel"""
    from mc import execs
    execs.MODE = 'fixed'
    kind, pt = case['kind'], case['ptype']
    tol = (1e-5, 1e-6) if pt == 'f4' else (1e-7, 1e-9)
    mu = np.array([[1, 2, 5], [3, 8, 4]], dtype=float)
    sg = np.array([[1, 1, 2], [3, 2, 1]], dtype=float)
    if kind == 'ens':
        par = {'members': np.stack([mu, mu + sg, mu - sg, mu + 2 * sg], axis=-1)}
        want = lambda i, t: ref.ens_cdf(t, par['members'].reshape(-1, 4)[i].tolist())
    elif kind in ('gauss', 'tgauss'):
        par = {'mu': mu, 'sigma': sg}
        want = lambda i, t: rcdf(kind, t, (mu.flat[i], sg.flat[i]))
    elif kind == 'hurdle':
        par = {'pop': np.array([[0, 1, 1], [1, 0, 1]], dtype=float), 'mu': mu, 'sigma': sg}
        want = lambda i, t: rcdf(kind, t, (par['pop'].flat[i], mu.flat[i], sg.flat[i]))
    else:
        par = {'mu': mu - 1, 'unshifted_mu': mu, 'sigma': sg, 'shift': mu * 0 - 1}
        want = lambda i, t: rcdf(kind, t, (mu.flat[i], sg.flat[i], -1.0))
    lays = [np.ascontiguousarray, np.asfortranarray, lambda a: np.repeat(a, 2, 1)[:, ::2], lambda a: a[::-1].copy()[::-1]]
    scalars = [3, 3.0, np.float32(2.5), np.float16(2.5), np.float64(4.0), np.int64(2), np.int8(3), np.uint8(4), np.int32(1), 0, np.int64(0), np.float32(-1)]
    for li, lay in enumerate(lays):
        f = {k: lay(v.astype(pt)) for k, v in par.items()}
        before = {k: v.copy() for k, v in f.items()}

        def mk():
            if kind == 'ens':
                return PyAnEn.VerifyEnsemble(f['members'], np.ones((2, 3)), ensemble_axis=-1)
            return vf.build(kind, {'f': f, 'o': np.ones((2, 3))})
        for st in ({}, {'workers': 2}, {'workers': 2, 'map_axis': -2}) if kind != 'ens' else ({},):
            with env.settings(**st):
                for t in scalars if not st else scalars[2::3]:
                    w = np.array([want(i, float(t)) for i in range(6)]).reshape(2, 3)
                    ck.equal(mk().cdf(below=t), w, '%s: threshold %r of type %s' % (kind, t, type(t).__name__), *tol, parameters=pt, settings=st)
                    ck.equal(mk().cdf(over=t), 1 - w, '%s: threshold %r of type %s' % (kind, t, type(t).__name__), *tol, parameters=pt, settings=st)
                    ck.step(2)
                    ck.state(li, str(st), str(t), type(t).__name__)
                for tt in ('f8', 'f4', 'i8', 'i2', 'u1', '>f8') if not st else ('f4', 'i2'):
                    ta = np.array([[1, 2, 3], [4, 0, 9]]).astype(tt)
                    w = np.array([want(i, float(t)) for i, t in enumerate(ta.ravel())]).reshape(2, 3)
                    for tl in lays if not st else lays[:2]:
                        ck.equal(mk().cdf(below=tl(ta)), w, '%s: thresholds of type %s' % (kind, tt), *tol, parameters=pt, settings=st)
                        ck.equal(mk().cdf(over=tl(ta)), 1 - w, '%s: thresholds of type %s' % (kind, tt), *tol, parameters=pt, settings=st)
                        ck.step(2)
        for k in f:
            ck.check(np.array_equal(f[k], before[k]), 'parameters were changed')
    ck.outcome((kind, pt))
    ck.trace('types/' + kind, case)


def run_case(case, ck):
    if case.get('part') in ('cross', 'binary units'):
        kind = case['kind']
        ops = [['cdf', {'over': 2.5}], ['cdf', {'below': 3.5}], ['sharpness', {'over': 2.5}], ['sharpness', {'below': 3.5}], ['cdf', {'below': ['arr', 5]}]]
        if case['part'] == 'cross':
            cross.run(case, ck, ops)
        else:
            cross.run_units(case, ck, [o for o in ops if not any(isinstance(x, list) and x[0] == 'arr' for x in o[1].values())])
        return
    part = case['part']
    if part == 'types':
        return types(case, ck)
    if part == 'ens':
        m, axis, dt = case['m'], case['axis'], case['dtype']
        alpha = [0, 1, 2, 4] if dt == 'int64' else [-1.0, 0.0, 0.5, 3.0]
        T = np.array(list(itertools.product(alpha, repeat=m)), dtype=dt)      # locations x members
        ck.bulk_states('enumerated_inputs', T.shape[0])
        o = np.zeros(T.shape[0])
        if axis == 0:
            mk = lambda: PyAnEn.VerifyEnsemble(np.ascontiguousarray(T.T), o.copy(), ensemble_axis=0)
        else:
            mk = lambda: PyAnEn.VerifyEnsemble(T.copy(), o.copy(), ensemble_axis=axis)
        thr = sorted(set([-2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 3.999, 4.0, 9.0])) + [0, 1, 2, 4]
        cols = T.astype(float).tolist()
        probe(ck, mk, thr, lambda t: np.array([ref.ens_cdf(t, c) for c in cols]), 'ens', 1e-12, 1e-12)
        # array thresholds: element by element
        ta = np.array([thr[i % 13] for i in range(len(cols))], dtype=float)
        w = np.array([ref.ens_cdf(t, c) for t, c in zip(ta, cols)])
        ck.equal(mk().cdf(below=ta.copy()), w, 'ens array threshold below')
        ck.equal(mk().cdf(over=ta.copy()), 1 - w, 'ens array threshold over')
        ck.step(2)
        # two-dimensional locations
        n = T.shape[0] // 2 * 2
        f2 = T[:n].reshape(2, n // 2, m)
        arr = np.moveaxis(f2, -1, 0) if axis == 0 else f2
        v = PyAnEn.VerifyEnsemble(np.array(arr), np.zeros((2, n // 2)), ensemble_axis=axis if axis is not None else -1)
        for t in thr[:13]:
            ck.equal(v.cdf(below=t), np.array([ref.ens_cdf(t, c) for c in cols[:n]]).reshape(2, n // 2), 'ens 2d', t=t)
        ck.equal(v.cdf(below=ta[:n].reshape(2, n // 2)), w[:n].reshape(2, n // 2), 'ens 2d array threshold')
        ck.trace('ens-2d', case)
    elif part == 'prob':
        kind = case['kind']
        names, P = params(kind)
        P = P + P[:(-len(P)) % 4]
        ck.bulk_states('enumerated_inputs', len(P))
        A = {k: np.array([p[i] for p in P]) for i, k in enumerate(names)}
        shp = {'1d': (len(P),), '2d': (len(P) // 4, 4), '3d': (len(P) // 4, 2, 2), '2dF': (len(P) // 4, 4)}[case['layout']]
        order = 'F' if case['layout'] == '2dF' else 'C'
        f = {k: np.array(a.reshape(shp), order=order) for k, a in A.items()}
        thr = thresholds(case['tier'])
        mk = lambda: vf.build(kind, {'f': {k: a.copy(order='K') for k, a in f.items()}, 'o': np.ones(shp)})
        tol = dict(rtol=1e-7, atol=1e-9)
        probe(ck, mk, thr, lambda t: np.array([rcdf(kind, t, p) for p in P]).reshape(shp), kind, **tol)
        for s in range(len(thr)):
            ta = np.array([float(thr[(i + s) % len(thr)]) for i in range(len(P))]).reshape(shp)
            w = np.array([rcdf(kind, t, p) for t, p in zip(ta.ravel(), P)]).reshape(shp)
            ck.equal(mk().cdf(below=ta.copy()), w, kind + ' array threshold below', **tol)
            ck.equal(mk().cdf(over=ta.copy()), 1 - w, kind + ' array threshold over', **tol)
            ck.state('array', s)
            ck.step(2)
        ck.trace(kind + '-array', case)
        # integer valued parameter arrays
        if kind == 'gauss':
            fi = {'mu': np.array([0, 2, 5]), 'sigma': np.array([1, 2, 3])}
            v = vf.build(kind, {'f': fi, 'o': np.ones(3)})
            for t in (1.5, 2, 0.25):
                ck.equal(v.cdf(below=t), np.array([ref.norm_cdf(t, a, b) for a, b in [(0, 1), (2, 2), (5, 3)]]), 'integer parameters', 1e-8)
    elif part == 'sharp':
        sharp(case, ck)
    elif part == 'many':
        # every number of members at or below the threshold, every order rotation
        m, axis = case['m'], case['axis']
        ks = range(m + 1) if m <= 101 else range(0, m + 1, 37)
        rows = [[1.0 if (i + 3 * k) % m < k else 2.0 for i in range(m)] for k in ks]
        f = np.array(rows)
        o = np.zeros(len(rows))
        mk = lambda: PyAnEn.VerifyEnsemble(f.T.copy() if axis == 0 else f.copy(), o.copy(), ensemble_axis=axis)
        ck.bulk_states('enumerated_inputs', len(rows))
        w = np.array([k / m for k in ks])
        for t in (1.0, 1.5, np.float32(1.5), np.full(len(rows), 1.0)):
            ck.equal(mk().cdf(below=t), w, '%d members below' % m, 1e-12, 1e-13)
            ck.equal(mk().cdf(over=t), 1 - w, '%d members over' % m, 1e-12, 1e-13)
            ck.step(2)
        for x in w:
            ck.outcome((m, float(x)))
        ck.trace('many', case)
    else:
        m = case['m']
        T = np.array(list(itertools.product([0.0, 0.4, 2.0], repeat=m)))[:60]
        T = T[np.ptp(T, axis=1) > 0]
        o = np.zeros(len(T))
        with env.settings(method='kde', kde_bandwidth=case['bandwidth'], kde_kernel=case['kernel'], kde_samples=200):
            for t in (0.1, 1.0, 2.0, 5.0):
                a = PyAnEn.VerifyEnsemble(T.copy(), o.copy(), ensemble_axis=-1).cdf(below=t)
                b = PyAnEn.VerifyEnsemble(T.copy(), o.copy(), ensemble_axis=-1).cdf(over=t)
                c = PyAnEn.VerifyEnsemble(np.ascontiguousarray(T.T), o.copy(), ensemble_axis=0).cdf(below=t)
                ck.check(a.shape == o.shape and np.all((a >= 0) & (a <= 1)) and np.all((b >= 0) & (b <= 1)), 'kde outside [0,1]')
                ck.equal(a + b, np.ones(len(T)), 'kde complement')
                ck.equal(a, c, 'kde depends on the member axis')
                ck.state('kde', t)
                ck.step(3)
            # each location alone gives the same
            for i in range(0, len(T), 7):
                x = PyAnEn.VerifyEnsemble(T[i:i + 1].copy(), o[:1].copy(), ensemble_axis=-1).cdf(below=1.0)
                y = PyAnEn.VerifyEnsemble(T.copy(), o.copy(), ensemble_axis=-1).cdf(below=1.0)[i:i + 1]
                ck.equal(x, y, 'kde location')
        # default accuracy: smooth kernels integrate to about the member fraction
        ck.trace('kde', case)
