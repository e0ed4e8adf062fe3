"""C08: Brier score and decomposition."""
import itertools

import numpy as np

from mc import cross, ref, verifs as vf
import PyAnEn

BOUNDS = {'quick': 'all populations of 1..3 (2 members) and 1..2 (3 members) ensemble/observation samples over 3 values; thresholds on and between values, '
                   'over and below; parametric forecasts on 4 shapes; pooled and along axes',
          'thorough': 'as quick plus 4 samples of 1 member, 2 samples of 4 members and 3 samples of 2 members over 4 values'}


def cases(tier):
    yield from cross.cases(list(vf.ENS) + list(vf.PROB), tier)
    yield from cross.unit_cases(list(vf.ENS) + list(vf.PROB), tier)
    confs = [(1, 1, 3), (1, 2, 3), (1, 3, 3), (2, 1, 3), (2, 2, 3), (3, 1, 3), (3, 2, 2), (2, 3, 2), (4, 1, 3), (5, 1, 3), (7, 1, 2)]
    if tier != 'quick':
        confs += [(1, 4, 3), (2, 2, 4), (2, 3, 3), (4, 2, 2)]
    for m, n, a in confs:
        for axis in (0, -1):
            for t in (0.0, 0.5, 1.0, 1, 2.0, -1.0):
                yield {'part': 'ens', 'm': m, 'n': n, 'a': a, 'axis': axis, 't': t}
    for kind in vf.PROB:
        for shape in [(6,), (3, 4), (2, 3, 4)]:
            for t in (-0.5, 0.0, 1.0, 2.5, 4.0, 9.0, 2):
                yield {'part': 'prob', 'kind': kind, 'shape': list(shape), 't': t}
    for m in (1, 2, 3, 4, 5, 7, 10, 19):
        yield {'part': 'identity', 'm': m}
    yield {'part': 'bins'}
    for m in (20, 40, 50, 100):
        for side in ('over', 'below'):
            yield {'part': 'edges', 'm': m, 'side': side}
    for scale in (1e-6, 1e-3, 1.0, 1e3, 1e6):
        for t in (2.0, 0.1, 0.3, 123.4567):
            yield {'part': 'near', 'scale': scale, 't': t}


def check_columns(ck, mk, P, O, t, what, exact_identity):
    """P below-probabilities (n, N), O observations (n, N)"""
    n, N = P.shape
    for side in ('over', 'below'):
        prob = P if side == 'below' else 1 - P
        ev = O > t if side == 'over' else O < t
        v = mk((0,))
        bs = np.array([ref.brier(prob[:, j].tolist(), ev[:, j].tolist()) for j in range(N)])
        ck.equal(v.brier(**{side: t}), bs, '%s brier %s %r' % (what, side, t))
        dec = [ref.brier_decomp(prob[:, j].tolist(), ev[:, j].tolist()) for j in range(N)]
        got = mk((0,)).brier_decomp(**{side: t})
        ck.check(len(got) == 3, 'decomposition has %d parts' % len(got))
        for k, name in enumerate(['reliability', 'resolution', 'uncertainty']):
            g = np.asarray(got[k], dtype=float)
            ck.equal(g, np.array([x[k] for x in dec]), '%s %s %s %r' % (what, name, side, t), 1e-9, 1e-11)
            ck.check(np.all(g >= -1e-12), name + ' negative')
        if exact_identity:
            ck.equal(np.asarray(got[0]) - np.asarray(got[1]) + np.asarray(got[2]), bs, 'decomposition does not add up', 1e-9, 1e-10)
        # pooled over everything
        pp, ee = prob.ravel().tolist(), ev.ravel().tolist()
        ck.equal(mk(None).brier(**{side: t}), ref.brier(pp, ee), what + ' pooled brier')
        ck.equal(mk(None).brier_decomp(**{side: t}), ref.brier_decomp(pp, ee), what + ' pooled decomposition', 1e-9, 1e-11)
        ck.state(side, t)
        ck.step(4)
        ck.trace('%s/%s' % (what, side), {'t': t, 'n': n, 'N': N})
        for b in bs:
            ck.outcome(round(float(b), 9))


def run_case(case, ck):
    if case.get('part') in ('cross', 'binary units'):
        kind = case['kind']
        ops = [['brier', {'over': 2.5}], ['brier', {'below': 3.5}], ['brier', {'over': ['arr', 5]}], ['brier_decomp', {'over': 2.5}], ['brier_decomp', {'below': 3.5}]]
        if case['part'] == 'cross':
            cross.run(case, ck, ops)
        else:
            cross.run_units(case, ck, [o for o in ops if not any(isinstance(x, list) and x[0] == 'arr' for x in o[1].values())])
        return
    part = case['part']
    if part == 'ens':
        m, n, a, axis, t = case['m'], case['n'], case['a'], case['axis'], case['t']
        T = np.array(list(itertools.product([0.0, 1.0, 2.0, 0.5][:a], repeat=(m + 1) * n))).T
        ck.bulk_states('enumerated_inputs', T.shape[1])
        N = T.shape[1]
        f, o = T[:m * n].reshape(m, n, N), T[m * n:]
        P = (f <= t).sum(axis=0) / m
        farr = f if axis == 0 else np.moveaxis(f, 0, -1)
        mk = lambda av: PyAnEn.VerifyEnsemble(np.array(farr), o.copy(), ensemble_axis=axis, avg_axis=av)
        check_columns(ck, mk, P, o, t, 'ens', True)
    elif part == 'prob':
        kind, shape, t = case['kind'], tuple(case['shape']), case['t']
        d = vf.data(kind, shape)
        d['o'].ravel()[::3] = t if t >= 0 else 0.0     # observations tied with the threshold
        from mc.props.c07 import rcdf
        names = {'gauss': ['mu', 'sigma'], 'tgauss': ['mu', 'sigma'], 'gamma': ['unshifted_mu', 'sigma', 'shift'],
                 'tgamma': ['unshifted_mu', 'sigma', 'shift'], 'hurdle': ['pop', 'mu', 'sigma']}[kind]
        P = np.array([rcdf(kind, t, p) for p in zip(*[d['f'][k].ravel().tolist() for k in names])]).reshape(shape)
        P2, O2 = P.reshape(shape[0], -1), d['o'].reshape(shape[0], -1)

        def mk(av):
            dd = vf.copy(d)
            return vf.build(kind, {'f': {k: x.reshape(P2.shape) for k, x in dd['f'].items()}, 'o': dd['o'].reshape(P2.shape)}, avg_axis=av)
        # float noise at a bin edge cannot be excluded for parametric probabilities: none of these values is near one
        edge = np.min(np.abs(np.subtract.outer(np.concatenate([P2.ravel(), 1 - P2.ravel()]), np.linspace(0, 1, 21)[1:-1])))
        if edge > 1e-6:
            check_columns(ck, mk, P2, O2, t, kind, False)
        # array thresholds
        ta = vf.grid(shape, 3.3, 0.5, 4.0)
        Pa = np.array([rcdf(kind, x, p) for x, p in zip(ta.ravel().tolist(), zip(*[d['f'][k].ravel().tolist() for k in names]))]).reshape(shape)
        for side in ('over', 'below'):
            pr = Pa if side == 'below' else 1 - Pa
            ev = d['o'] > ta if side == 'over' else d['o'] < ta
            v = vf.build(kind, vf.copy(d))
            ck.equal(v.brier(**{side: ta.copy()}), ref.brier(pr.ravel().tolist(), ev.ravel().tolist()), kind + ' brier with threshold array', 1e-7, 1e-9)
            ck.step()
        ck.trace(kind + '/array', case)
    elif part == 'identity':
        # rows: forecasts k/m for every k and both outcomes, all subsets of a small number of rows
        m = case['m']
        rows = [(k, e) for k in range(m + 1) for e in (0, 1)]
        pick = list(itertools.combinations_with_replacement(range(len(rows)), 3)) if m <= 5 else [(i, (i * 5 + 1) % len(rows), (i * 7 + 3) % len(rows)) for i in range(len(rows))]
        f = np.zeros((3, len(pick), m))
        o = np.zeros((3, len(pick)))
        for j, p in enumerate(pick):
            for i, r in enumerate(p):
                k, e = rows[r]
                f[i, j, :k] = 2.0
                o[i, j] = 2.0 * e
        ck.bulk_states('enumerated_inputs', len(pick))
        P = (f <= 1.0).sum(axis=-1) / m
        mk = lambda av: PyAnEn.VerifyEnsemble(f.copy(), o.copy(), ensemble_axis=-1, avg_axis=av)
        check_columns(ck, mk, P, o, 1.0, 'identity', True)
    elif part == 'edges':
        # forecasts k/m on every bin edge that is an exact binary fraction (0.25, 0.5, 0.75) with neighbours in the bins below and above
        m, side = case['m'], case['side']
        for mid in (0.25, 0.5, 0.75):
            k = round(mid * m)
            near = sorted({k - 1, k, k + 1, k + m // 20, k - m // 20, 0, m})
            for rows in itertools.combinations([(r, e) for r in near for e in (0, 1)], 3):
                f = np.array([[2.0] * r + [0.0] * (m - r) for r, _ in rows])
                o = np.array([2.0 if e else 0.0 for _, e in rows])
                pr = [r / m if side == 'over' else (m - r) / m for r, _ in rows]
                if any(abs(p * 20 - round(p * 20)) < 1e-9 and p not in (0.0, 0.25, 0.5, 0.75, 1.0) for p in pr):
                    continue                     # the edge itself is subject to rounding
                ev = [bool(e) if side == 'over' else not e for _, e in rows]
                got = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1).brier_decomp(**{side: 1.0})
                ck.equal(got, ref.brier_decomp(pr, ev), 'probabilities on a bin edge (%s)' % side, 1e-9, 1e-11, probabilities=pr, events=ev)
                ck.step()
                ck.state(rows)
        ck.trace('edges', case)
    elif part == 'near':
        # observations one or few units in the last place (and 1e-12..1e-3 relatively) beside the threshold
        t = case['t'] * case['scale']
        o = [t, float(np.nextafter(t, np.inf)), float(np.nextafter(t, -np.inf))] + [t * (1 + s * 10.0 ** -k) for k in range(3, 15) for s in (1, -1)]
        o = np.array(o)
        n = len(o)
        mem = np.array([[t, np.nextafter(t, np.inf), t * 0.5, t * 1.5][:1 + i % 4] * 4 for i in range(n)], dtype=object)
        mem = np.array([list(r)[:4] for r in mem.tolist()], dtype=float)
        for kind in ('ens', 'gauss'):
            mk = (lambda av: PyAnEn.VerifyEnsemble(mem.copy(), o.copy(), ensemble_axis=-1, avg_axis=av)) if kind == 'ens' else \
                (lambda av: PyAnEn.VerifyProbGaussian({'mu': np.full(n, t * 1.1), 'sigma': np.full(n, t)}, o.copy(), avg_axis=av))
            P = (mem <= t).mean(axis=1) if kind == 'ens' else np.full(n, ref.norm_cdf(t, t * 1.1, t))
            for side in ('over', 'below'):
                pr = P if side == 'below' else 1 - P
                ev = o > t if side == 'over' else o < t
                for th in (t, np.full(n, t)):
                    ck.equal(mk(()).brier(**{side: th}), (pr - ev) ** 2, '%s brier of observations next to the threshold' % kind, 1e-9, 1e-9, t=t)
                    ck.equal(mk(None).brier(**{side: th}), np.mean((pr - ev) ** 2), '%s mean brier of observations next to the threshold' % kind, 1e-9, 1e-9, t=t)
                    got = mk(None).brier_decomp(**{side: th})
                    if kind == 'ens':
                        ck.equal(got, ref.brier_decomp(pr.tolist(), ev.tolist()), 'decomposition of observations next to the threshold', 1e-9, 1e-9, t=t)
                    ck.equal(got[2], np.mean(ev) * (1 - np.mean(ev)), 'uncertainty of observations next to the threshold', 1e-9, 1e-12, t=t)
                    ck.step(3)
                    ck.state(kind, side, np.ndim(th))
        ck.bulk_states('enumerated_inputs', n)
        ck.trace('near', case)
    else:
        # two different probabilities fall into one bin only if they are closer than 1/20: twenty equal-width bins
        for i in range(20):
            for lo, hi in [(0.1, 0.9), (0.4, 0.6)]:
                p = [(i + lo) / 20, (i + hi) / 20, ((i + 1) % 20 + 0.5) / 20]
                from scipy.special import ndtri
                mu = -ndtri(np.array(p))         # P(below 0) = p for sigma 1
                o = np.array([-1.0, 1.0, 1.0])
                v = PyAnEn.VerifyProbGaussian({'mu': mu, 'sigma': np.ones(3)}, o)
                ck.equal(v.brier_decomp(below=0.0), ref.brier_decomp(p, [True, False, False]), 'bin %d' % i, 1e-8, 1e-9)
                ck.state('bin', i, lo)
                ck.step()
        ck.trace('bins', case)
