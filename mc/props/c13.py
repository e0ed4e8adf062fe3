"""C13: binned spread-skill."""
import itertools
import math

import numpy as np

from mc import cross, ref, verifs as vf
import PyAnEn

BOUNDS = {'quick': 'all orderings of 1..5 distinct variances (as columns of one call and, up to 4, one call each), every bin count 1..n, '
                   'ensembles (member first/last) and Gaussian; 2-D and 3-D data with all axis subsets',
          'thorough': 'orderings up to 6, more shapes'}


def cases(tier):
    yield from cross.cases(list(vf.ENS) + list(vf.PROB), tier)
    yield from cross.unit_cases(list(vf.ENS) + list(vf.PROB), tier)
    for n in range(1, 6 if tier == 'quick' else 7):
        for nb in range(1, n + 1):
            for kind in ('ens_last', 'ens_first', 'gauss', 'gamma'):
                yield {'part': 'perm', 'n': n, 'nbins': nb, 'kind': kind}
    shapes = [(6,), (3, 4), (4, 3), (2, 3, 2)] + ([(5, 4), (3, 2, 4), (2, 2, 2, 3)] if tier != 'quick' else [])
    for kind in ('ens_last', 'ens_first', 'gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle'):
        for shape in shapes:
            nd = len(shape)
            for ax in [None] + [list(s) for r in range(1, nd + 1) for s in itertools.combinations(range(nd), r)]:
                for salt in (0, 4):
                    yield {'part': 'axes', 'kind': kind, 'shape': list(shape), 'axes': ax, 'salt': salt}

    for n in (16, 17, 50, 101, 300) + ((1000, 3000) if tier != 'quick' else ()):
        for kind in ('ens_last', 'ens_first', 'gauss', 'gamma'):
            for data in ('spread', 'close', 'tiny', 'huge'):
                yield {'part': 'large', 'n': n, 'kind': kind, 'data': data}


def make(kind, V, E):
    """forecast with predictive variance V and error E (observation = forecast - E)"""
    mu = np.arange(V.size).reshape(V.shape) % 3 + 2.0
    o = mu - E
    if kind == 'gauss':
        f = {'mu': mu, 'sigma': np.sqrt(V)}
    elif kind == 'gamma':
        f = {'mu': mu, 'sigma': np.sqrt(V), 'shift': np.zeros_like(mu) - 0.5, 'unshifted_mu': mu + 0.5}
    else:
        s = np.sqrt(V)
        f = np.stack([mu - s, mu + s], 0 if kind == 'ens_first' else -1)
    return {'f': f, 'o': o}


def run_case(case, ck):
    if case.get('part') in ('cross', 'binary units'):
        kind = case['kind']
        ops = [['binned_spread_skill', {'nbins': 2}], ['binned_spread_skill', {'nbins': 5}]]
        if case['part'] == 'cross':
            cross.run(case, ck, ops)
        else:
            cross.run_units(case, ck, [o for o in ops if not any(isinstance(x, list) and x[0] == 'arr' for x in o[1].values())])
        return
    if case['part'] == 'perm':
        n, nb, kind = case['n'], case['nbins'], case['kind']
        perms = list(itertools.permutations(range(n)))
        base = [0.25, 4.0, 1.0, 9.0, 0.04, 2.25][:n]
        V = np.array([[base[i] for i in p] for p in perms]).T
        E = np.array([[0.3 + 0.7 * r + 0.1 * r * r for r in range(n)] for _ in perms]).T
        ck.bulk_states('enumerated_inputs', len(perms))
        d = make(kind, V, E)
        sp, rm = vf.build(kind, vf.copy(d), avg_axis=0).binned_spread_skill(nbins=nb)
        want = [ref.spread_skill(V[:, j].tolist(), (E[:, j] ** 2).tolist(), nb) for j in range(len(perms))]
        ck.equal(sp, np.array([w[0] for w in want]), 'spread per bin', 1e-8, 1e-9)
        ck.equal(rm, np.array([w[1] for w in want]), 'error per bin', 1e-8, 1e-9)
        ck.step()
        for w in want:
            ck.outcome(str(w))
        if n <= 4:
            for j in range(len(perms)):
                dj = make(kind, V[:, j], E[:, j])
                d1 = {'f': vf.take(kind, d, (slice(None), j))['f'], 'o': d['o'][:, j].copy()}
                sp, rm = vf.build(kind, d1).binned_spread_skill(nbins=nb)
                ck.equal(sp, np.array(want[j][0]), 'spread per bin, single population', 1e-8, 1e-9)
                ck.equal(rm, np.array(want[j][1]), 'error per bin, single population', 1e-8, 1e-9)
                ck.step()
                ck.state(j)
        ck.trace('perm/' + kind, case)
    elif case['part'] == 'large':
        n, kind, data = case['n'], case['kind'], case['data']
        V = vf.grid((n, 2), 0.9, 0.1, 9.0)
        if data == 'close':
            V = 4.0 + np.argsort(np.argsort(V, axis=0), axis=0) * 1e-9         # distinct, nearly equal
        elif data in ('tiny', 'huge'):
            V = V * {'tiny': 1e-8, 'huge': 1e8}[data]
        E = vf.grid((n, 2), 2.9, 0.1, 3.0) + 5.0 * (np.arange(n) % 7 == 3)[:, None]
        d = make(kind, V, E)
        # the predictive variance in floating point decides the order
        var = np.asarray(d['f']['sigma'] ** 2 if isinstance(d['f'], dict) else np.array([[ref.pvariance(x) for x in r] for r in (np.moveaxis(d['f'], 0, -1) if kind == 'ens_first' else d['f']).tolist()]))
        got_var = np.asarray(vf.build(kind, vf.copy(d)).variance())
        ck.equal(got_var, var, 'predictive variance', 1e-7, 1e-12 if data != 'huge' else 1e-3)
        sq = np.asarray((np.asarray(vf.build(kind, vf.copy(d)).f_determ()) - d['o']) ** 2)
        for nb in [b for b in (1, 2, 7, 15, 16, 20, 33, 100) if b <= n]:
            for axis in (0, None):
                sp, rm = vf.build(kind, vf.copy(d), avg_axis=axis).binned_spread_skill(nbins=nb)
                cols = [(got_var[:, j].tolist(), sq[:, j].tolist()) for j in range(2)] if axis == 0 else [(got_var.ravel().tolist(), sq.ravel().tolist())]
                if any(len(set(c[0])) < len(c[0]) for c in cols):
                    continue                                                     # ties: order within is free
                want = [ref.spread_skill(a, b, nb) for a, b in cols]
                ws, wr = np.array([w[0] for w in want]), np.array([w[1] for w in want])
                ck.equal(sp, ws if axis == 0 else ws[0], 'spread per bin of %d pairs' % n, 1e-8, 1e-9, nbins=nb)
                ck.equal(rm, wr if axis == 0 else wr[0], 'error per bin of %d pairs' % n, 1e-8, 1e-9, nbins=nb)
                ck.step()
                ck.state(nb, axis)
                ck.outcome((n, nb, data))
        ck.trace('large', case)
    else:
        kind, shape, ax = case['kind'], tuple(case['shape']), case['axes']
        d = vf.data(kind, shape, case['salt'])
        V = np.asarray(vf.build(kind, vf.copy(d)).variance())
        S = (np.asarray(vf.build(kind, vf.copy(d)).f_determ()) - d['o']) ** 2
        pool = int(np.prod([shape[i] for i in (ax if ax is not None else range(len(shape)))]))
        for nb in range(1, min(pool, 5) + 1):
            sp, rm = vf.build(kind, vf.copy(d), avg_axis=ax).binned_spread_skill(nbins=nb)
            w = ref.by_slice(lambda a, b: ref.spread_skill(a, b, nb), [V, S], ax)
            ck.equal(sp, np.array([x[0] for x in w.ravel()]).reshape(w.shape + (nb,)), kind + ' spread over %r' % (ax,), 1e-8, 1e-9)
            ck.equal(rm, np.array([x[1] for x in w.ravel()]).reshape(w.shape + (nb,)), kind + ' error over %r' % (ax,), 1e-8, 1e-9)
            ck.step()
            ck.state(nb)
            ck.outcome(np.round(np.asarray(sp), 8).tobytes())
        ck.trace('axes/' + kind, case)
