"""C04: random members and tie breaks of parallel runs.

Every assignment of tasks to forked workers and every completion order is executed; on every execution no two draws
coincide, and one seed gives one result."""
import numpy as np

from mc import env, execs, verifs as vf
from mc.props.c03 import schedules

BOUNDS = {'quick': 'sampled members of 4 forecast types, tie breaks of 2 ensemble layouts; shapes (4),(3,2),(2,3),(1,3,2); chunk sizes 1-2, split axes -1..-3, 2-3 workers: all assignments and completion orders of up to 4 tasks, two calls in a row, 2 seeds, equal and different parameters',
          'thorough': 'as quick with more shapes (up to 6 tasks, all assignments), 4 seeds and more members'}
ASSUMPTIONS = ['draws of continuous distributions coincide with probability 0; vectors of 6 tie breaks among 61 ranks coincide by chance with probability 2e-11 (and the seeds are fixed)',
               'copies are recognized on the probability scale, so that locations with different parameters are compared too']

SHAPES = [(4,), (3, 2), (2, 3), (1, 3, 2)]


def cases(tier):
    yield from many_cases(tier)
    shapes = SHAPES + ([(6,), (5, 2), (2, 2, 3)] if tier == 'thorough' else [])
    for kind in vf.CLOSED + vf.ENS:
        for shape in shapes:
            for ax in range(-1, -len(shape) - 1, -1):
                for chunk in (1, 2):
                    if chunk > 1 and shape[ax] < 3:
                        continue
                    for workers in (2, 3):
                        if workers == 3 and -(-shape[ax] // chunk) < 3:
                            continue
                        yield {'kind': kind, 'shape': list(shape), 'ax': ax, 'chunk': chunk, 'workers': workers}


def many_cases(tier):
    for kind in vf.CLOSED + vf.ENS:
        for n in (700, 9000) if tier == 'quick' else (700, 9000, 70000):
            for workers, chunk in ((2, 1), (3, 7)):
                yield {'part': 'many', 'kind': kind, 'n': n, 'workers': workers, 'chunk': chunk}


def run_many(case, ck):
    """thousands of locations with equal forecasts: a pair of members (six tie breaks) per location"""
    kind, n = case['kind'], case['n']
    seen = []
    with env.settings(workers=case['workers'], chunksize=case['chunk'], map_axis=-1):
        for seed in (11, 12):
            np.random.seed(seed)
            with execs.schedule(execs.Chooser()):
                if kind in vf.ENS:
                    o = np.zeros((6, n))
                    f = np.zeros((6, n, 60)) if kind == 'ens_last' else np.zeros((60, 6, n))
                    a = np.array(vf.build(kind, {'f': f, 'o': o}).rank_hist()).reshape(6, n)
                else:
                    d = same_params(vf.data(kind, (n,), 3))
                    a = np.array(vf.build(kind, d, n_sample_members=2, move_sampled_ens_axis=0).prob_to_ens()).reshape(2, n)
            ck.step()
            seen += [tuple(c) for c in a.T.tolist()]
    ck.bulk_states('locations', 2 * n)
    # 32 bit seeds may coincide by chance, more often than that they may not
    allowed = 2 if n < 10000 else 20
    ck.check(len(set(seen)) >= len(seen) - allowed, 'draws of different locations are copies of each other', copies=len(seen) - len(set(seen)), locations=n)
    ck.outcome((kind, n, len(set(seen))))
    ck.trace('many/' + kind, case)


def same_params(d):
    f = {k: np.full_like(v, v.ravel()[0]) for k, v in d['f'].items()}
    return {'f': f, 'o': d['o']}


def prob_scale(kind, d, ens):
    """members (leading axis) on the probability scale of their location"""
    from scipy import stats
    f = d['f']
    if kind in ('gauss', 'tgauss'):
        return stats.norm.cdf((ens - f['mu']) / f['sigma'])
    a, sc = (f['unshifted_mu'] / f['sigma']) ** 2, f['sigma'] ** 2 / f['unshifted_mu']
    return stats.gamma.cdf(ens, a, loc=f['shift'], scale=sc)


def distinct(x, eps=1e-11):
    s = np.sort(np.ravel(x))
    return len(s) < 2 or np.min(np.diff(s)) > eps


def run_case(case, ck):
    if case.get('part') == 'many':
        return run_many(case, ck)
    kind, shape = case['kind'], tuple(case['shape'])
    st = dict(workers=case['workers'], chunksize=case['chunk'], map_axis=case['ax'])
    seeds = (11, 12) if ck.quick else (11, 12, 13, 14)
    if kind in vf.ENS:
        return ties(case, ck, kind, shape, st, seeds)
    d0 = vf.data(kind, shape, 3)
    for same in (True, False):
        d = same_params(d0) if same else d0
        nm = 3 if ck.quick else 5
        v = vf.build(kind, vf.copy(d), n_sample_members=nm, move_sampled_ens_axis=0)
        first = {}
        with env.settings(**st):
            for seed in seeds if same else seeds[:1]:
                def run():
                    np.random.seed(seed)
                    a = np.array(v.prob_to_ens())
                    b = np.array(v.prob_to_ens()) if execs.MODE != 'full' else None
                    return a, b
                for mode in ('full', 'fixed'):
                    if mode == 'full' and ck.quick and not (same and seed == seeds[0]):
                        continue
                    for trace, (a, b) in schedules(ck, run, mode):
                        ck.check(a.shape == (nm,) + shape, 'shape of the members', got=a.shape)
                        both = a if b is None else np.concatenate([a, b])
                        ck.check(distinct(both if same else prob_scale(kind, d, both)), 'sampled members are copies of each other', schedule=trace, members=both)
                        if seed not in first:
                            first[seed] = a
                        ck.check(np.array_equal(a, first[seed]), 'the same seed gives different members', schedule=trace, got=a, earlier=first[seed])
                        ck.outcome((case, same, seed, trace))
            # different seeds, no common draws
            if same:
                allv = np.concatenate([first[s] for s in seeds])
                ck.check(distinct(allv), 'different seeds give the same members', members=allv)
        # metrics on top of the members, in both orders of calls
        with env.settings(**st), execs.schedule(execs.Chooser()):
            np.random.seed(5)
            s1 = np.array(vf.build(kind, vf.copy(d), n_sample_members=4, avg_axis=()).spread())
            s2 = np.array(vf.build(kind, vf.copy(d), n_sample_members=4, avg_axis=()).spread())
            ck.check(not same or distinct(np.concatenate([s1.ravel(), s2.ravel()])), 'spreads of sampled members coincide', first=s1, second=s2)
    ck.trace('members/' + kind, case)


def ties(case, ck, kind, shape, st, seeds):
    members, extra = 60, 6
    # the explored axes hold `shape`; a further first axis gives each location a vector of tie breaks
    full = (extra,) + shape
    o = np.zeros(full)
    f = np.zeros(full + (members,)) if kind == 'ens_last' else np.zeros((members,) + full)
    v = vf.build(kind, {'f': f, 'o': o})
    first = {}
    with env.settings(**st):
        for seed in seeds:
            def run():
                np.random.seed(seed)
                a = np.array(v.rank_hist())
                b = np.array(v.rank_hist()) if execs.MODE != 'full' else None
                return a, b
            for mode in ('full', 'fixed'):
                if mode == 'full' and ck.quick and seed != seeds[0]:
                    continue
                for trace, (a, b) in schedules(ck, run, mode):
                    ck.check(a.shape == full, 'shape of the ranks', got=a.shape)
                    cols = [tuple(c) for x in (a, b) if x is not None for c in x.reshape(extra, -1).T.tolist()]
                    ck.check(len(set(cols)) == len(cols), 'tie breaks are copies of each other', schedule=trace, ranks=cols)
                    if seed not in first:
                        first[seed] = a
                    ck.check(np.array_equal(a, first[seed]), 'the same seed gives different tie breaks', schedule=trace)
                    ck.outcome((case, seed, trace))
        cols = [tuple(c) for s in seeds for c in first[s].reshape(extra, -1).T.tolist()]
        ck.check(len(set(cols)) == len(cols), 'different seeds give the same tie breaks')
    ck.trace('ties/' + kind, case)
