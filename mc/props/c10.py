"""C10: ranks, fair tie breaking and PIT."""
import itertools
from collections import Counter

import numpy as np

from mc import cross, env, execs, ref, rng, verifs as vf
import PyAnEn

BOUNDS = {'quick': 'all ensembles of 1..4 members and observations over 3-4 values; all member axes, 1-3 location dimensions, serial and 2 workers; '
                   'tie breaks: every 2-word (16x16) random stream for 1..4 ties at each location, all 2^6 streams for joint outcomes; PIT on parameter grids',
          'thorough': 'as quick with 5 members and 3 workers'}
ASSUMPTIONS = ['tie-break fairness: outcome frequencies over the enumerated random streams are equal within 40% '
               '(exactly equal for power-of-two candidates with the present generator)']


def cases(tier):
    yield from cross.cases(list(vf.ENS) + list(vf.PROB), tier)
    yield from cross.unit_cases(list(vf.ENS) + list(vf.PROB), tier)
    for m in range(1, 5 if tier == 'quick' else 6):
        for axis in (0, -1):
            for nd in (1, 2, 3):
                for w in (1, 2) if tier == 'quick' else (1, 2, 3):
                    yield {'part': 'ranks', 'm': m, 'axis': axis, 'nd': nd, 'workers': w}
    for k in (1, 2, 3, 4):
        for lower in (0, 1, 2):
            for upper in (0, 1):
                for axis in (0, -1):
                    for extra in (False, True):
                        yield {'part': 'fair', 'k': k, 'lower': lower, 'upper': upper, 'axis': axis, 'extra': extra}
    for k1, k2 in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 3)]:
        for w in (1, 2):
            yield {'part': 'joint', 'k1': k1, 'k2': k2, 'workers': w}
    for scale in (1.0, 1e-7, 1e7):
        for w in (1, 2):
            yield {'part': 'near', 'scale': scale, 'workers': w}
    for m in (5, 9, 20, 50, 75, 150):
        for axis in (0, -1):
            for w in (1, 2):
                yield {'part': 'mixed', 'm': m, 'axis': axis, 'workers': w}
    for ft in ('int64', 'float32', 'float64', 'int16'):
        for ot in ('int64', 'float32', 'float64', 'int32', 'uint8'):
            for w in (1, 2):
                yield {'part': 'types', 'f': ft, 'o': ot, 'workers': w}
    for n in (2, 3, 4):
        yield {'part': 'alltied', 'n': n}
    for kind in vf.PROB:
        for w in (1, 2):
            yield {'part': 'pit', 'kind': kind, 'workers': w}


def run_case(case, ck):
    if case.get('part') in ('cross', 'binary units'):
        kind = case['kind']
        ops = [['rank_hist', {}]] if kind in vf.ENS else [['pit', {}]]
        if case['part'] == 'cross':
            cross.run(case, ck, ops)
        else:
            cross.run_units(case, ck, [o for o in ops if not any(isinstance(x, list) and x[0] == 'arr' for x in o[1].values())])
        return
    part = case['part']
    execs.MODE = 'fixed'
    rng.selftest()
    if part == 'ranks':
        m, axis, nd = case['m'], case['axis'], case['nd']
        vals = [0.0, 1.0, 2.0, 5.0] if m <= 3 else [0.0, 1.0, 2.0]
        T = np.array(list(itertools.product(vals, repeat=m + 1)))
        n = len(T)
        if nd == 2:
            T = T[:n // 3 * 3].reshape(3, n // 3, m + 1)
        elif nd == 3:
            T = T[:n // 4 * 4].reshape(2, n // 4, 2, m + 1)
        ck.bulk_states('enumerated_inputs', int(np.prod(T.shape[:-1])))
        o, f = T[..., -1], T[..., :-1]
        farr = np.ascontiguousarray(np.moveaxis(f, -1, 0)) if axis == 0 else f
        cand = [ref.ranks(a, b) for a, b in zip(f.reshape(-1, m).tolist(), o.ravel().tolist())]
        axes = [-1] if case['workers'] == 1 else list(range(-nd, 0))
        for ma in axes:
            for seed in range(3):
                np.random.seed(seed)
                with env.settings(workers=case['workers'], map_axis=ma, chunksize=1 if T.shape[ma - 1] < 5 else 50):
                    got = PyAnEn.VerifyEnsemble(farr.copy(), o.copy(), ensemble_axis=axis).rank_hist()
                ck.step()
                ck.state(ma, seed)
                g = np.asarray(got)
                ck.check(g.shape == o.shape, 'rank shape %s' % (g.shape,))
                for i, (r, c) in enumerate(zip(g.ravel().tolist(), cand)):
                    if r not in c:
                        ck.fail('rank %r not among %s' % (r, c), members=f.reshape(-1, m)[i], o=o.ravel()[i])
                ck.outcome(g.tobytes())
        # only untied locations: fully determined
        free = np.array([len(c) == 1 for c in cand])
        fo, ff = o.ravel()[free], f.reshape(-1, m)[free]
        with env.settings(workers=case['workers'], chunksize=64):
            got = PyAnEn.VerifyEnsemble(ff.T.copy() if axis == 0 else ff.copy(), fo.copy(), ensemble_axis=axis).rank_hist()
        ck.equal(got, np.array([c[0] for c in cand if len(c) == 1]), 'ranks without ties')
        ck.trace('ranks/%d workers' % case['workers'], case)
    elif part == 'fair':
        k, lo, up = case['k'], case['lower'], case['upper']
        members = [0.0] * lo + [1.0] * k + [2.0] * up
        if case['extra']:      # untied and differently tied neighbours in the same call
            f = np.array([members, [5.0] * len(members), [0.0] * (len(members) - 1) + [1.0]])
        else:
            f = np.array([members])
        o = np.ones(len(f))
        farr = f.T.copy() if case['axis'] == 0 else f
        cnt = Counter()
        for a in range(16):
            for b in range(16):
                rng.set_words([rng.nib(a), rng.nib(b), rng.nib(a * 7 + b * 3 + 1), rng.nib(a * 3 + b * 5 + 2), rng.nib(b * 9 + 4)])
                g = np.asarray(PyAnEn.VerifyEnsemble(farr.copy(), o.copy(), ensemble_axis=case['axis']).rank_hist())
                cnt[int(g[0])] += 1
                ck.step()
                ck.state(a, b)
        want = ref.ranks(members, 1.0)
        ck.check(set(cnt) == set(want), 'reachable ranks %s, expected %s' % (sorted(cnt), want), members=members)
        mean = 256 / len(want)
        for r in want:
            ck.check(abs(cnt[r] - mean) <= 0.4 * mean, 'tie breaking is biased: %s' % dict(cnt), members=members)
            ck.outcome((k, lo, r, cnt[r]))
        ck.trace('fair', case)
    elif part == 'joint':
        m = 3
        f = np.array([[1.0] * case['k1'] + [9.0] * (m - case['k1']), [1.0] * case['k2'] + [9.0] * (m - case['k2'])])
        o = np.ones(2)
        seen = set()
        n = 6
        for bits in itertools.product([0, 1], repeat=n):
            if case['workers'] == 1 and case['k1'] == case['k2'] == 1:
                rng.set_words([rng.nib([0, 15][b] ^ (i * 5 & 15)) for i, b in enumerate(bits)])
            else:
                np.random.seed(sum(b << i for i, b in enumerate(bits)))
            with env.settings(workers=case['workers']):
                g = np.asarray(PyAnEn.VerifyEnsemble(f.copy(), o.copy(), ensemble_axis=-1).rank_hist())
            seen.add(tuple(int(x) for x in g))
            ck.step()
            ck.state(bits)
        want = set(itertools.product(range(1, case['k1'] + 2), range(1, case['k2'] + 2)))
        ck.check(seen <= want, 'impossible ranks', seen=sorted(seen - want))
        if len(want) <= 4:
            ck.check(seen == want, 'joint outcomes never reached', missing=sorted(want - seen))
        else:
            ck.check({a for a, _ in seen} == {a for a, _ in want} and {b for _, b in seen} == {b for _, b in want}, 'outcomes never reached', seen=sorted(seen))
            ck.check(len(seen) > max(case['k1'], case['k2']) + 1, 'tied locations always get the same outcome', seen=sorted(seen))
        for s in seen:
            ck.outcome(s)
        ck.trace('joint/%d workers' % case['workers'], case)
    elif part in ('near', 'types'):
        # members one ulp to 1e-9 (relative) beside the observation are not ties
        if part == 'near':
            rows = []
            for base in (1.0, 2.5, -3.0, 300.15):
                b = base * case['scale']
                up, dn = float(np.nextafter(b, np.inf)), float(np.nextafter(b, -np.inf))
                for rel in (None, 1e-15, 1e-13, 1e-11, 1e-9):
                    u, l = (up, dn) if rel is None else (b + abs(b) * rel, b - abs(b) * rel)
                    if u == b or l == b:
                        u, l = up, dn
                    for mem in itertools.product((l, u), repeat=3):
                        rows.append((list(mem), b))
            f, o = np.array([r[0] for r in rows]), np.array([r[1] for r in rows])
        else:
            T = list(itertools.product([-2, 0, 3, 2 ** 20], [-1, 1, 4], [0, 2], [-3, 5, 7, 2 ** 20 + 1]))
            if case['f'] == 'int16':
                T = list(itertools.product([-2, 0, 3, 20000], [-1, 1, 4], [0, 2], [-3, 5, 7, 20001]))
            if case['o'] == 'uint8':
                T = [t[:3] + (abs(t[3]) % 254 + 5,) for t in T]
            f, o = np.array([t[:3] for t in T], dtype=case['f']), np.array([t[3] for t in T], dtype=case['o'])
            if case['o'].startswith('float'):
                # observations closer to the members than the members' type resolves
                near = []
                for base in (1, 3, 300, 20000):
                    for m0 in (-1, 0, 1):
                        for eps in (2.0 ** -30, -2.0 ** -30, 0.25, -0.25):
                            x = np.dtype(case['o']).type(base + eps)
                            if float(x) != base:
                                near.append(([base, base + m0, base], x))
                f = np.concatenate([f, np.array([r[0] for r in near], dtype=case['f'])])
                o = np.concatenate([o, np.array([r[1] for r in near], dtype=case['o'])])
            keep = np.array([len(ref.ranks(a, b)) == 1 for a, b in zip(f.tolist(), o.tolist())])
            f, o = f[keep], o[keep]
        want = [ref.ranks(a, b) for a, b in zip(f.tolist(), o.tolist())]
        if any(len(w) != 1 for w in want):
            raise RuntimeError('ties in the data of the check')
        want = np.array([w[0] for w in want])
        ck.bulk_states('enumerated_inputs', len(o))
        for axis in (0, -1):
            with env.settings(workers=case.get('workers', 1), chunksize=64):
                got = PyAnEn.VerifyEnsemble(f.T.copy() if axis == 0 else f.copy(), o.copy(), ensemble_axis=axis).rank_hist()
            ck.equal(got, want, 'ranks of nearly equal members')
            ck.step()
            ck.state(axis)
        ck.outcome(want.tobytes())
        ck.trace(part, case)
    elif part == 'mixed':
        # locations with every number of ties at once
        m, axis = case['m'], case['axis']
        rows = []
        for k in range(0, m + 1, max(1, m // 12)):
            for lo in range(0, m - k + 1, max(1, m // 5)):
                rows.append([0.0] * lo + [1.0] * k + [2.0] * (m - k - lo))
        rows = [r[i % m:] + r[:i % m] for i, r in enumerate(rows)]
        f, o = np.array(rows), np.ones(len(rows))
        cand = [ref.ranks(r, 1.0) for r in rows]
        ck.bulk_states('enumerated_inputs', len(rows))
        seen = [Counter() for _ in rows]
        n = 60 if case['workers'] == 1 else 8
        for seed in range(n):
            np.random.seed(seed)
            with env.settings(workers=case['workers'], chunksize=1 + len(rows) // 2):
                g = np.asarray(PyAnEn.VerifyEnsemble(f.T.copy() if axis == 0 else f.copy(), o.copy(), ensemble_axis=axis).rank_hist())
            ck.step()
            ck.state(seed)
            for i, (r, c) in enumerate(zip(g.tolist(), cand)):
                ck.check(r in c, 'rank %r not among %s' % (r, c), members=rows[i])
                seen[i][r] += 1
        for i, c in enumerate(cand):
            if case['workers'] == 1 and len(c) <= 6:
                ck.check(set(seen[i]) == set(c), 'ranks never reached', reached=sorted(seen[i]), candidates=c, members=rows[i])
            elif len(c) > 3:
                ck.check(len(seen[i]) > 1, 'ties are not broken at random', members=rows[i])
            ck.outcome(len(seen[i]))
        ck.trace('mixed', case)
    elif part == 'alltied':
        n = case['n']
        f, o = np.ones((n, 3, 2)), np.ones((n, 3))
        seen = [set() for _ in range(o.size)]
        for seed in range(64):
            np.random.seed(seed)
            g = np.asarray(PyAnEn.VerifyEnsemble(f.copy(), o.copy(), ensemble_axis=-1).rank_hist())
            ck.step()
            ck.state(seed)
            for s, r in zip(seen, g.ravel().tolist()):
                s.add(r)
        ck.check(all(s == {1, 2, 3} for s in seen), 'ranks reached when every location is tied', seen=[sorted(s) for s in seen])
        ck.trace('alltied', case)
    else:
        from mc.props.c07 import params, rcdf
        kind = case['kind']
        names, P = params(kind)
        obs = [0.0, 0.5, 2.5, 0.0, 12.0, 1e-9, -1e-9, 5e-324, -1.0]
        A = {k: np.array([[p[i]] * len(obs) for p in P]) for i, k in enumerate(names)}
        o = np.array([obs] * len(P))
        want = np.array([[rcdf(kind, x, p) for x in obs] for p in P])
        ck.bulk_states('enumerated_inputs', o.size)
        zero = o == 0
        for rand in (True, False):
            for method in ('pit', 'rank_hist'):
                res = []
                for seed in range(4):
                    np.random.seed(seed)
                    with env.settings(workers=case['workers']):
                        v = vf.build(kind, {'f': {k: a.copy() for k, a in A.items()}, 'o': o.copy()}, pit_randomize_zero_ranks=rand)
                        g = np.asarray(getattr(v, method)())
                    res.append(g)
                    ck.step()
                    ck.state(rand, method, seed)
                    ck.check(g.shape == o.shape, 'PIT shape')
                    ck.equal(g[~zero], want[~zero], kind + ' PIT', 1e-7, 1e-9)
                    if rand:
                        ck.check(np.all((g[zero] >= 0) & (g[zero] <= want[zero] + 1e-9)), kind + ' PIT of exact zeros out of range')
                    else:
                        ck.equal(g[zero], want[zero], kind + ' PIT without randomization', 1e-7, 1e-9)
                if rand:
                    big = zero & (want > 1e-6)
                    if big.any():
                        R = np.array([r[big] for r in res])
                        ck.check(np.all(R.std(axis=0) > 0), kind + ' PIT of exact zeros is not random')
                        u = R / want[big]
                        ck.check(len(np.unique(np.round(u[0], 9))) > 0.9 * u.shape[1], kind + ' PIT of exact zeros repeats one random number')
                        ck.check(abs(u.mean() - 0.5) < 0.25 and u.max() > 0.7 and u.min() < 0.3, kind + ' PIT of exact zeros is not uniform', mean=u.mean())
        ck.trace('pit/' + kind, case)
