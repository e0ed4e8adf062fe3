"""C11: reliability diagrams and the reliability index."""
import itertools

import numpy as np

from mc import cross, ref, verifs as vf
import PyAnEn

BOUNDS = {'quick': 'all multisets of 1..4 (probability k/4, outcome) pairs x bin counts 1..7,15; parametric probabilities; over and below; '
                   'pooled 1-D/2-D/3-D data; all histograms of 2..5 ranks with counts 0..3, large counts; to 1000 bins, 5000 pairs, 6 number types',
          'thorough': 'as quick with probabilities k/5, 5 pairs and 6 ranks'}
ASSUMPTIONS = ['a probability exactly on an inner bin edge may be counted in either neighbouring bin']


def cases(tier):
    yield from cross.cases(list(vf.ENS) + list(vf.PROB), tier)
    yield from cross.unit_cases(list(vf.ENS) + list(vf.PROB), tier)
    nbs = [1, 2, 3, 4, 5, 6, 7, 15]
    for m in (4,) if tier == 'quick' else (4, 5):
        for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
            for nb in nbs:
                for side in ('over', 'below'):
                    yield {'part': 'ens', 'm': m, 'n': n, 'nbins': nb, 'side': side}
    for kind in vf.PROB + vf.ENS:
        for shape in [(7,), (3, 4), (2, 3, 3)]:
            for nb in nbs:
                yield {'part': 'prob', 'kind': kind, 'shape': list(shape), 'nbins': nb}
                yield {'part': 'prob', 'kind': kind, 'shape': list(shape), 'nbins': nb, 'edge': True}
    for nb in (20, 49, 50, 51, 60, 64, 100, 101, 128, 200, 1000):
        yield {'part': 'manybins', 'nbins': nb}
        yield {'part': 'manybins', 'nbins': nb, 'members': 1000 if nb > 100 else 100}
    for n in (100, 1000, 5000):
        yield {'part': 'many', 'n': n}
    for t in ('i2', 'i4', 'f4', 'f8', '>f8', 'u1'):
        yield {'part': 'types', 'dtype': t}
    yield {'part': 'bigindex'}
    for n in (2, 3, 4, 5) if tier == 'quick' else (2, 3, 4, 5, 6):
        yield {'part': 'index', 'n': n}


def variants(p, nbins):
    """p as is, and pushed off inner edges in both directions"""
    return p


def bins_of(p, nbins, up):
    e = [k / nbins for k in range(1, nbins)]
    if up:
        return sum(p >= x - 1e-12 for x in e)
    return sum(p > x + 1e-7 for x in e)


def expected(probs, events, nbins, up):
    groups = {}
    for p, e in zip(probs, events):
        groups.setdefault(bins_of(p, nbins, up), []).append((p, float(e)))
    ks = sorted(groups)
    n1 = sum(bool(e) for e in events)
    return ([ref.mean(p for p, _ in groups[k]) for k in ks], [ref.mean(e for _, e in groups[k]) for k in ks],
            [len(groups[k]) for k in ks], [c for c in (len(probs) - n1, n1) if c])


def compare(ck, got, probs, events, nbins, what):
    from mc.core import diff
    got = vf.rel(got)
    ck.check(len(got) == 4, what + ': %d results' % len(got))
    msgs = []
    for up in (False, True):
        w = expected(probs, events, nbins, up)
        msg = None
        for g, x in zip(got, w):
            msg = msg or diff(g, np.array(x, dtype=float), 1e-9, 1e-12)
        if msg is None:
            break
        msgs.append(msg)
    else:
        ck.fail(what + ': ' + msgs[0], probs=probs, events=events, nbins=nbins)
    ck.check(int(np.sum(got[2])) == len(probs) == int(np.sum(got[3])), what + ': pairs lost or counted twice', counts=got[2])
    ck.outcome(tuple(np.round(g, 9).tobytes() for g in got))


def run_case(case, ck):
    if case.get('part') in ('cross', 'binary units'):
        kind = case['kind']
        ops = [['reliability', {'nbins': 3, 'over': 2.5}], ['reliability', {'nbins': 4, 'below': 3.5}], ['reliability', {'nbins': 3, 'over': ['arr', 5]}]]
        if case['part'] == 'cross':
            cross.run(case, ck, ops)
        else:
            cross.run_units(case, ck, [o for o in ops if not any(isinstance(x, list) and x[0] == 'arr' for x in o[1].values())])
        return
    part = case['part']
    if part == 'ens':
        m, n, nb, side = case['m'], case['n'], case['nbins'], case['side']
        rows = [(k, e) for k in range(m + 1) for e in (0, 1)]
        pick = list(itertools.combinations_with_replacement(rows, n)) if n > 2 else list(itertools.product(rows, repeat=n))
        for p in pick:
            # k members above one; outcome above/below one
            f = np.array([[2.0] * k + [0.0] * (m - k) for k, _ in p])
            o = np.array([2.0 if e else 0.0 for _, e in p])
            kw = {side: 1.0}
            probs = [k / m if side == 'over' else 1 - k / m for k, _ in p]
            ev = [bool(e) if side == 'over' else not e for _, e in p]
            got = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1).reliability(nbins=nb, **kw)
            compare(ck, got, probs, ev, nb, 'reliability')
            ck.state(p)
            ck.step()
            ck.trace('ens/' + side, {'pairs': p, 'nbins': nb})
    elif part == 'prob':
        kind, shape, nb = case['kind'], tuple(case['shape']), case['nbins']
        d = vf.data(kind, shape)
        if case.get('edge'):
            d = vf.edge(kind, d, (2.0, 3.5))
        for side in ('over', 'below'):
            for t in (0.5, 2.0, 3.5):
                probs = np.asarray(vf.build(kind, vf.copy(d)).cdf(**{side: t}))
                ev = d['o'] > t if side == 'over' else d['o'] < t
                nd = len(shape)
                for ax in [None, tuple(range(nd)), [-i - 1 for i in range(nd)]]:
                    got = vf.build(kind, vf.copy(d), avg_axis=ax).reliability(nbins=nb, **{side: t})
                    compare(ck, got, probs.ravel().tolist(), ev.ravel().tolist(), nb, kind + ' reliability')
                    ck.step()
                    ck.state(side, t, str(ax))
                ta = np.full(shape, t)
                got = vf.build(kind, vf.copy(d)).reliability(nbins=nb, **{side: ta})
                compare(ck, got, probs.ravel().tolist(), ev.ravel().tolist(), nb, kind + ' reliability, threshold array')
                ck.step()
        ck.trace('prob/' + kind, case)
    elif part == 'manybins':
        # probabilities anywhere between, close to and on the edges
        nb = case['nbins']
        if 'members' in case:
            # ensembles: every number of members beyond the threshold, many times, next to zero and one in particular
            m = case['members']
            ks = sorted(set(list(range(0, m + 1, max(1, m // 50))) + [0, 1, 2, m - 2, m - 1, m]))
            probs = [k / m for k in ks for _ in (0, 1)]
            f = np.array([[2.0] * k + [0.0] * (m - k) for k in ks for _ in (0, 1)])
            ev = np.array([(i * 7 // 3) % 2 == 1 for i in range(len(probs))])
            o = np.where(ev, 2.0, 0.0)
            got = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1).reliability(nbins=nb, over=1.0)
            off = [i for i, q in enumerate(probs) if abs(q * nb - round(q * nb)) > 1e-6 or q in (0, 1)]
            if len(off) < len(probs):      # probabilities on inner edges may go either way, each on its own
                f, o, ev, probs = f[off], o[off], ev[off], [probs[i] for i in off]
                got = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1).reliability(nbins=nb, over=1.0)
            compare(ck, got, probs, ev.tolist(), nb, 'reliability with %d bins' % nb)
            ck.step()
            ck.state(m)
            ck.trace('manybins/ensemble', case)
            return
        n = 240
        for salt in (0.1, 0.7):
            d = vf.data('gauss', (n,), salt)
            for side in ('over', 'below'):
                for t in (1.5, 3.0):
                    probs = np.asarray(vf.build('gauss', vf.copy(d)).cdf(**{side: t}))
                    ev = d['o'] > t if side == 'over' else d['o'] < t
                    got = vf.build('gauss', vf.copy(d)).reliability(nbins=nb, **{side: t})
                    compare(ck, got, probs.tolist(), ev.tolist(), nb, 'reliability with %d bins' % nb)
                    ck.step()
                    ck.state(salt, side, t)
        for m in (7, 29) if nb % 7 else (23, 29):         # no probability on an inner edge
            k = np.arange(n) * 11 % (m + 1)
            f = (np.arange(m) < k[:, None]) * 2.0
            o = np.where(np.arange(n) * 7 % 3 == 0, 2.0, 0.0)
            got = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1).reliability(nbins=nb, over=1.0)
            compare(ck, got, (k / m).tolist(), (o > 1).tolist(), nb, 'reliability with %d bins' % nb)
            ck.step()
            ck.state(m)
        ck.trace('many bins', case)
    elif part == 'many':
        n, m = case['n'], 16                                # on edges of 4 bins only, which are exact
        k = np.arange(n) * 7 % 19 % (m + 1)
        f = (np.arange(m) < k[:, None]) * 2.0
        for every in (2, 7, n):
            o = np.where(np.arange(n) % every == 0, 2.0, 0.0)
            for nb in (4, 5, 11):
                for side in ('over', 'below'):
                    p = k / m if side == 'over' else 1 - k / m
                    e = o > 1 if side == 'over' else o < 1
                    for shape in ((n,), (n // 10, 10), (2, n // 20, 10)):
                        got = PyAnEn.VerifyEnsemble(f.reshape(shape + (m,)), o.reshape(shape), ensemble_axis=-1).reliability(nbins=nb, **{side: 1.0})
                        compare(ck, got, p.tolist(), e.tolist(), nb, 'reliability of %d pairs' % n)
                        ck.step()
                        ck.state(every, nb, side, shape)
        ck.trace('many pairs', case)
    elif part == 'types':
        t = case['dtype']
        m, n = 4, 12
        k = np.array([0, 1, 2, 3, 4, 4, 0, 2, 1, 3, 2, 2])
        f = ((np.arange(m) < k[:, None]) * 2).astype(t)
        o = np.array([2, 0] * 6).astype(t)
        for which in ('both', 'f', 'o'):
            for lay in (np.ascontiguousarray, np.asfortranarray):
                F, O = f if which != 'o' else f.astype(float), o if which != 'f' else o.astype(float)
                for nb in (1, 2, 3, 5, 9):
                    for side in ('over', 'below'):
                        for th in (1, 1.0, 1.5):
                            p = k / m if side == 'over' else 1 - k / m
                            e = o > th if side == 'over' else o < th
                            for shape in ((n,), (3, 4)):
                                got = PyAnEn.VerifyEnsemble(lay(F.reshape(shape + (m,))), lay(O.reshape(shape)), ensemble_axis=-1).reliability(nbins=nb, **{side: th})
                                compare(ck, got, p.tolist(), e.tolist(), nb, 'reliability of ' + t)
                                ck.step()
                        ck.state(which, nb, side)
        ck.trace('types', case)
    elif part == 'bigindex':
        for n in (2, 3, 7, 51, 101):
            for c in (1, 9, 250, 10 ** 6):
                for bump in (0, 1, c):
                    h = [c] * n
                    h[n // 2] += bump
                    want = sum(abs(x / sum(h) - 1 / n) for x in h)
                    for form in ['i8', 'i4', 'f8', 'f4'] + (['u1', 'i2'] if max(h) < 256 else []):
                        got = PyAnEn.VerifyEnsemble.reliability_index(np.array(h, dtype=form))
                        ck.equal(got, want, 'reliability index of ' + form, 1e-5 if form == 'f4' else 1e-9, 1e-6 if form == 'f4' else 1e-12, ranks=n, counts=(c, bump))
                        ck.step()
                    got = PyAnEn.VerifyEnsemble.reliability_index(np.array(h) / sum(h))
                    ck.equal(got, want, 'reliability index of frequencies', 1e-9, 1e-12, ranks=n, counts=(c, bump))
                    ck.state(n, c, bump)
        ck.trace('index of large counts', case)
    else:
        n = case['n']
        for h in itertools.product(range(4), repeat=n):
            if sum(h) == 0:
                continue
            want = sum(abs(x / sum(h) - 1 / n) for x in h)
            for form in (np.array(h), np.array(h, dtype=float), np.array(h) / sum(h)):
                got = PyAnEn.VerifyEnsemble.reliability_index(form.copy())
                ck.equal(got, want, 'reliability index', 1e-9, 1e-12, histogram=h)
                ck.step()
            flat = len(set(h)) == 1
            ck.check((abs(got) < 1e-12) == flat, 'index is zero exactly for flat histograms', histogram=h)
            ck.state(h)
            ck.outcome(round(want, 9))
            ck.trace('index', {'histogram': h})
