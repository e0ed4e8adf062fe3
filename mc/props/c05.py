"""C05: aggregation over axes == per-slice values, for every spelling of every subset of axes."""
import itertools

import numpy as np

from mc import cross, env, verifs as vf

BOUNDS = {'quick': 'shapes (5,), (2,3), (3,2,2), (2,3,2,2) and with dimensions of length one; every non-empty axis subset in every order, '
                   'negative/mixed spelling, int/list/tuple; 8 forecast types; all axis-aware metrics; bootstrapped layout'}
BOUNDS['thorough'] = BOUNDS['quick'] + '; additionally shapes (3,4), (4,3), (2,3,4), (2,2,3,2), (2,2,2,1,2) and 2 data sets'
ASSUMPTIONS = ['data are fixed irrational-like numbers, all distinct, so that any misplaced element is visible']


def spellings(nd, sub, full):
    """all ways to write the axis subset sub of an nd-dimensional array"""
    out = []
    if len(sub) == 1:
        out += [sub[0], sub[0] - nd]
    perms = list(itertools.permutations(sub))
    if nd > 3 and not full and len(sub) > 2:
        perms = [tuple(sub), tuple(sub[::-1]), tuple(sub[1:] + sub[:1])]
    for p in perms:
        signs = list(itertools.product([0, nd], repeat=len(p)))
        if not full and len(p) > 1:
            signs = [(0,) * len(p), (nd,) * len(p), tuple(nd * (i % 2) for i in range(len(p)))]
        for s in signs:
            out.append([a - k for a, k in zip(p, s)])
    seen = []
    for s in out:
        if s not in seen:
            seen.append(s)
    return seen


def cases(tier):
    for kind in vf.KINDS:
        for axes in (0, -1, [1, 0]):
            for c in cross.cases([kind], tier):
                yield dict(c, axes=axes)
    shapes = [(5,), (2, 3), (3, 2, 2), (1, 4), (4, 1), (1,), (2, 1, 3), (2, 3, 2, 2)]
    if tier != 'quick':
        shapes += [(3, 4), (4, 3), (2, 3, 4), (2, 2, 3, 2), (2, 2, 2, 1, 2)]
    for shape in shapes:
        nd = len(shape)
        subs = [None] + [list(s) for r in range(1, nd + 1) for s in itertools.combinations(range(nd), r)]
        for kind in vf.KINDS:
            for sub in subs:
                for salt in ([0] if tier == 'quick' else [0, 11]):
                    yield {'part': 'slices', 'kind': kind, 'shape': list(shape), 'axes': sub, 'salt': salt}
    for shape in shapes:
        nd = len(shape)
        subs = [None] + [list(s) for r in range(1, nd + 1) for s in itertools.combinations(range(nd), r)]
        for kind in ['determ', 'ens_last', 'ens_first', 'gauss', 'gamma']:
            for sub in subs:
                yield {'part': 'boot', 'kind': kind, 'shape': list(shape), 'axes': sub}


def selections(shape, sub):
    nd = len(shape)
    kept = [i for i in range(nd) if sub is not None and i not in sub]
    for idx in itertools.product(*[range(shape[i]) for i in kept]):
        sel = [slice(None)] * nd
        for k, i in zip(kept, idx):
            sel[k] = i
        yield idx, tuple(sel)


def run_case(case, ck):
    if case['part'] == 'cross':
        from mc import hist
        kind = case['kind']
        ops = [o for o in hist.ops_for(kind, saved_names=False) if o[0] in ('error', 'sq_error', 'corr', 'crps', 'spread') or
               o in (['brier', {'over': 2.5}], ['brier_decomp', {'below': 3.5}], ['iou_determ', {'over': 2.5}], ['iou_prob', {'over': [2.5, 0.4], 'below': [None, None]}],
                     ['binned_spread_skill', {'nbins': 2}])]
        cross.run(case, ck, ops, base={'avg_axis': case['axes']}, without=('axis',), depth=1 if ck.quick else 2)
        return
    return {'slices': run_slices, 'boot': run_boot}[case['part']](case, ck)


def run_slices(case, ck):
    kind, shape, sub = case['kind'], tuple(case['shape']), case['axes']
    d = vf.data(kind, shape, case['salt'])
    nd = len(shape)
    spell = [None] if sub is None else spellings(nd, sub, not ck.quick)
    n_pool = int(np.prod([shape[i] for i in (sub if sub is not None else range(nd))]))
    for name, fn in vf.metrics_for(kind).items():
        if name == 'spread_skill' and n_pool < 2:
            continue
        # expected: every slice on its own, flattened to one dimension, everything pooled
        want = {}
        for idx, sel in selections(shape, sub):
            s = vf.take(kind, d, sel)
            want[idx] = vf.arr(fn(vf.build(kind, vf.flat(kind, s))))
            ck.step()
        multi = isinstance(next(iter(want.values())), tuple)
        kept_shape = tuple(shape[i] for i in range(nd) if sub is not None and i not in sub)

        def assemble(get):
            w0 = get(next(iter(want)))
            out = np.empty(kept_shape + w0.shape)
            for idx in want:
                out[idx] = get(idx)
            return out
        if multi:
            exp = tuple(assemble(lambda i, k=k: want[i][k]) for k in range(len(next(iter(want.values())))))
        else:
            exp = assemble(lambda i: want[i])
        ck.outcome((name, str(exp)))
        for sp in spell:
            forms = [sp] if sp is None or isinstance(sp, int) else [tuple(sp), list(sp)]
            for form in forms:
                ck.state(name, str(form))
                v = vf.build(kind, vf.copy(d), avg_axis=form)
                got = fn(v)
                ck.step()
                ck.equal(got, exp, '%s over axes %r differs from its slices' % (name, form), rtol=1e-8, atol=1e-10)
                # the same through the setter, on an object that had another axis before
                v = vf.build(kind, vf.copy(d), avg_axis=(0,)).set_avg_axis(form)
                ck.equal(fn(v), exp, '%s after set_avg_axis(%r)' % (name, form), rtol=1e-8, atol=1e-10)
                ck.step()
                ck.trace('slices/' + name, dict(case, metric=name, axes=form))


def const_data(kind, shape, sub, level):
    """data whose elements are identical within each slice; level: index of the slice -> number"""
    d = vf.data(kind, shape)
    base = vf.data(kind, (1,), 5)
    for idx, sel in selections(shape, sub):
        q = level(idx)
        if kind == 'determ':
            d['f'][sel], d['o'][sel] = 1.0 + q, 3.0
        elif kind == 'ens_last':
            d['f'][sel] = base['f'][0] * (1 + q)
            d['o'][sel] = 3.0
        elif kind == 'ens_first':
            for m in range(d['f'].shape[0]):
                d['f'][(m,) + sel] = base['f'][m, 0] * (1 + q)
            d['o'][sel] = 3.0
        else:
            for k in d['f']:
                d['f'][k][sel] = base['f'][k][0]
            d['f']['mu'][sel] = base['f']['mu'][0] * (1 + q)
            if 'unshifted_mu' in d['f']:
                d['f']['unshifted_mu'][sel] = d['f']['mu'][sel] - d['f']['shift'][sel]
            d['o'][sel] = 3.0
    return d


def run_boot(case, ck):
    """Bootstrapped results: with identical elements inside every slice, the interval of a slice collapses to
    the value of that slice; and changing other slices does not influence the interval of a slice."""
    kind, shape, sub = case['kind'], tuple(case['shape']), case['axes']
    nd = len(shape)
    sels = list(selections(shape, sub))
    level = {idx: 0.1 * (i + 1) for i, (idx, _) in enumerate(sels)}
    n_pool = int(np.prod([shape[i] for i in (sub if sub is not None else range(nd))]))
    plain = {k: f for k, f in vf.metrics_for(kind).items() if not k.startswith('iou') and k != 'corr'}
    d = const_data(kind, shape, sub, lambda i: level[i])
    spell = [None] if sub is None else [tuple(sub), [a - nd for a in reversed(sub)]] + ([sub[1:] + sub[:1]] if len(sub) > 2 else []) + ([sub[0], sub[0] - nd] if len(sub) == 1 else [])
    kept_shape = tuple(shape[i] for i in range(nd) if sub is not None and i not in sub)
    with env.settings(repeats=5):
        for name, fn in plain.items():
            if name == 'spread_skill' and n_pool < 2:
                continue
            for form in spell:
                got = vf.arr(fn(vf.build(kind, vf.copy(d), avg_axis=form, boot_samples=3)))
                ck.step()
                ck.state('boot', name, str(form))
                for i, (idx, sel) in enumerate(sels):
                    w = vf.arr(fn(vf.build(kind, vf.flat(kind, vf.take(kind, d, sel)))))
                    parts = zip(got, w) if isinstance(got, tuple) else [(got, w)]
                    for g, w1 in parts:
                        if name == 'spread_skill':      # kept..., bins, 3
                            ck.check(g.shape == kept_shape + (2, 3), '%s bootstrapped shape %s' % (name, g.shape), axes=form)
                            ck.equal(g[idx], np.stack([w1] * 3, -1), '%s interval at %s, axes %r' % (name, idx, form))
                        else:                            # 3, kept...
                            ck.check(g.shape == (3,) + kept_shape, '%s bootstrapped shape %s' % (name, g.shape), axes=form)
                            ck.equal(g[(slice(None),) + idx], np.full(3, w1), '%s interval at %s, axes %r' % (name, idx, form))
                ck.trace('boot/' + name, dict(case, metric=name, axes=form))
        # reliability: a single bin in every slice
        if kind != 'determ':
            for form in spell:
                got = vf.build(kind, vf.copy(d), avg_axis=form, boot_samples=3).reliability(nbins=3, over=2.5)
                ck.step()
                for i, (idx, sel) in enumerate(sels):
                    w = vf.build(kind, vf.flat(kind, vf.take(kind, d, sel))).reliability(nbins=3, over=2.5)
                    for p in (0, 1):
                        g = vf.arr(got[p])
                        ck.check(g.shape == kept_shape + (1, 3), 'reliability bootstrapped shape %s' % (g.shape,), axes=form)
                        ck.equal(g[idx], np.full((1, 3), float(np.ravel(w[p])[0])), 'reliability interval at %s, axes %r' % (idx, form))
                ck.trace('boot/reliability', dict(case, axes=form))
        # correlation: +1 or -1 in every slice, alternating
        if n_pool >= 3:
            d2 = vf.data(kind, shape)
            for i, (idx, sel) in enumerate(sels):
                sgn = 1 if i % 2 == 0 else -1
                o = d2['o']
                if kind == 'determ':
                    d2['f'][sel] = 2 + sgn * 0.3 * o[sel]
                elif kind == 'ens_last':
                    d2['f'][sel] = (8 + sgn * 0.3 * o[sel])[..., None] + np.arange(4.0)
                elif kind == 'ens_first':
                    for m in range(4):
                        d2['f'][(m,) + sel] = 8 + sgn * 0.3 * o[sel] + m
                else:
                    d2['f']['mu'][sel] = 8 + sgn * 0.3 * o[sel]
            for form in spell:
                np.random.seed(3)
                with env.settings(skip_nan=True):
                    got = vf.arr(vf.build(kind, vf.copy(d2), avg_axis=form, boot_samples=6).corr())
                ck.step()
                ck.check(got.shape == (3,) + kept_shape, 'corr bootstrapped shape %s' % (got.shape,))
                for i, (idx, sel) in enumerate(sels):
                    sgn = 1 if i % 2 == 0 else -1
                    ck.equal(got[(slice(None),) + idx], np.full(3, float(sgn)), 'corr interval at %s, axes %r' % (idx, form), atol=1e-6)
                ck.trace('boot/corr', dict(case, axes=form))
        # isolation: changing one slice leaves the intervals of all others as they are (same random stream)
        if len(sels) > 1:
            a = vf.data(kind, shape)
            for changed in range(len(sels)):
                b = vf.copy(a)
                sel = sels[changed][1]
                b['o'][sel] = b['o'][sel] + 1.5
                for name, fn in plain.items():
                    if name == 'spread_skill' and n_pool < 2:
                        continue
                    res = []
                    for d3 in (a, b):
                        np.random.seed(7)
                        res.append(vf.arr(fn(vf.build(kind, vf.copy(d3), avg_axis=tuple(sub), boot_samples=3))))
                        ck.step()
                    pairs = zip(*res) if isinstance(res[0], tuple) else [tuple(res)]
                    for x, y in pairs:
                        for j, (idx, _) in enumerate(sels):
                            if j != changed:
                                at = idx if name == 'spread_skill' else (slice(None),) + idx
                                ck.equal(y[at], x[at], '%s: interval at %s changed with the data at %s' % (name, idx, sels[changed][0]))
                    ck.state('isolation', name, changed)
                    ck.trace('isolation/' + name, dict(case, metric=name, changed=changed))
