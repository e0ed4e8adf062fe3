"""C18: missing observations are skipped exactly when asked."""
import itertools

import numpy as np

from mc import cross, env, ref, verifs as vf

BOUNDS = {'quick': 'every subset of missing observations (2^6) of 2x3 and 6-element data, 2^8 of 2x2x2 for selected types, 8 forecast types, all axis subsets, skip on and off, serial (ranks also parallel); every subset (2^4) with the integration in less memory, in parallel, over the default range, CRPS split by axis 0, results saved; every subset (2^6) bootstrapped',
          'thorough': 'as quick with 2^8 subsets of (2,4) and (2,2,2) for all types and two data sets'}
ASSUMPTIONS = ['only observations are missing (missing members are outside the claim)',
               'slices left without any pair (or, for correlation, fewer than two) are not compared']


def cases(tier):
    for skip in (True, False):
        for c in cross.cases(vf.KINDS, tier):
            yield dict(c, skip=skip)
    def subsets(n):
        return range(2 ** n)
    for kind in vf.KINDS:
        for shape, block in [((2, 3), 8), ((6,), 16)]:
            for s0 in range(0, 64, block):
                yield {'part': 'skip', 'kind': kind, 'shape': list(shape), 'from': s0, 'to': s0 + block, 'salt': 0}
    big = [((2, 2, 2), k) for k in (['ens_first', 'gauss'] if tier == 'quick' else vf.KINDS)]
    if tier != 'quick':
        big += [((2, 4), k) for k in vf.KINDS]
    for shape, kind in big:
        for s0 in range(0, 256, 16):
            yield {'part': 'skip', 'kind': kind, 'shape': list(shape), 'from': s0, 'to': s0 + 16, 'salt': 3}
    for mode in MODES:
        for kind in MODES[mode]['kinds']:
            for s0 in range(0, 64 if tier != 'quick' else 16, 4):
                yield {'part': 'modes', 'kind': kind, 'shape': [2, 3] if tier != 'quick' else [2, 2], 'from': s0, 'to': s0 + 4, 'salt': 5, 'mode': mode}
    for kind in vf.KINDS:
        for s0 in range(0, 64, 32):
            yield {'part': 'boot', 'kind': kind, 'shape': [2, 3], 'from': s0, 'to': s0 + 32}
        yield {'part': 'bootmany', 'kind': kind}
    for kind in ('ens_last', 'ens_first'):
        for s0 in range(0, 64, 16):
            yield {'part': 'rankpar', 'kind': kind, 'from': s0, 'to': s0 + 16}


# other ways of computing the same numbers
MODES = {
    'lessmem': {'kinds': ['hurdle'], 'st': {'less_memory': True}, 'kw': {}},
    'workers': {'kinds': ['hurdle'], 'st': {'workers': 2}, 'kw': {}},
    'workersless': {'kinds': ['hurdle'], 'st': {'workers': 2, 'less_memory': True}, 'kw': {}},
    'range': {'kinds': ['hurdle'], 'st': {}, 'kw': {'integration_range': None, 'n_approx_bins': 60}},
    'rangeless': {'kinds': ['hurdle'], 'st': {'less_memory': True, 'integrate_range_multiplier': 2}, 'kw': {'integration_range': None, 'n_approx_bins': 7}},
    'split': {'kinds': list(vf.ENS), 'st': {'split': True}, 'kw': {}},
    'saving': {'kinds': ['determ', 'ens_last', 'gauss', 'gamma', 'hurdle'], 'st': {}, 'kw': {}, 'save': True},
}
AVG = ('error', 'ab_error', 'sq_error', 'rmse', 'crps', 'brier_over', 'brier_below')
SKIP = AVG + ('corr', 'decomp_over', 'decomp_below')


def run_case(case, ck):
    if case['part'] == 'cross':
        from mc import hist
        kind = case['kind']
        ops = [['error', {}], ['ab_error', {}], ['rmse', {}]]
        if kind != 'determ':
            ops += [['brier', {'over': 2.5}]] + ([['crps', {}]] if kind != 'tgamma' else [])
            if case['skip']:
                ops += [['brier_decomp', {'below': 3.5}], ['reliability', {'nbins': 3, 'over': 2.5}], ['roc', {'over': 2.5}]]
        if case['skip']:
            ops += [['corr', {}]] + ([['rank_hist', {}]] if kind in vf.ENS else [])

        def change(d):
            d = vf.copy(d)
            d['o'][0, 1] = d['o'][2, 3] = d['o'][2, 0] = np.nan
            return d
        cross.run(case, ck, ops, settings={'skip_nan': case['skip']}, without=('skip',), change=change, depth=1 if ck.quick and kind == 'hurdle' else None)
        return
    if case['part'] in ('rankpar', 'boot', 'bootmany'):
        return globals()['run_' + case['part']](case, ck)
    kind, shape = case['kind'], tuple(case['shape'])
    base = vf.data(kind, shape, case['salt'])
    nd, size = len(shape), base['o'].size
    subs = [None] + [tuple(s) for r in range(1, nd + 1) for s in itertools.combinations(range(nd), r)]
    metrics = {k: f for k, f in vf.metrics_for(kind).items() if k in SKIP}
    from mc.props.c05 import selections
    memo = {}

    mode = MODES.get(case.get('mode'), {'st': {}, 'kw': {}})
    if case['part'] == 'modes':
        from mc import execs
        execs.MODE = 'fixed'
        if 'hurdle' == kind:
            metrics = {k: f for k, f in metrics.items() if k in ('crps', 'error', 'rmse', 'brier_over')}
        elif not mode.get('save'):
            metrics = {'crps': metrics['crps']}
    ranged = 'integration_range' in mode['kw']

    def opts():
        kw, st = dict(mode['kw']), dict(mode['st'])
        if st.get('less_memory'):
            st['wdir'] = env.scratch('mm')
        if mode.get('save'):
            kw['working_directory'] = env.scratch('wd')
        return kw, st

    def clean(name, fn, sel, keep):
        """metric of the kept pairs of the slice sel"""
        s = vf.take(kind, base, sel)
        key = (name, str(sel), keep.tobytes())
        if key not in memo:
            memo[key] = vf.arr(fn(vf.build(kind, vf.flat(kind, s, keep.ravel()), **mode['kw'])))
        return memo[key]

    for bits in range(case['from'], case['to']):
        miss = np.array([bool(bits >> i & 1) for i in range(size)]).reshape(shape)
        if miss.all():
            continue
        d = vf.copy(base)
        d['o'][miss] = np.nan
        ck.state(bits)
        for sub in subs:
            sels = list(selections(shape, list(sub) if sub is not None else None))
            for name, fn in metrics.items():
                for skip in (True, False):
                    if not skip and name not in AVG:
                        continue
                    if ranged and sub is not None and skip:
                        continue            # the default range is that of all observations
                    kw, st = opts()
                    with env.settings(skip_nan=skip, **st):
                        v = vf.build(kind, vf.copy(d), avg_axis=sub, **kw)
                        got = vf.arr(fn(v))
                        if mode.get('save'):
                            ck.equal(vf.arr(fn(v)), got, '%s %s saved with missing observations' % (kind, name), 1e-12, 1e-14, missing=bits)
                    ck.step()
                    for idx, sel in sels:
                        ms = miss[sel]
                        keep = ~np.ravel(ms)
                        g = tuple(np.asarray(x)[idx] for x in got) if isinstance(got, tuple) else np.asarray(got)[idx]
                        if skip:
                            if keep.sum() < (2 if name == 'corr' else 1):
                                continue
                            with env.settings(skip_nan=False, integrate_range_multiplier=mode['st'].get('integrate_range_multiplier', 5)):
                                w = clean(name, fn, sel, keep)
                            ck.equal(g, w if isinstance(w, tuple) else w[()], '%s %s with missing observations skipped' % (kind, name),
                                     1e-8, 1e-9, missing=bits, axes=sub, at=idx)
                        elif not keep.all():
                            ck.check(np.all(np.isnan(g)), '%s %s hides missing observations' % (kind, name), missing=bits, axes=sub, got=g)
                        elif not (ranged and (miss.any() or sub is not None)):
                            w = clean(name, fn, sel, keep)
                            ck.equal(g, w[()], '%s %s changed by missing observations elsewhere' % (kind, name), 1e-8, 1e-9, missing=bits, axes=sub, at=idx)
        # pooled probability metrics
        if case['part'] == 'modes':
            ck.outcome(bits)
            ck.trace('mode ' + case['mode'], dict(case, missing=bits))
            continue
        with env.settings(skip_nan=True):
            if kind != 'determ':
                whole = tuple([slice(None)] * nd)
                keep = ~miss.ravel()
                for side, t in (('over', 2.5), ('below', 3.5)):
                    for nb in (3, 10):
                        got = vf.rel(vf.build(kind, vf.copy(d)).reliability(nbins=nb, **{side: t}))
                        w = vf.rel(vf.build(kind, vf.flat(kind, base, keep)).reliability(nbins=nb, **{side: t}))
                        ck.equal(got, w, kind + ' reliability with missing observations', 1e-9, 1e-11, missing=bits)
                        ck.step()
                    ob = base['o'].ravel()[keep]
                    ev = ob > t if side == 'over' else ob < t
                    if ev.any() and not ev.all():
                        got = vf.build(kind, vf.copy(d)).roc(**{side: t})
                        w = vf.build(kind, vf.flat(kind, base, keep)).roc(**{side: t})
                        ck.equal(got, w, kind + ' ROC with missing observations', 1e-9, 1e-11, missing=bits)
                        ck.step()
            if kind in vf.ENS:
                got = np.asarray(vf.build(kind, vf.copy(d)).rank_hist(), dtype=float)
                check_ranks(ck, kind, base, miss, got)
        ck.outcome(bits)
        ck.trace('skip/' + kind, dict(case, missing=bits))


def check_ranks(ck, kind, base, miss, got):
    want = np.array([ref.ranks(m, x)[0] for m, x in zip(vf.members_of(kind, base), base['o'].ravel().tolist())], dtype=float).reshape(miss.shape)
    want[miss] = np.nan
    ck.equal(got, want, kind + ' ranks with missing observations')
    ck.step()


def run_rankpar(case, ck):
    from mc import execs
    execs.MODE = 'fixed'
    kind = case['kind']
    base = vf.data(kind, (2, 3))
    for bits in range(case['from'], case['to']):
        miss = np.array([bool(bits >> i & 1) for i in range(6)]).reshape(2, 3)
        d = vf.copy(base)
        d['o'][miss] = np.nan
        for ax in (-1, -2):
            with env.settings(skip_nan=True, workers=2, map_axis=ax):
                got = np.asarray(vf.build(kind, vf.copy(d)).rank_hist(), dtype=float)
            check_ranks(ck, kind, base, miss, got)
            ck.state(bits, ax)
        ck.trace('rank parallel', dict(case, missing=bits))


def run_boot(case, ck):
    """bootstrapped averages: slices of identical elements give the value of an element, whatever else is missing"""
    from mc.props.c05 import const_data, selections
    kind, shape = case['kind'], tuple(case['shape'])
    metrics = {k: f for k, f in vf.metrics_for(kind).items() if k in SKIP and k != 'corr'}
    if kind == 'hurdle':
        metrics = {k: f for k, f in metrics.items() if k in ('error', 'rmse', 'brier_over', 'decomp_over')}
    for sub in (None, (0,), (1,)):
        sels = list(selections(shape, list(sub) if sub is not None else None))
        level = {idx: 0.1 * (i + 1) for i, (idx, _) in enumerate(sels)}
        base = const_data(kind, shape, sub, lambda i: level[i])
        single = {(name, idx): vf.arr(fn(vf.build(kind, vf.flat(kind, vf.take(kind, base, sel))))) for name, fn in metrics.items() for idx, sel in sels}
        for bits in range(case['from'], case['to']):
            miss = np.array([bool(bits >> i & 1) for i in range(6)]).reshape(shape)
            if miss.all():
                continue
            d = vf.copy(base)
            d['o'][miss] = np.nan
            ck.state(sub, bits)
            for name, fn in metrics.items():
                for skip in (True, False) if name in AVG else (True,):
                    np.random.seed(bits + 1)
                    with env.settings(skip_nan=skip, repeats=4):
                        got = vf.arr(fn(vf.build(kind, vf.copy(d), avg_axis=sub, boot_samples=80)))
                    ck.step()
                    for idx, sel in sels:
                        m = miss[sel]
                        parts = zip(got, single[name, idx]) if isinstance(got, tuple) else [(got, single[name, idx])]
                        for g, w in parts:
                            g = np.asarray(g)[(slice(None),) + idx]
                            if not np.any(m) or skip and not np.all(m):
                                ck.equal(g, np.full(3, w), '%s bootstrapped %s with missing observations' % (kind, name), 1e-8, 1e-9, missing=bits, axes=sub, at=idx, skip=skip)
                            elif not skip:
                                ck.check(np.all(np.isnan(g)), '%s bootstrapped %s hides missing observations' % (kind, name), got=g, missing=bits, axes=sub)
            if kind != 'determ' and sub is None:
                with env.settings(skip_nan=True, repeats=4):
                    got = vf.build(kind, vf.copy(d), boot_samples=80).reliability(nbins=3, over=2.5)
                w = vf.build(kind, vf.flat(kind, base, ~miss.ravel())).reliability(nbins=3, over=2.5)
                for p in (0, 1):
                    ck.equal(vf.arr(got[p]).reshape(1, 3), np.full((1, 3), float(np.ravel(w[p])[0])), '%s bootstrapped reliability with missing observations' % kind, 1e-8, 1e-9, missing=bits)
                for p in (2, 3):
                    ck.equal(vf.arr(got[p]), vf.arr(w[p]), '%s counts of reliability with missing observations' % kind, 0, 0, missing=bits)
                ck.step()
            ck.outcome((kind, sub, bits))
    ck.trace('boot/' + kind, case)


def run_bootmany(case, ck):
    """intervals of many pairs with missing observations: around the value of the pairs that are left, and as wide as theirs"""
    kind = case['kind']
    base = vf.data(kind, (60,), 2)
    names = [n for n in AVG if n in vf.metrics_for(kind)] + ['corr']
    if kind == 'hurdle':
        names = ['error', 'rmse', 'brier_over', 'corr']
    for period in (2, 3, 7):
        for phase in range(period):
            miss = np.arange(60) % period == phase
            d = vf.copy(base)
            d['o'][miss] = np.nan
            ck.state(period, phase)
            for name in names:
                fn = vf.metrics_for(kind)[name]
                np.random.seed(7 + phase)
                n = 200
                # the missing ones are drawn too, except for the correlation: fewer effective samples
                eff = n if name == 'corr' else int(round(n * (~miss).mean()))
                with env.settings(skip_nan=True, repeats=200):
                    a = np.asarray(fn(vf.build(kind, vf.copy(d), boot_samples=n)))
                with env.settings(skip_nan=False, repeats=200):
                    b = np.asarray(fn(vf.build(kind, vf.flat(kind, base, ~miss), boot_samples=n)))
                    c = np.asarray(fn(vf.build(kind, vf.flat(kind, base, ~miss), boot_samples=eff)))
                ck.step(3)
                width = max(b[2] - b[0], c[2] - c[0])
                ck.check(np.all(np.isfinite(a)) and a[0] <= a[1] <= a[2], 'interval with missing observations', got=a, name=name)
                ck.check(abs(a[1] - b[1]) < 0.2 * width, '%s bootstrapped %s is biased by missing observations' % (kind, name), got=a, want=b, missing=(period, phase))
                ck.check(0.6 * min(b[2] - b[0], c[2] - c[0]) < a[2] - a[0] < 1.7 * width, '%s width of bootstrapped %s with missing observations' % (kind, name), got=a, want=(b, c), missing=(period, phase))
    ck.outcome(kind)
    ck.trace('boot many/' + kind, case)
