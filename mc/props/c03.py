"""C03: workers, chunk size, split axis, completion order and memory mode change nothing.

The real code runs on a controlled process pool / ray runtime: every assignment of tasks to forked workers and every
completion order a FIFO pool can produce is executed and compared with the serial result."""
import numpy as np

from mc import cross, env, execs, hist, verifs as vf

BOUNDS = {'quick': 'up to 4 tasks on 2-3 workers: all task-to-worker assignments x completion orders; chunk sizes 1-3, split axes -1..-3, shapes (4),(2,3),(3,2),(2,1,3); 7 probabilistic forecast types; scalar, array and extreme thresholds; ray: all completion orders of up to 4 tasks, both memory modes; ensemble probabilities of 1001-2500 locations; same results with the real pool',
          'thorough': 'as quick with 5 ray tasks, more shapes and thresholds, and the real ray runtime'}
ASSUMPTIONS = ['the pool hands tasks to workers first-in first-out, as concurrent.futures documents; the real pool is run on the same configurations as a conformance check']

SHAPES = [(4,), (2, 3), (3, 2), (2, 1, 3)]
KDE = [{'kde_bandwidth': 0.7}, {'kde_samples': 41}, {'kde_multiply_spread': 1, 'kde_bandwidth': 2.0}, {'kde_kernel': 'tophat', 'kde_bandwidth': 1.5}, {'kde_kernel': 'epanechnikov', 'kde_bandwidth': 0.4, 'kde_samples': 90}]
THR = [['below', 3.5], ['over', 2.5], ['below', ['arr', 0]], ['over', ['arr', 3]], ['below', -0.5], ['below', 0], ['below', 0.0], ['below', 1e4], ['over', 3]]


def cases(tier):
    yield from cross.cases(vf.KINDS, tier)
    for kind in vf.PROB:
        for shape in SHAPES:
            for ax in range(-1, -len(shape) - 1, -1):
                for chunk in (1, 2, 3):
                    n = -(-shape[ax] // chunk)
                    if chunk > 1 and n == -(-shape[ax] // (chunk - 1)):
                        continue
                    for workers in (2, 3):
                        if workers > max(n, 2):
                            continue
                        yield {'part': 'pool', 'kind': kind, 'shape': list(shape), 'ax': ax, 'chunk': chunk, 'workers': workers}
    for kind in vf.ENS:
        for shape in SHAPES:
            for ax in range(-1, -len(shape) - 1, -1):
                for chunk in (1, 2):
                    for workers in (2, 3):
                        yield {'part': 'rank', 'kind': kind, 'shape': list(shape), 'ax': ax, 'chunk': chunk, 'workers': workers}
        for shape in [(1001,), (2, 1003), (2501,)] + ([(3, 2, 400)] if tier == 'thorough' else []):
            yield {'part': 'ensprob', 'kind': kind, 'shape': list(shape), 'method': 'moments'}
        for shape in [(3,), (2, 2)]:
            for method in ('kde', 'moments'):
                yield {'part': 'ensprob', 'kind': kind, 'shape': list(shape), 'method': method}
            for kde in KDE:
                yield {'part': 'ensprob', 'kind': kind, 'shape': list(shape), 'method': 'kde', 'kde': kde}
    for kind in vf.KINDS:
        for shape in [(4, 3)] + ([(2, 3, 2)] if tier == 'thorough' else []):
            for workers in (2, 5):
                yield {'part': 'all', 'kind': kind, 'shape': list(shape), 'workers': workers}
    for nb in (2, 3, 4) + ((5,) if tier == 'thorough' else ()):
        for workers in (1, 2, 3) if nb < 4 else (1, 2):
            for less in (False, True):
                for what in ('f_determ', 'variance', 'crps'):
                    for shape in ([4], [2, 3]) if nb < 4 else ([2, 3],):
                        for save in (False, True):
                            yield {'part': 'ray', 'nb': nb, 'workers': workers, 'less': less, 'what': what, 'shape': shape, 'save': save}
    for kind in vf.PROB + tuple(vf.ENS):
        for shape in [(40,), (70,), (2, 40), (36, 3), (2, 2, 3, 2), (130, 2)] + ([(3, 2, 2, 2), (300,), (2, 2, 2, 2, 2)] if tier == 'thorough' else []):
            yield {'part': 'manytasks', 'kind': kind, 'shape': list(shape)}
    for nb in (2, 3):
        for less in (False, True):
            for bad in ('nan', 'inf'):
                yield {'part': 'raynan', 'nb': nb, 'less': less, 'bad': bad}
    for kind in vf.KINDS:
        yield {'part': 'real', 'kind': kind}
    if tier == 'thorough':
        yield {'part': 'realray'}


def run_case(case, ck):
    if case['part'] == 'cross':
        kind = case['kind']
        names = ('f_determ', 'rmse', 'variance', 'crps', 'rank_hist', 'pit')
        ops = [o for o in hist.ops_for(kind, saved_names=False) if o[0] in names and not (o[0] == 'rank_hist' and kind in vf.PROB) or
               o in (['cdf', {'over': 2.5}], ['brier', {'below': 3.5}], ['roc', {'over': 2.5}], ['reliability', {'nbins': 3, 'over': 2.5}], ['sharpness', {'below': 3.5}])]
        cross.run(case, ck, ops, must={'workers', 'mapaxis', 'memory', 'split'}, depth=(1 if kind == 'hurdle' else 2) if ck.quick else (2 if kind == 'hurdle' else 3))
        return
    globals()['run_' + case['part']](case, ck)


def schedules(ck, fn, mode):
    execs.MODE = mode
    try:
        def run(ch):
            with execs.schedule(ch):
                return fn()
        for trace, res in execs.enumerate_choices(run, 20000):
            ck.state('schedule', tuple(trace))
            ck.step()
            yield trace, res
    finally:
        execs.MODE = 'full'


def compare(ck, case, v, d, op, mode, want, **st):
    with env.settings(**st):
        for trace, got in schedules(ck, lambda: hist.value(v, op, d), mode):
            ck.equal(got, want, '%s differs from the serial result' % op[0], 1e-11, 1e-13, op=op, schedule=trace, settings=st)
            ck.outcome((case, op, trace))


def run_pool(case, ck):
    kind = case['kind']
    d = vf.data(kind, case['shape'], 1)
    st = dict(workers=case['workers'], chunksize=case['chunk'], map_axis=case['ax'])
    for i, (side, t) in enumerate(THR):
        op = ['cdf', {side: t}]
        want = hist.value(vf.build(kind, vf.copy(d)), op, d)
        compare(ck, case, vf.build(kind, vf.copy(d)), d, op, 'full' if i in (0, 2) else 'fixed', want, **st)
    for op in (['brier', {'over': 2.5}], ['sharpness', {'below': ['arr', 0]}], ['pit', {}], ['rank_hist', {}]):
        want = hist.value(vf.build(kind, vf.copy(d)), op, d)
        compare(ck, case, vf.build(kind, vf.copy(d)), d, op, 'fixed', want, **st)
    ck.trace('pool/' + kind, case)


def run_rank(case, ck):
    kind = case['kind']
    d = vf.data(kind, case['shape'], 1)
    op = ['rank_hist', {}]
    want = hist.value(vf.build(kind, vf.copy(d)), op, d)
    compare(ck, case, vf.build(kind, vf.copy(d)), d, op, 'full', want, workers=case['workers'], chunksize=case['chunk'], map_axis=case['ax'])
    ck.trace('rank/' + kind, case)


def run_ensprob(case, ck):
    kind = case['kind']
    d = vf.data(kind, case['shape'], 1)
    big = int(np.prod(case['shape'])) > 100
    for op in (['cdf', {'below': 3.5}], ['brier', {'over': ['arr', 0]}], ['cdf', {'below': ['arr', 3]}]):
        with env.settings(method=case['method'], **case.get('kde', {})):
            want = hist.value(vf.build(kind, vf.copy(d)), op, d)
            for workers in (2,) if big else (2, 3):
                compare(ck, case, vf.build(kind, vf.copy(d)), d, op, 'full' if big and op[1].get('below') == 3.5 else 'fixed', want, workers=workers, map_axis=-1)
    ck.trace('ensprob/' + kind, case)


def every(kind):
    from mc.props.c01 import alphabet
    return [op for op in hist.ops_for(kind, arrays=True, saved_names=False)]


def run_all(case, ck):
    kind = case['kind']
    d = vf.data(kind, case['shape'], 4)
    kw = {'n_approx_bins': 4} if kind == 'hurdle' else {}
    axes = [(None, -1), (0, -2)] if ck.quick else [(None, -1), (0, -1), (1, -2), (None, -2)]
    for avg, ax in axes:
        for op in every(kind):
            if op[0] == 'reliability' and avg is not None:
                continue
            v = vf.build(kind, vf.copy(d), avg_axis=avg, **kw)
            want = hist.value(v, op, d)
            for chunk in (1, 3):
                with env.settings(workers=case['workers'], chunksize=chunk, map_axis=ax):
                    with execs.schedule(Last()):
                        got = hist.value(vf.build(kind, vf.copy(d), avg_axis=avg, **kw), op, d)
                ck.step()
                ck.equal(got, want, '%s differs from the serial result' % op[0], 1e-11, 1e-13, op=op, avg_axis=avg, map_axis=ax, chunk=chunk)
            ck.state(avg, ax, op)
    ck.trace('all metrics/' + kind, case)


class Last(execs.Chooser):
    """always the last alternative: reversed completion, one worker hogging"""

    def choose(self, n):
        self.trace.append(n - 1)
        self.arity.append(n)
        return n - 1


def run_ray(case, ck):
    d = vf.data('hurdle', case['shape'], 6)
    kw = {'n_approx_bins': case['nb']}
    op = [case['what'], {}]
    want = hist.value(vf.build('hurdle', vf.copy(d), **kw), op, d)
    wd = env.scratch('ray')

    def run():
        if case['save']:
            kw2 = dict(kw, working_directory=wd)
        else:
            kw2 = kw
        return hist.value(vf.build('hurdle', vf.copy(d), **kw2), op, d)
    with env.settings(workers=case['workers'], less_memory=case['less'], wdir='' if case['save'] else wd):
        for trace, got in schedules(ck, run, 'full'):
            ck.equal(got, want, 'integrated %s differs from the serial result' % case['what'], 1e-11, 1e-13, schedule=trace)
            ck.outcome((case, trace))
    ck.trace('ray/' + case['what'], case)


def run_manytasks(case, ck):
    """many tasks, large grids, four and five dimensions: in order, reversed, one worker hogging"""
    kind, shape = case['kind'], case['shape']
    d = vf.data(kind, shape, 1)
    ops = [['cdf', {'below': 3.5}], ['cdf', {'over': ['arr', 0]}], ['brier', {'over': 2.5}], ['rank_hist' if kind in vf.ENS else 'pit', {}]]
    wants = [hist.value(vf.build(kind, vf.copy(d)), op, d) for op in ops]
    for ax in range(-1, -len(shape) - 1, -1):
        if shape[ax] < 2:
            continue
        for workers in (2, 3, 7):
            for chunk in (1, 3, 64):
                if chunk > 1 and chunk >= 2 * shape[ax] or (workers == 3 and ck.quick):
                    continue
                for order in ('first', 'last'):
                    for op, want in zip(ops, wants):
                        with env.settings(workers=workers, chunksize=chunk, map_axis=ax), execs.schedule(Last() if order == 'last' else execs.Chooser()):
                            got = hist.value(vf.build(kind, vf.copy(d)), op, d)
                        ck.step()
                        ck.equal(got, want, '%s of a large grid differs from the serial result' % op[0], 1e-11, 1e-13, op=op, map_axis=ax, workers=workers, chunk=chunk, order=order)
                    ck.state(ax, workers, chunk, order)
    ck.trace('many tasks/' + kind, case)


def run_raynan(case, ck):
    """locations without a forecast stay such, the others get their value"""
    for i in (0, 2, 5):
        for key in ('mu', 'sigma', 'pop'):
            d = vf.data('hurdle', (2, 3), 6)
            if key not in d['f']:
                continue
            d['f'][key].ravel()[i] = float(case['bad'])
            if key == 'pop' and case['bad'] == 'inf':
                continue
            kw = {'n_approx_bins': case['nb'], 'integration_range': (0, 30)}
            for what in ('f_determ', 'variance', 'crps'):
                wd = env.scratch('raynan')
                with env.settings(less_memory=case['less'], wdir=wd):
                    want = hist.value(vf.build('hurdle', vf.copy(d), **dict(kw, avg_axis=())), [what, {}], d)
                with env.settings(workers=2, less_memory=case['less'], wdir=wd):
                    for trace, got in schedules(ck, lambda: hist.value(vf.build('hurdle', vf.copy(d), **dict(kw, avg_axis=())), [what, {}], d), 'full'):
                        ck.equal(got, want, 'integrated %s differs from the serial result' % what, 1e-11, 1e-13, schedule=trace, where=i, parameter=key)
                        ck.outcome((case, i, key, what, trace))
    ck.trace('ray, missing forecasts', case)


def run_real(case, ck):
    """conformance of the controlled pool: the same calls on the real process pool"""
    kind = case['kind']
    if kind == 'determ':
        return
    d = vf.data(kind, (3, 4), 1)
    ops = [['cdf', {'below': ['arr', 0]}]] + ([['rank_hist', {}]] if kind in vf.ENS else [])
    for op in ops:
        want = hist.value(vf.build(kind, vf.copy(d)), op, d)
        for ax, chunk in ((-1, 1), (-2, 2)):
            with env.settings(workers=2, chunksize=chunk, map_axis=ax), execs.real():
                got = hist.value(vf.build(kind, vf.copy(d)), op, d)
            ck.step()
            ck.equal(got, want, op[0] + ' on the real process pool differs from the serial result', 1e-11, 1e-13, kind=kind, map_axis=ax)
    ck.trace('real pool/' + kind, case)


def run_realray(case, ck):
    import ray
    d = vf.data('hurdle', (2, 3), 6)
    for what in ('f_determ', 'crps'):
        for less in (False, True):
            v = vf.build('hurdle', vf.copy(d), n_approx_bins=6)
            want = hist.value(v, [what, {}], d)
            with env.settings(workers=2, less_memory=less, wdir=env.scratch('rr')), execs.real():
                try:
                    got = hist.value(vf.build('hurdle', vf.copy(d), n_approx_bins=6), [what, {}], d)
                except Exception as e:
                    if ray.is_initialized():
                        raise
                    ck.notes['real_ray'] = 'could not start: %s' % e
                    return
            ck.equal(got, want, what + ' on the real ray runtime', 1e-11, 1e-13)
            ck.step()
    ck.trace('real ray', case)
