"""C01: saving intermediate results never changes a value.

Explored: all histories  [initial configuration] -> metric call A -> change -> metric call B (-> change -> C in the
thorough tier), where a change is any setter, saving off/on, or a new verifier on the same directory. The state of the
system is (configuration, in-memory verifier, directory contents); directories are snapshotted and restored so that
every successor of a state is executed. Oracle: a new verifier with the same configuration that saves nothing."""
import json

import numpy as np

from mc import env, hist, verifs as vf

BOUNDS = {'quick': 'all histories: every metric call in both orders, then every one of up to 27 changes, then every one of up to 52 metric calls, from 4 initial configurations and for 8 forecast types; all histories of length 3 (metric, one of 6 changes, metric) for 3 forecast types; all pairs of array thresholds of 4, 12 and 1200 elements; all pairs of up to 30 small literal thresholds (integers, signs, near and permuted values); all pairs of 16 axis choices on 3-D data',
          'thorough': 'quick, plus all histories of length 3 (metric, any change, metric) from all initial configurations for 8 forecast types, two initial metric calls before the change, and histories of length 5 over a reduced alphabet'}
ASSUMPTIONS = ['random draws are made comparable by seeding the global generator before every call',
               'a verifier that does not start from scratch differs from the earlier one only in averaging axes, bootstrapping and metric arguments']

SHAPES = {'std': (3, 4), 'small': (2, 2), 'big': (4, 300)}


def inits(kind):
    out = [{}, {'avg_axis': 0}, {'boot_samples': 4}]
    if kind in vf.CLOSED:
        out.append({'n_sample_members': 3})
    return out


def changes(kind):
    """list of lists of steps"""
    out = [[]]
    out += [[['set_avg_axis', a]] for a in (None, 0, 1, -1, [0, 1])]
    out += [[['set_boot_samples', 4]], [['set_boot_samples', 5]], [['disable_boot']], [['set_avg_axis', 1], ['set_boot_samples', 4]]]
    out += [[['disable_saving']], [['disable_saving'], ['enable_saving', True]], [['disable_saving'], ['enable_saving', False]]]
    out += [[['new', False, c]] for c in ({}, {'avg_axis': 0}, {'avg_axis': 1}, {'avg_axis': [0, 1]}, {'boot_samples': 4}, {'avg_axis': 0, 'boot_samples': 4}, {'boot_samples': 5})]
    out += [[['new', True, {}]], [['new', False, {'avg_axis': 1}], ['set_avg_axis', 0]]]
    if kind in vf.ENS:
        out += [[['set_collapse_func', 'median']], [['set_collapse_func', 'max'], ['set_avg_axis', 0]]]
    if kind in vf.CLOSED:
        out += [[['set_truncation', kind not in ('tgauss', 'tgamma')]], [['set_ensemble_members', 3]], [['set_ensemble_members', 4]],
                [['set_ensemble_members', 3], ['set_member_clip', 1.5]], [['set_ensemble_members', 3], ['set_move_sampled_ens_axis', 0]],
                [['set_member_clip', 1.5]], [['set_move_sampled_ens_axis', 0]]]
    if kind == 'hurdle':
        out += [[['set_bins', 7]], [['set_integration_range', 0, 20]]]
    return out


SETTER_KEY = {'set_avg_axis': 'avg_axis', 'set_boot_samples': 'boot_samples', 'set_truncation': 'truncated', 'set_ensemble_members': 'n_sample_members',
              'set_member_clip': 'clip_member_to_zero', 'set_move_sampled_ens_axis': 'move_sampled_ens_axis', 'set_bins': 'n_approx_bins',
              'set_collapse_func': 'ensemble_collapse_func', 'set_integration_range': 'integration_range'}


LAMBDAS = {'lambda0': lambda x, axis: np.min(x, axis=axis), 'lambda1': lambda x, axis: np.max(x, axis=axis) * 0.5}


def fn(name):
    return LAMBDAS.get(name) or getattr(np, name)


def kw_of(cfg):
    kw = dict(cfg)
    if isinstance(kw.get('ensemble_collapse_func'), str):
        kw['ensemble_collapse_func'] = fn(kw['ensemble_collapse_func'])
    if isinstance(kw.get('integration_range'), list):
        kw['integration_range'] = tuple(kw['integration_range'])
    return kw


def apply_change(kind, d, v, cfg, steps, wd):
    cfg = dict(cfg)
    for s in steps:
        if s[0] == 'new':
            cfg = {k: x for k, x in cfg.items() if k not in ('avg_axis', 'boot_samples')}
            cfg.update(s[2])
            v = vf.build(kind, vf.copy(d), working_directory=wd, start_from_scratch=s[1], **kw_of(cfg))
        elif s[0] == 'enable_saving':
            v.enable_saving(wd, start_from_scratch=s[1])
        elif s[0] == 'disable_boot':
            v.disable_boot()
            cfg['boot_samples'] = None
        elif s[0] == 'disable_saving':
            v.disable_saving()
        elif s[0] == 'set_integration_range':
            v.set_integration_range(*s[1:])
            cfg['integration_range'] = list(s[1:])
        elif s[0] == 'set_collapse_func':
            v.set_collapse_func(fn(s[1]))
            cfg['ensemble_collapse_func'] = s[1]
        else:
            getattr(v, s[0])(s[1])
            cfg[SETTER_KEY[s[0]]] = s[1]
    return v, cfg


def alphabet(kind, size):
    if size == 'std':
        return hist.ops_for(kind, arrays=False) + (EXTRA_STD if kind != 'determ' else [])
    ops = [o for o in hist.ops_for(kind, arrays=True) if any(isinstance(x, list) and x and x[0] == 'arr' for x in o[1].values())]
    if kind == 'determ':
        return [['iou_determ', {'over': ['arr', k]}] for k in range(5)]
    return ops + [['cdf', {'below': 2.5}], ['crps' if kind != 'tgamma' else 'pit', {}]]


EXTRA_STD = [['cdf', {'below': ['arr', 0]}], ['cdf', {'below': ['arr', 2]}], ['brier', {'over': ['arr', 0]}], ['brier', {'over': ['arr', 3]}]]


def sampling_ops(kind):
    return [['prob_to_ens', {}], ['spread', {}]]


def cases(tier):
    # every metric called before the change, in both orders
    for kind in vf.KINDS:
        for i, init in enumerate(inits(kind)):
            ops = alphabet(kind, 'std') + (sampling_ops(kind) if 'n_sample_members' in init else [])
            for n in range(0, len(changes(kind)), 6):
                yield {'part': 'pair', 'kind': kind, 'size': 'std', 'init': init, 'a': ops, 'ch': [n, n + 6]}
                yield {'part': 'pair', 'kind': kind, 'size': 'std', 'init': init, 'a': ops[::-1], 'ch': [n, n + 6]}
    # one metric called before the change
    for kind in vf.KINDS if tier == 'thorough' else ('ens_last', 'gauss', 'hurdle'):
        for i, init in enumerate(inits(kind)):
            for a in alphabet(kind, 'std') + (sampling_ops(kind) if 'n_sample_members' in init else []):
                if tier == 'thorough' or not i:
                    yield {'part': 'pair', 'kind': kind, 'size': 'std', 'init': init, 'a': [a], 'ch': 'all' if tier == 'thorough' else 'some'}
    for kind in vf.KINDS:
        for size in ('small', 'big'):
            if size == 'big' and kind in ('tgamma', 'hurdle', 'ens_first') and tier == 'quick':
                continue
            yield {'part': 'arrays', 'kind': kind, 'size': size}
    for kind in ('ens_last', 'gauss', 'gamma', 'hurdle'):
        for shape in ([1], [2], [1, 2], [2, 1], [5], [6]):
            for meth in ('cdf', 'brier', 'brier_decomp', 'roc', 'reliability', 'sharpness', 'iou_determ') if tier == 'thorough' or kind == 'ens_last' else ('cdf', 'brier', 'reliability'):
                if meth == 'reliability' and int(np.prod(shape)) > 1 and kind != 'ens_last':
                    continue
                yield {'part': 'literal', 'kind': kind, 'size': 'lit', 'shape': shape, 'method': meth}
    for kind in vf.KINDS:
        for n in range(len(AXES3)):
            if tier == 'thorough' or kind in ('determ', 'ens_last', 'ens_first', 'gauss'):
                yield {'part': 'axes3', 'kind': kind, 'size': 'cube', 'first': n}
    for kind in ('determ', 'ens_last', 'gauss'):
        for first in ('long', 'other', 'short'):
            yield {'part': 'axes7', 'kind': kind, 'size': 'seven', 'first': first}
    if tier == 'thorough':
        for kind in vf.KINDS:
            ops = alphabet(kind, 'std')
            for i, a in enumerate(ops):
                for a2 in ops[i + 1:]:
                    yield {'part': 'pair', 'kind': kind, 'size': 'std', 'init': {}, 'a': [a, a2], 'ch': 'some'}
            short = ops[::5]
            for a in short:
                for ch in changes(kind):
                    for b in short:
                        yield {'part': 'deep', 'kind': kind, 'size': 'std', 'a': a, 'ch': ch, 'b': b}


AXES7 = {'long': [0, 1, 2, 3, 4, 5], 'other': [1, 2, 3, 4, 5, 6], 'short': [0, 2, 6]}
AXES3 = [None, 0, 1, 2, -1, -2, -3, [0, 1], [0, -1], [0, 2], [1, 2], [-1, -2], [2, 0], [1, 0], [0, 1, 2], [-3, 1]]


def literals(shape, method):
    """thresholds whose printed forms are easily confused"""
    n = int(np.prod(shape))
    out = []
    if n == 1:
        for x in (1.0, 10.0, -1.0, 1.5, 15.0, 0.1, 1e-5, 1e5, 1.00001, 0.0):
            out += [x, ['lit', [x], 'float64']]
        return out + [0, 1, 10, -1, ['lit', [1], 'int64'], ['lit', [10], 'int64'], ['lit', [1.5], 'float32'],
                      ['lit', [3.3], 'float32'], ['lit', [3.3], 'float64'], ['num', 3.3, 'float32'], ['num', 3.3, 'float64'], 3.3, ['num', 3, 'int64'], ['num', 3, 'float32'], 3]
    if n == 2:
        for x in ([1, 12], [11, 2], [1, 2], [2, 1], [-1, 2], [1, -2], [12, 1]):
            out += [['lit', x, 'int64'], ['lit', x, 'float64']]
        for x in ([1.5, 2.25], [1.5, 2.2500000001], [0.1, 0.2], [0.2, 0.1], [1.0, 0.12], [1.01, 2.0], [1e-5, 1e5], [1e5, 1e-5]):
            out.append(['lit', x, 'float64'])
        for x in ([3.3, 2.7], [1.1, 3.7]):
            out += [['lit', x, 'float64'], ['lit', x, 'float32']]
        return out + [1, 1.0, 2.0, -1.0]
    base = [1.0 + 0.25 * i for i in range(n)]
    out = [['lit', base, 'float64'], ['lit', base[::-1], 'float64'], base[0]]
    for i in range(n):
        for s in (0.5, -3.0):
            out.append(['lit', base[:i] + [base[i] + s] + base[i + 1:], 'float64'])
    if n == 5:
        # thresholds next to a member and an observation, which are told apart by them
        for s in (1e-9, -1e-9, 1e-12, -1e-12):
            out.append(['lit', [2.5 + s, 3.5 - s, 2.5, 2.5 + s, 2.5 - s], 'float64'])
        out.append(['lit', [2.5, 3.5, 2.5, 2.5, 2.5], 'float64'])
    return out


_ref = {}


def reference(kind, size, cfg, op, d):
    key = (kind, size, json.dumps(cfg, sort_keys=True), json.dumps(op, sort_keys=True))
    if key not in _ref:
        v = vf.build(kind, vf.copy(d), **kw_of(cfg))
        np.random.seed(4711)
        try:
            _ref[key] = ('ok', hist.value(v, op, d))
        except Exception as e:
            _ref[key] = ('raises', '%s: %s' % (type(e).__name__, e))
    return _ref[key]


def comparable(kind, cfg, op):
    if op[0] in ('prob_to_ens',) and not cfg.get('n_sample_members'):
        return False
    if op[0] == 'spread' and kind in vf.PROB and (not cfg.get('n_sample_members') or cfg.get('boot_samples')):
        return False                    # sampling and bootstrapping draw from one stream
    if op[0] == 'crps' and kind in ('gamma', 'tgamma') and cfg.get('truncated', kind == 'tgamma'):
        return False                    # not implemented
    return True


def run_op(ck, kind, size, v, cfg, op, d, path):
    if not comparable(kind, cfg, op):
        return
    st, want = reference(kind, size, cfg, op, d)
    if st == 'raises':
        # e.g. ragged reliability diagrams along axes: no value to preserve
        ck.check(op[0] == 'reliability', 'a metric fails: ' + want, op=op, config=cfg)
        return
    np.random.seed(4711)
    got = hist.value(v, op, d)
    ck.step()
    ck.equal(got, want, '%s differs from a verifier that saves nothing' % op[0], 1e-10, 1e-13, op=op, config=cfg, history=path)


def run_case(case, ck):
    kind, size = case['kind'], case['size']
    d = vf.data(kind, SHAPES[size] if size in SHAPES else (2, 3, 2) if size == 'cube' else (2, 1, 2, 1, 1, 1, 2) if size == 'seven' else case['shape'], 2)
    if size != 'big':
        d = vf.edge(kind, d)         # values on and next to the thresholds
    wd = env.scratch('wd')

    def start(init, ops):
        v = vf.build(kind, vf.copy(d), working_directory=wd, **kw_of(init))
        for op in ops:
            run_op(ck, kind, size if 'shape' not in case else str(case['shape']), v, init, op, d, [init, ops])
        return v, hist.snapshot(wd)

    with env.settings(repeats=6):
        if case['part'] == 'pair':
            init = case['init']
            v0, snap = start(init, case['a'])
            bs = alphabet(kind, size)
            chs = changes(kind)
            chs = chs if case['ch'] == 'all' else chs[:1] + chs[2:3] + chs[6:7] + chs[13:16] if case['ch'] == 'some' else chs[slice(*case['ch'])]
            for ch in chs:
                hist.restore(wd, snap)
                v, cfg = apply_change(kind, d, hist.clone(v0), init, ch, wd)
                snap2 = hist.snapshot(wd)
                ck.state(ch, hist.digest(snap2))
                ops = bs + (sampling_ops(kind) if cfg.get('n_sample_members') else [])
                for b in ops:
                    hist.restore(wd, snap2)
                    run_op(ck, kind, size, hist.clone(v), cfg, b, d, [init, case['a'], ch])
                    ck.outcome((json.dumps(cfg, sort_keys=True), b))
                    ck.state(ch, b)
            ck.trace('pair/' + kind, case)
        elif case['part'] == 'axes3':
            ops = [o for o in alphabet(kind, 'std') if not any(isinstance(x, list) and x and x[0] == 'arr' for x in o[1].values())]
            first = {'avg_axis': AXES3[case['first']]}
            v0, snap = start(first, ops)
            for ax in AXES3:
                hist.restore(wd, snap)
                cfg = {'avg_axis': ax}
                v = vf.build(kind, vf.copy(d), working_directory=wd, start_from_scratch=False, **cfg)
                for b in ops:
                    run_op(ck, kind, size, v, cfg, b, d, [first])
                ck.state(case['first'], str(ax))
                ck.outcome((case['first'], str(ax)))
            ck.trace('axes3/' + kind, case)
        elif case['part'] == 'axes7':
            # more than five axes
            ops = [['iou_determ', {'over': 2.5}], ['iou_determ', {'below': 3.5}], ['error', {}], ['corr', {}]]
            if kind != 'determ':
                ops += [['binned_spread_skill', {'nbins': 2}], ['iou_prob', {'over': [2.5, 0.4], 'below': [None, None]}], ['brier', {'over': 2.5}], ['brier_decomp', {'over': 2.5}]]
            first = {'avg_axis': AXES7[case['first']]}
            v0, snap = start(first, ops)
            for ax in AXES7.values():
                hist.restore(wd, snap)
                v = vf.build(kind, vf.copy(d), working_directory=wd, start_from_scratch=False, avg_axis=ax)
                for b in ops:
                    run_op(ck, kind, size, v, {'avg_axis': ax}, b, d, [first])
                ck.state(case['first'], str(ax))
            ck.trace('axes7/' + kind, case)
        elif case['part'] == 'literal':
            ts = literals(case['shape'], case['method'])
            extra = {'save_name': 'bd'} if case['method'] == 'brier_decomp' else {}
            ops = [[case['method'], dict({side: t}, **extra)] for t in ts for side in ('below', 'over')]
            if case['method'] == 'roc':
                def works(op):
                    st, val = reference(kind, str(case['shape']), {}, op, d)
                    return st == 'ok' and np.isfinite(val[2])
                ops = [op for op in ops if works(op)]
            for a in ops:
                v0, snap = start({}, [a])
                for b in ops:
                    hist.restore(wd, snap)
                    run_op(ck, kind, str(case['shape']), hist.clone(v0), {}, b, d, [a])
                    ck.state(str(a), str(b))
                    ck.outcome((str(a), str(b)))
            ck.trace('literal/' + kind, case)
        elif case['part'] == 'arrays':
            ops = alphabet(kind, size)
            for a in ops:
                v0, snap = start({}, [a])
                for fresh in (False, True):
                    for b in ops:
                        hist.restore(wd, snap)
                        v = vf.build(kind, vf.copy(d), working_directory=wd, start_from_scratch=False) if fresh else hist.clone(v0)
                        run_op(ck, kind, size, v, {}, b, d, [a])
                        ck.state(a, b, fresh)
                        ck.outcome((size, a, b))
                ck.trace('arrays/' + kind, case)
        else:
            v0, snap = start({}, [case['a']])
            v, cfg = apply_change(kind, d, hist.clone(v0), {}, case['ch'], wd)
            run_op(ck, kind, size, v, cfg, case['b'], d, case)
            snap2 = hist.snapshot(wd)
            for ch2 in changes(kind):
                hist.restore(wd, snap2)
                v2, cfg2 = apply_change(kind, d, hist.clone(v), cfg, ch2, wd)
                if not scratch_ok(case['ch'], ch2):
                    continue
                snap3 = hist.snapshot(wd)
                for c in alphabet(kind, size)[::5]:
                    hist.restore(wd, snap3)
                    run_op(ck, kind, size, hist.clone(v2), cfg2, c, d, [case, ch2])
                    ck.state(ch2, c)
            ck.trace('deep/' + kind, case)


def scratch_ok(ch1, ch2):
    """a resuming verifier may only differ in averaging axes and bootstrapping"""
    resumed = [s for s in ch1 if (s[0] == 'new' and not s[1]) or (s[0] == 'enable_saving' and not s[1])]
    special = lambda ch: any(s[0] in SETTER_KEY and s[0] not in ('set_avg_axis', 'set_boot_samples') for s in ch)
    off = any(s[0] == 'disable_saving' for s in ch1) and not any(s[0] == 'enable_saving' for s in ch1)
    return not ((resumed or off) and special(ch2))
