"""C17: a reconfigured verifier behaves like a freshly built one."""
import itertools
import json

import numpy as np

from mc import env, hist, verifs as vf
from mc.props.c01 import SETTER_KEY, fn, kw_of

BOUNDS = {'quick': 'all sequences of two setter calls (up to 26 settings each) with nothing, every metric or one metric called before and between (5 patterns); 8 forecast types; then every metric compared; results kept, one setting changed, saving to the same place from scratch',
          'thorough': 'three setter calls, all patterns'}
ASSUMPTIONS = ['random draws are made comparable by seeding the global generator before every call']


def setters(kind):
    out = [['set_avg_axis', a] for a in (None, 0, 1, -1, [0, 1], [1])]
    out += [['set_boot_samples', 3], ['set_boot_samples', 4], ['set_boot_samples', None], ['disable_boot'], ['enable_saving', 'a'], ['enable_saving', 'b'], ['disable_saving']]
    if kind in vf.ENS:
        out += [['set_ensemble_axis', a] for a in (0, -1, 2)] + [['set_collapse_func', f] for f in ('mean', 'median', 'max', 'lambda0', 'lambda1')]
    if kind in vf.CLOSED:
        out += [['set_truncation', t] for t in (True, False)] + [['set_ensemble_members', n] for n in (3, 4, None)]
        out += [['set_member_clip', c] for c in (1.5, 3.0, None)] + [['set_move_sampled_ens_axis', a] for a in (0, 1, -1)]
    if kind == 'hurdle':
        out += [['set_bins', n] for n in (2, 3, 5)] + [['set_integration_range', 0, 12], ['set_integration_range', 1, 20]]
    return out


def final_ops(kind, cfg):
    ops = [['f_determ', {}], ['error', {}], ['rmse', {}], ['ab_error', {}], ['corr', {}], ['iou_determ', {'over': 2.5}]]
    if kind == 'determ':
        return ops
    trunc = cfg.get('truncated', kind in ('tgauss', 'tgamma'))
    ops += [['variance', {}], ['cdf', {'below': 3.5}], ['cdf', {'over': 2.5}], ['brier', {'over': 2.5}], ['brier_decomp', {'below': 3.5}], ['rank_hist', {}],
            ['iou_prob', {'over': [2.5, 0.4], 'below': [None, None]}], ['roc', {'over': 2.5}], ['binned_spread_skill', {'nbins': 2}]]
    if kind not in ('gamma', 'tgamma') or not trunc:
        ops.append(['crps', {}])
    if kind in vf.ENS:
        ops.append(['spread', {}])
    else:
        ops.append(['pit', {}])
    if cfg.get('n_sample_members'):
        ops.append(['prob_to_ens', {}])
        if not cfg.get('boot_samples'):
            ops.append(['spread', {}])
    if cfg.get('avg_axis') is None:
        ops.append(['reliability', {'nbins': 3, 'over': 2.5}])
    return ops


def shape_of(kind):
    return (3, 3) if kind in vf.ENS else (3, 4)


def data(kind):
    return vf.data(kind, shape_of(kind), 9, members=3)


BASES = {'plain': {}, 'set': {'n_sample_members': 3, 'clip_member_to_zero': 1.5, 'move_sampled_ens_axis': 0}, 'boot': {'avg_axis': 0, 'boot_samples': 3}}


def cases(tier):
    for kind in vf.KINDS:
        for s in setters(kind):
            yield {'part': 'restart', 'kind': kind, 'setter': s}
        for base in ('set', 'boot'):
            if base == 'set' and kind not in vf.CLOSED:
                continue
            for first in setters(kind):
                yield {'kind': kind, 'first': [], 'only': first, 'base': base}
                if tier == 'thorough' or kind in ('gauss', 'ens_last') and first[0] in ('set_member_clip', 'set_ensemble_members', 'set_truncation', 'set_avg_axis', 'set_boot_samples'):
                    yield {'kind': kind, 'first': [first], 'base': base}
        s = setters(kind)
        for first in s:
            if tier == 'quick':
                yield {'kind': kind, 'first': [first]}
            else:
                for second in s:
                    yield {'kind': kind, 'first': [first, second]}


def apply(v, cfg, s, wd):
    cfg = dict(cfg)
    if s[0] == 'disable_boot':
        r = v.disable_boot()
        cfg['boot_samples'] = None
    elif s[0] == 'enable_saving':
        r = v.enable_saving(wd + '/' + s[1])
    elif s[0] == 'disable_saving':
        r = v.disable_saving()
    elif s[0] == 'set_integration_range':
        r = v.set_integration_range(*s[1:])
        cfg['integration_range'] = list(s[1:])
    elif s[0] == 'set_collapse_func':
        r = v.set_collapse_func(fn(s[1]))
        cfg['ensemble_collapse_func'] = s[1]
    elif s[0] == 'set_ensemble_axis':
        r = v.set_ensemble_axis(s[1])
        cfg['ensemble_axis'] = s[1]
    else:
        r = getattr(v, s[0])(s[1])
        cfg[SETTER_KEY[s[0]]] = s[1]
    return r, cfg


_ref = {}


def value(v, op, d):
    np.random.seed(31)
    return hist.value(v, op, d)


def reference(kind, cfg, op, d):
    # values only: the order in which settings were made does not matter
    c = {k: x for k, x in cfg.items() if x is not None}
    key = (kind, json.dumps(c, sort_keys=True), json.dumps(op))
    if key not in _ref:
        kw = kw_of(c)
        if isinstance(kw.get('avg_axis'), list):
            kw['avg_axis'] = tuple(kw['avg_axis'])
        _ref[key] = value(vf.build(kind, vf.copy(d), **kw), op, d)
    return _ref[key]


def run_restart(case, ck):
    """results kept on request (not from scratch), a reconfiguration, then saving to the same place from scratch"""
    kind, s = case['kind'], case['setter']
    d = data(kind)
    base = {'n_approx_bins': 4} if kind == 'hurdle' else {}
    with env.settings(repeats=4):
        for how in ('constructor', 'setter'):
            for again in ((), (True,)):
                wd = env.scratch('c17')
                if how == 'constructor':
                    v = vf.build(kind, vf.copy(d), working_directory=wd + '/a', start_from_scratch=False, **base)
                else:
                    v = vf.build(kind, vf.copy(d), **base).enable_saving(wd + '/a', False)
                for op in final_ops(kind, base):
                    value(v, op, d)
                    ck.step()
                r, cfg = apply(v, base, s, wd)
                v.enable_saving(wd + '/a', *again)
                for op in final_ops(kind, cfg):
                    ck.equal(value(v, op, d), reference(kind, cfg, op, d), '%s after starting from scratch differs from a freshly built verifier' % op[0], 1e-10, 1e-13, config=cfg, op=op)
                    ck.step()
                ck.state(how, again)
                ck.outcome((kind, json.dumps(cfg, sort_keys=True)))
    ck.trace('restart/' + kind, case)


def run_case(case, ck):
    if case.get('part') == 'restart':
        return run_restart(case, ck)
    kind = case['kind']
    d = data(kind)
    wd = env.scratch('c17')
    base = dict(BASES[case.get('base', 'plain')], **({'n_approx_bins': 4} if kind == 'hurdle' else {}))
    one = {'determ': 'corr', 'hurdle': 'variance'}.get(kind, 'rank_hist' if kind in vf.ENS else 'pit')

    def between(v, cfg, how):
        if how == 'all':
            for op in final_ops(kind, cfg):
                ck.equal(value(v, op, d), reference(kind, cfg, op, d), '%s differs from a freshly built verifier' % op[0], 1e-10, 1e-13, config=cfg, op=op)
                ck.step()
        elif how == 'one':
            value(v, [one, {}], d)
            ck.step()

    hows = ('none', 'all', 'one')
    with env.settings(repeats=4):
        for last in setters(kind) if 'only' not in case else [case['only']]:
            seq = case['first'] + [last]
            for pattern in [('none', 'none'), ('all', 'none'), ('none', 'all'), ('one', 'one'), ('all', 'all')] if ck.quick else itertools.product(hows, repeat=2):
                v, cfg = vf.build(kind, vf.copy(d), **base), dict(base)
                between(v, cfg, pattern[0])
                for i, s in enumerate(seq):
                    r, cfg = apply(v, cfg, s, wd)
                    ck.check(r is v, '%s does not return the verifier' % s[0])
                    if i < len(seq) - 1:
                        between(v, cfg, pattern[1])
                between(v, cfg, 'all')
                ck.state(last, pattern)
                ck.outcome((kind, json.dumps(cfg, sort_keys=True)))
    ck.trace('histories/' + kind, case)
