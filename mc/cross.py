"""Settings, constructor options and memory layouts that do not concern a metric do not change it.

Every single one and every pair (thorough: triple) of the options below that a metric does not depend on is set; the
value must equal that of the plain verifier, whose values the other parts of a check compare with the definition."""
import itertools

import numpy as np

from mc import env, hist, verifs as vf

PROBK = set(vf.PROB)
ENSK = set(vf.ENS)


def layout_f(d):
    return each(d, lambda a: np.asfortranarray(a))


def layout_view(d):
    def view(a):
        b = np.full(tuple(2 * s for s in a.shape), 77.0)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    return each(d, view)


def layout_back(d):
    return each(d, lambda a: np.array(a[..., ::-1])[..., ::-1])


def layout_frozen(d):
    def frozen(a):
        a = np.array(a)
        a.flags.writeable = False
        return a
    return each(d, frozen)


def layout_bytes(d):
    return each(d, lambda a: a.astype(a.dtype.newbyteorder()))


def extra_keys(d):
    if isinstance(d['f'], dict):
        f = {'other': np.full(d['o'].shape, 3.25)}
        for k in reversed(list(d['f'])):
            f[k] = d['f'][k]
        return {'f': f, 'o': d['o']}
    return d


def each(d, fn):
    f = {k: fn(a) for k, a in d['f'].items()} if isinstance(d['f'], dict) else fn(d['f'])
    return {'f': f, 'o': fn(d['o'])}


# dimension, name, forecast types, constructor arguments, settings, data transformation
OPTIONS = [
    ('clip', 'clip 1.5', PROBK, {'clip_member_to_zero': 1.5}, {}, None),
    ('clip', 'clip 9', PROBK, {'clip_member_to_zero': 9.0}, {}, None),
    ('nsample', '3 members', PROBK, {'n_sample_members': 3}, {}, None),
    ('sampleaxis', 'member axis 0', PROBK, {'move_sampled_ens_axis': 0}, {}, None),
    ('pitrand', 'no pit randomization', PROBK, {'pit_randomize_zero_ranks': False}, {}, None),
    ('bins', '5 bins', {'hurdle'}, {'n_approx_bins': 5}, {}, None),
    ('range', 'range 2..50', {'hurdle'}, {'integration_range': (2, 50)}, {}, None),
    ('collapse', 'median', ENSK, {'ensemble_collapse_func': np.median}, {}, None),
    ('axis', 'axis 0', None, {'avg_axis': 0}, {}, None),
    ('axis', 'axes (1, 0)', None, {'avg_axis': (1, 0)}, {}, None),
    ('boot', 'bootstrap', None, {'boot_samples': 3}, {}, None),
    ('save', 'directory', None, {'working_directory': 'wd'}, {}, None),
    ('save', 'reused directory', None, {'working_directory': 'wd', 'start_from_scratch': False}, {}, None),
    ('workers', '2 workers', None, {}, {'workers': 2}, None),
    ('workers', '3 workers, chunks of 4', None, {}, {'workers': 3, 'chunksize': 4}, None),
    ('mapaxis', 'map axis -2', None, {}, {'map_axis': -2, 'workers': 2}, None),
    ('kde', 'kde bandwidth and samples', None, {}, {'kde_bandwidth': 2.0, 'kde_samples': 7, 'kde_multiply_spread': 1, 'kde_kernel': 'tophat'}, None),
    ('bootset', 'bootstrap settings', None, {}, {'confidence': 0.5, 'repeats': 2, 'boot_samples': 1}, None),
    ('pbar', 'progress bars stay', None, {}, {'tqdm_leave': True}, None),
    ('skip', 'skip missing', None, {}, {'skip_nan': True}, None),
    ('split', 'split crps', None, {}, {'split': True}, None),
    ('memory', 'less memory', None, {}, {'less_memory': True}, None),
    ('multi', 'range multiplier', None, {}, {'integrate_range_multiplier': 2}, None),
    ('layout', 'fortran', None, {}, {}, layout_f),
    ('layout', 'view', None, {}, {}, layout_view),
    ('layout', 'backwards', None, {}, {}, layout_back),
    ('layout', 'frozen', None, {}, {}, layout_frozen),
    ('layout', 'byte order', None, {}, {}, layout_bytes),
    ('keys', 'other keys', PROBK, {}, {}, extra_keys),
]

ELEMENTWISE = {'cdf', 'sharpness', 'variance', 'pit', 'rank_hist', 'f_determ', 'prob_to_ens'}
POOLED = {'roc'}
INTEGRATED = {'f_determ', 'error', 'ab_error', 'sq_error', 'rmse', 'corr', 'iou_determ', 'variance', 'crps', 'binned_spread_skill'}
COLLAPSED = {'f_determ', 'error', 'ab_error', 'sq_error', 'rmse', 'corr', 'iou_determ', 'binned_spread_skill'}


def concerns(dim, kind, op):
    """does the metric depend on the option?"""
    name = op[0]
    if dim in ('clip', 'nsample', 'sampleaxis', 'pitrand'):
        return name in ('rank_hist', 'spread', 'prob_to_ens') or (dim == 'pitrand' and name == 'pit')
    if dim in ('bins', 'range'):
        return name in INTEGRATED
    if dim == 'collapse':
        return name in COLLAPSED
    if dim == 'axis':
        return name not in ELEMENTWISE and name not in POOLED
    if dim == 'boot':
        return name not in ELEMENTWISE and name != 'roc'
    return False


def options(kind, op):
    return [o for o in OPTIONS if (o[2] is None or kind in o[2]) and not concerns(o[0], kind, op)]


def cases(kinds, tier, part='cross'):
    for kind in kinds:
        for which in ('plain', 'edge'):
            yield {'part': part, 'kind': kind, 'which': which}


def run(case, ck, ops, tol=(1e-9, 1e-11), base={}, settings={}, without=(), change=None, depth=None, must=None, seed=None):
    """ops: metric calls of this property ([name, arguments]); base, settings: of the plain verifier; change: of the data;
    must: only combinations with one of these; seed: of the global generator before each call"""
    kind = case['kind']
    d = vf.data(kind, (3, 4), 5)
    if case['which'] == 'edge':
        d = vf.edge(kind, d)
    if change:
        d = change(d)
    n = depth or (1 if kind == 'hurdle' and ck.quick else (2 if ck.quick else 3))
    for op in ops:
        if op[0] in ('rank_hist', 'pit') and case['which'] == 'edge':
            continue                  # ties are broken randomly
        with env.settings(**settings):
            v = vf.build(kind, vf.copy(d), **base)
            np.random.seed(seed)
            want = hist.value(v, op, d)
        opts = [o for o in options(kind, op) if o[0] not in without]
        nn = n if depth or not (kind == 'hurdle' and op[0] not in INTEGRATED) else 2
        for k in range(1, nn + 1):
            for combo in itertools.combinations(opts, k):
                if len({o[0] for o in combo}) < k or must and not must & {o[0] for o in combo}:
                    continue
                kw, st, dd = dict(base), dict(settings), vf.copy(d)
                for o in combo:
                    kw.update(o[3])
                    st.update(o[4])
                    if o[5]:
                        dd = o[5](dd)
                if 'working_directory' in kw:
                    kw['working_directory'] = env.scratch('cross')
                with env.settings(**st):
                    v = vf.build(kind, dd, **kw)
                    np.random.seed(seed)
                    got = hist.value(v, op, d)
                ck.equal(got, want, '%s %s changes with options that do not concern it' % (kind, op), *tol, options=[o[1] for o in combo])
                ck.state(str(op), tuple(o[1] for o in combo))
                ck.step()
        ck.trace('options/' + op[0], dict(case, op=op))


def power(name):
    """how a metric changes when all quantities are given in other units"""
    if name in ('sq_error', 'variance'):
        return 2
    return 1 if name in ('f_determ', 'error', 'ab_error', 'rmse', 'crps', 'spread', 'binned_spread_skill', 'prob_to_ens') else 0


def in_units(op, s):
    name, kw = op[0], dict(op[1])
    for k in ('over', 'below'):
        if kw.get(k) is not None:
            kw[k] = [kw[k][0] if kw[k][0] is None else kw[k][0] * s, kw[k][1]] if name == 'iou_prob' else kw[k] * s
    return [name, kw]


def unit_cases(kinds, tier):
    for kind in kinds:
        for which in ('plain', 'edge'):
            yield {'part': 'binary units', 'kind': kind, 'which': which}


def run_units(case, ck, ops, rtol=1e-9):
    """units differing by powers of two change nothing but the exponent"""
    kind = case['kind']
    d = vf.data(kind, (3, 4), 6)
    if case['which'] == 'edge':
        d = vf.edge(kind, d)
    for op in ops:
        if op[0] in ('rank_hist', 'pit') and case['which'] == 'edge':
            continue
        kw = {'integration_range': (0, 32), 'n_approx_bins': 9} if kind == 'hurdle' else {}
        want = hist.value(vf.build(kind, vf.copy(d), **kw), op, d)
        for e in (-40, -20, -3, 3, 20, 40):
            s = 2.0 ** e
            dd = vf.scaled(d, s)
            if kind == 'hurdle':
                kw['integration_range'] = (0, 32 * s)
            got = hist.value(vf.build(kind, dd, **kw), in_units(op, s), dd)
            f = s ** power(op[0])
            w = tuple(x * f for x in want) if isinstance(want, tuple) else want * f
            ck.equal(got, w, '%s %s in units of 2^%d' % (kind, op, e), rtol, 0.0 if power(op[0]) else 1e-11)
            ck.state(str(op), e)
            ck.step()
        ck.trace('binary units/' + op[0], dict(case, op=op))
