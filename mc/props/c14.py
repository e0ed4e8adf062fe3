"""C14: metric calls modify neither inputs, settings nor earlier results."""
import json
import os

import numpy as np

from mc import env, execs, hist, verifs as vf

BOUNDS = {'quick': 'every metric call (up to 60 with arguments) x 8 forecast types x 20 configurations (missing observations, extreme spreads and values, skip, saving, workers, ...) x 4 memory layouts of the inputs; every ordered pair of calls on one verifier, results overwritten by the user in between',
          'thorough': 'as quick with every pair in 5 configurations and every call in all combinations of configuration and layout'}
ASSUMPTIONS = ['settings are compared by meaning (True/1/yes are the same switch)']

CONFIGS = {
    'plain': ({}, {}), 'axis0': ({'avg_axis': 0}, {}), 'axis1': ({'avg_axis': (1,)}, {}), 'axislist': ({'avg_axis': [1, 0]}, {}), 'bootlist': ({'boot_samples': 3, 'avg_axis': [1]}, {}), 'elementwise': ({'avg_axis': ()}, {}), 'boot': ({'boot_samples': 3}, {}), 'bootaxis': ({'boot_samples': 3, 'avg_axis': 1}, {}),
    'skipnan': ({}, {'skip_nan': True}), 'split': ({}, {'split': True}), 'saving': ({'SAVE': True}, {}), 'savingboot': ({'SAVE': True, 'boot_samples': 3, 'avg_axis': 0}, {}),
    'workers': ({}, {'workers': 2}), 'lessmem': ({}, {'less_memory': True}), 'workersless': ({}, {'workers': 2, 'less_memory': True}), 'progress': ({}, {'tqdm_disable': 'yes'}),
    'extreme': ({}, {}), 'missing': ({}, {}), 'missingskip': ({}, {'skip_nan': True}), 'missingskipaxis': ({'avg_axis': 0}, {'skip_nan': 'yes'}),
}
LAYOUTS = ['C', 'F', 'view', 'shared']


def cases(tier):
    for kind in vf.KINDS:
        for c in CONFIGS:
            if c in ('lessmem', 'workersless') and kind != 'hurdle' or c == 'split' and kind not in vf.ENS:
                continue
            for lay in LAYOUTS:
                if tier == 'quick' and c not in ('plain', 'axis0', 'saving', 'elementwise') and lay in ('view', 'shared'):
                    continue
                if tier == 'quick' and c.startswith('workers') and lay != 'C':
                    continue
                yield {'part': 'single', 'kind': kind, 'config': c, 'layout': lay}
        for c in (('plain', 'saving') if kind in ('gauss', 'ens_last', 'hurdle') else ('plain',)) if tier == 'quick' else ('plain', 'saving', 'axis0', 'elementwise', 'boot'):
            n = len(operations(kind))
            for i in range(n):
                yield {'part': 'pair', 'kind': kind, 'config': c, 'a': i}


def operations(kind):
    ops = hist.ops_for(kind, arrays=True, saved_names=True)
    if kind in vf.CLOSED:
        ops += [['SAMPLE prob_to_ens', {}], ['SAMPLE spread', {}], ['SAMPLE rank_hist', {}]]
    if kind != 'determ':
        ops += [['cdf', {'below': ['arr', 5]}], ['brier', {'over': ['arr', 5]}]]        # thresholds of both signs
    ops += [['iou_determ', {'below': ['arr', 5]}]]
    return ops


def variant(kind, d, cfgname):
    """data with very small and large spreads, or with missing observations"""
    d = vf.copy(d)
    if cfgname == 'extreme':
        if isinstance(d['f'], dict):
            s = d['f']['sigma'].reshape(-1)
            s[[0, 3, 5, 8]] = [1e-5, 1e-9, 1e3, 2e-3]
            if 'pop' in d['f']:
                d['f']['pop'].reshape(-1)[[1, 2, 4]] = [0.0, 1.0, 1e-9]
        else:
            f = d['f'].reshape(-1)
            f[[0, 2, 5, 7]] = [1e-12, 1e7, -0.0, -1e-3]
        d['o'].reshape(-1)[[2, 6, 7]] = [-0.0, 1e-12, -1e4]
    elif cfgname.startswith('missing'):
        d['o'].reshape(-1)[[1, 6]] = np.nan
    return d


def lay_out(x, how):
    if how == 'F':
        return np.asfortranarray(x)
    if how == 'view':
        big = np.full(tuple(2 * s + 1 for s in x.shape), np.pi)
        v = big[tuple(slice(1, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    return np.array(x)


def make(kind, d, how):
    d = vf.copy(d)
    if isinstance(d['f'], dict):
        f = {k: lay_out(v, how) for k, v in d['f'].items()}
    else:
        f = lay_out(d['f'], how)
    o = lay_out(d['o'], how)
    if how == 'shared' and kind == 'determ':
        # forecast and observation are views of one array
        both = np.stack([f, o])
        f, o = both[0], both[1]
    elif how == 'shared' and isinstance(f, dict):
        names = list(f)
        both = np.stack([f[k] for k in names] + [o])
        f, o = {k: both[i] for i, k in enumerate(names)}, both[-1]
    return {'f': f, 'o': o}


def arrays_of(d):
    return ([('f[%s]' % k, v) for k, v in d['f'].items()] if isinstance(d['f'], dict) else [('f', d['f'])]) + [('o', d['o'])]


PRISTINE = json.dumps(CONFIGS, default=list)


class Watch:
    """remembers inputs and settings, and compares"""

    def __init__(self, d, extra=()):
        self.d = d
        self.arrays = arrays_of(d) + list(extra)
        self.ids = [id(a) for _, a in self.arrays]
        self.before = [(a.tobytes(), a.shape, a.dtype.str, a.strides) for _, a in self.arrays]
        self.env = START
        self.cwd = os.getcwd()

    def check(self, ck, **detail):
        for (n, a), b in zip(self.arrays, self.before):
            ck.check((a.tobytes(), a.shape, a.dtype.str, a.strides) == b, 'the input %s was modified' % n, **detail)
        now = arrays_of(self.d)
        ck.check([id(a) for _, a in now] == self.ids[:len(now)], 'the input was replaced', **detail)
        m = meaning()
        ck.check(m == self.env, 'settings were changed', changed={k: (self.env.get(k), m.get(k)) for k in set(m) | set(self.env) if m.get(k) != self.env.get(k)}, **detail)
        ck.check(json.dumps(CONFIGS, default=list) == PRISTINE, 'a list passed as an argument was changed', **detail)
        ck.check(os.getcwd() == self.cwd, 'the current directory was changed', **detail)


START = {}


def meaning():
    out = {}
    for k, v in os.environ.items():
        if k.startswith('pyanen_'):
            s = v.lower()
            if s in ('true', 'yes', 'on', 'y', 't') or (s == '1' and env.SETTINGS.get(k) in ('True', 'False')):
                s = 'yes'
            elif s in ('false', 'no', 'off', 'n', 'f') or (s == '0' and env.SETTINGS.get(k) in ('True', 'False')):
                s = 'no'
            try:
                s = float(s)
            except ValueError:
                pass
            out[k] = s
    return out


def leaves(x):
    if isinstance(x, (tuple, list)):
        for y in x:
            yield from leaves(y)
    elif isinstance(x, np.ndarray):
        yield x
    elif hasattr(x, 'to_numpy'):
        yield x


def freeze(x):
    return tuple(freeze(y) for y in x) if isinstance(x, (tuple, list)) else np.array(x)


def overwrite(x):
    for a in leaves(x):
        try:
            if isinstance(a, np.ndarray):
                a[...] = 77 if a.dtype.kind != 'b' else True
            else:
                a.iloc[:] = 77
        except ValueError:
            pass


def applicable(kind, cfgname, op):
    kw, st = CONFIGS[cfgname]
    if op[0] == 'reliability' and kw.get('avg_axis') is not None:
        return False
    if op[0] == 'binned_spread_skill' and kw.get('avg_axis') == ():
        return False
    if op[0] == 'SAMPLE spread' and 'boot_samples' in kw:
        return False        # sampling and bootstrapping draw from one stream
    if op[0] in ('corr', 'brier_decomp') and kw.get('avg_axis') == ():
        return False
    return True


def prepare_call(op, d):
    """fixes threshold arrays so that they can be watched"""
    kw = dict(op[1])
    extra = []
    for k in ('over', 'below'):
        if k in kw and op[0] != 'iou_prob':
            kw[k] = hist.threshold(kw[k], d)
            if isinstance(kw[k], np.ndarray):
                extra.append(('threshold', kw[k]))
        elif k in kw and kw[k] is not None:
            kw[k] = list(kw[k])
    name = op[0].split()[-1]

    def go(v):
        np.random.seed(99)
        r = getattr(v, name)(**kw)
        assert [kw[k] for k in lists] == list(lists.values()), 'a list passed as an argument was changed'
        return r
    lists = {k: list(x) for k, x in kw.items() if isinstance(x, list)}
    return go, extra


def build(kind, d, cfgname, op_names, tag):
    kw = dict(CONFIGS[cfgname][0])
    if kw.pop('SAVE', None):
        kw['working_directory'] = env.scratch('wd' + tag)
    if kind == 'hurdle':
        kw['n_approx_bins'] = 4
    if any(n.startswith('SAMPLE') for n in op_names):
        kw['n_sample_members'] = 3
    return vf.build(kind, d, **kw)


def run_case(case, ck):
    kind, cfgname = case['kind'], case['config']
    base = vf.edge(kind, vf.data(kind, (3, 4), 7))
    execs.MODE = 'fixed'
    st = dict(CONFIGS[cfgname][1], repeats=3)
    if st.get('less_memory'):
        st['wdir'] = env.scratch('mm')
    global START
    base = variant(kind, base, cfgname)
    with env.settings(**st):
        START = meaning()
        if case['part'] == 'single':
            for op in operations(kind):
                if applicable(kind, cfgname, op):
                    single(case, ck, kind, cfgname, base, op)
        else:
            pair(case, ck, kind, cfgname, base)


def single(case, ck, kind, cfgname, base, op):
    go, _ = prepare_call(op, base)
    try:
        want = freeze(go(build(kind, vf.copy(base), cfgname, [op[0]], 'ref')))
    except Exception:
        if cfgname not in ('missing', 'missingskip', 'missingskipaxis', 'extreme'):
            raise
        want = None
    d = make(kind, base, case['layout'])
    go, extra = prepare_call(op, d)
    w = Watch(d, extra)
    v = build(kind, d, cfgname, [op[0]], 'v')
    w.check(ck, op='constructor')
    if want is None:
        # refused input: nothing may have been touched either
        for _ in range(2):
            try:
                go(v)
            except Exception:
                pass
            else:
                ck.fail('memory layout of the inputs decides whether the call is refused', op=op)
            w.check(ck, op=op, refused=True)
            ck.step()
        return
    r1 = go(v)
    w.check(ck, op=op)
    ck.equal(freeze(r1), want, 'memory layout of the inputs changes the value', 1e-9, 1e-11, op=op)
    k1 = freeze(r1)
    r2 = go(v)
    w.check(ck, op=op)
    ck.equal(freeze(r2), k1, 'repeating the call changes its value', 1e-12, 1e-14, op=op)
    ck.equal(freeze(r1), k1, 'an earlier result changed', 0, 0, op=op)
    overwrite(r1)
    overwrite(r2)
    w.check(ck, op=op, after='overwriting the returned result')
    ck.equal(freeze(go(v)), k1, 'overwriting a returned result changes later calls', 1e-12, 1e-14, op=op)
    w.check(ck, op=op)
    ck.step(4)
    ck.state(op)
    ck.outcome((kind, op))
    ck.trace('single/' + kind, dict(case, op=op))


_want = {}


def pair(case, ck, kind, cfgname, base):
    ops = operations(kind)
    a = ops[case['a']]
    if not applicable(kind, cfgname, a):
        return
    for j, b in enumerate(ops):
        if not applicable(kind, cfgname, b):
            continue
        names = [a[0], b[0]]
        d = vf.copy(base)
        ga, ea = prepare_call(a, d)
        gb, eb = prepare_call(b, d)
        key = (kind, cfgname, j, any(n.startswith('SAMPLE') for n in names))
        if key not in _want:
            _want[key] = freeze(gb(build(kind, vf.copy(base), cfgname, names, 'ref')))
        w = Watch(d, ea + eb)
        v = build(kind, d, cfgname, names, 'v')
        ra = ga(v)
        ka = freeze(ra)
        rb = gb(v)
        w.check(ck, ops=[a, b])
        ck.equal(freeze(ra), ka, 'a later call changed an earlier result', 0, 0, ops=[a, b])
        ck.equal(freeze(rb), _want[key], 'an earlier call changes the value', 1e-10, 1e-13, ops=[a, b])
        overwrite(ra)
        ck.equal(freeze(rb), _want[key], 'results of two calls share memory', 1e-10, 1e-13, ops=[a, b])
        overwrite(rb)
        ck.equal(freeze(gb(v)), _want[key], 'overwriting returned results changes later calls', 1e-10, 1e-13, ops=[a, b])
        ck.equal(freeze(ga(v)), ka, 'overwriting returned results changes later calls', 1e-10, 1e-13, ops=[b, a])
        w.check(ck, ops=[a, b])
        ck.step(4)
        ck.state(j)
        ck.outcome((kind, a, b))
    ck.trace('pair/' + kind, dict(case, op=a))
