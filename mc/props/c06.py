"""C06: deterministic scores, spread, variance and correlation against their definitions."""
import itertools

import numpy as np

from mc import cross, ref, verifs as vf
import PyAnEn

BOUNDS = {'quick': 'all forecast/observation vectors of length 1..3 over 3 values (floats, ints, float32); all ensembles '
                   'of 1..3 members over 3 values with 1-2 samples; member axis first/last/negative/detected; shapes up to 3-D; 4 collapse functions',
          'thorough': 'as quick with vectors of length 4, 4 members and 3 samples'}


def cases(tier):
    yield from cross.cases(['determ', 'ens_last', 'ens_first'] + list(vf.PROB), tier)
    yield from cross.unit_cases(['determ', 'ens_last', 'ens_first'] + list(vf.PROB), tier)
    nmax = 3 if tier == 'quick' else 4
    for n in range(1, nmax + 1):
        for dt in ['float64', 'int64', 'float32']:
            yield {'part': 'determ', 'n': n, 'dtype': dt}
    ms = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)] + ([(4, 1), (3, 2), (2, 3)] if tier != 'quick' else [])
    for m, n in ms:
        for axis in [0, -1, 'last', 'first']:
            for coll in ['mean', 'median', 'max', 'second']:
                if coll == 'second' and m < 2:
                    continue
                yield {'part': 'ens', 'm': m, 'n': n, 'axis': axis, 'collapse': coll}
    for shape in [(3,), (2, 3), (3, 3), (2, 3, 4), (1, 2), (2, 1)]:
        for m in (1, 2, 3, 4):
            for first in (0, 1):
                yield {'part': 'detect', 'shape': list(shape), 'm': m, 'first': first}
    for kind in ['gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle']:
        for shape in [(4,), (2, 3), (2, 2, 2)]:
            yield {'part': 'prob', 'kind': kind, 'shape': list(shape)}
    for m in (5, 6, 7, 8, 9, 10, 11, 12, 21, 50, 101) + ((33, 64, 150, 300) if tier != 'quick' else ()):
        for axis in (0, -1):
            for scale in (1.0, 1e-6, 1e4):
                yield {'part': 'many', 'm': m, 'axis': axis, 'scale': scale}
    for ft in ('int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'float32', 'float64'):
        for ot in ('int64', 'int16', 'uint8', 'int8', 'float32', 'float64'):
            yield {'part': 'types', 'f': ft, 'o': ot}
    for off in (273.15, 1e5, -1e6, 1e7):
        for unit in (1.0, 0.01):
            yield {'part': 'offset', 'off': off, 'unit': unit}
    yield {'part': 'direct'}
    for kind in vf.KINDS:
        yield {'part': 'forecasts', 'kind': kind}


# values of each type, including those whose differences or squares do not fit into it; members and observations
FTYPED = [-3.0, 0.25, 2.0, 7.5], [-2.0, 0.75, 4.0]
TYPED = {'int64': ([-3, 0, 2, 4 * 10 ** 9], [-2, 1, -10 ** 9]), 'int32': ([-3, 0, 2, 70000], [-2, 1, 4]),
         'int16': ([-30000, 0, 2, 300], [-200, 1, 30000]), 'int8': ([-128, 0, 2, 127], [-128, 1, 100]),
         'uint16': ([0, 2, 300, 60000], [0, 1, 400]), 'uint8': ([0, 2, 17, 250], [1, 100, 255])}


def table(alphabet, n, dtype=float):
    """all vectors of length n as columns"""
    return np.array(list(itertools.product(alphabet, repeat=n)), dtype=dtype).T


def compare(ck, v_of, F, O, what, rtol=1e-9, atol=1e-11, corr=True, pooled=True):
    """F, O: (n, N) deterministic forecasts and observations; v_of(avg_axis) builds the verifier"""
    Fl, Ol = F.astype(float), O.astype(float)
    N = F.shape[1]
    want = {
        'error': [ref.mean(f - o for f, o in zip(Fl[:, j], Ol[:, j])) for j in range(N)],
        'ab_error': [ref.mean(abs(f - o) for f, o in zip(Fl[:, j], Ol[:, j])) for j in range(N)],
        'sq_error': [ref.mean((f - o) ** 2 for f, o in zip(Fl[:, j], Ol[:, j])) for j in range(N)],
    }
    want['rmse'] = [x ** 0.5 for x in want['sq_error']]
    v = v_of((0,))
    for k, w in want.items():
        ck.equal(getattr(v, k)(), np.array(w), what + ' ' + k, rtol, atol)
        ck.step()
        ck.trace('values/' + k)
        for x in w:
            ck.outcome(round(float(x), 9))
    if corr:
        w = np.array([ref.pearson(Fl[:, j].tolist(), Ol[:, j].tolist()) for j in range(N)])
        g = np.asarray(v.corr(), dtype=float)
        ok = ~np.isnan(w)
        ck.check(g.shape == w.shape, what + ' corr shape', got=g.shape)
        ck.equal(g[ok], w[ok], what + ' corr', 1e-6 if atol > 1e-9 else 1e-8, 1e-6 if atol > 1e-9 else 1e-9)
        ck.step()
        ck.trace('values/corr')
    ck.equal(v.f_determ(), F, what + ' f_determ', rtol, atol)
    if pooled:
        v = v_of(None)
        f, o = Fl.ravel().tolist(), Ol.ravel().tolist()
        ck.equal(v.error(), ref.mean(a - b for a, b in zip(f, o)), what + ' pooled error', max(rtol, 1e-8), max(atol, 1e-9))
        ck.equal(v.ab_error(), ref.mean(abs(a - b) for a, b in zip(f, o)), what + ' pooled ab_error', max(rtol, 1e-8), atol)
        ck.equal(v.sq_error(), ref.mean((a - b) ** 2 for a, b in zip(f, o)), what + ' pooled sq_error', max(rtol, 1e-8), atol)
        ck.equal(v.rmse(), ref.mean((a - b) ** 2 for a, b in zip(f, o)) ** 0.5, what + ' pooled rmse', max(rtol, 1e-8), atol)
        if not np.isnan(ref.pearson(f, o)):
            ck.equal(v.corr(), ref.pearson(f, o), what + ' pooled corr', 1e-6, 1e-6)
        ck.step(5)
        ck.trace('pooled')


FUNCS = {'mean': np.mean, 'median': np.median, 'max': np.max,
         'second': lambda x, axis: np.take(np.sort(x, axis=axis), 1, axis=axis)}
RFUNCS = {'mean': ref.mean, 'median': lambda m: float(np.median(sorted(m))), 'max': max, 'second': lambda m: sorted(m)[1]}


def run_case(case, ck):
    if case.get('part') in ('cross', 'binary units'):
        kind = case['kind']
        ops = [[m, {}] for m in ('f_determ', 'error', 'ab_error', 'sq_error', 'rmse', 'corr')] + ([] if kind == 'determ' else [['variance', {}]]) + ([['spread', {}]] if kind in vf.ENS else [])
        if case['part'] == 'cross':
            cross.run(case, ck, ops)
        else:
            cross.run_units(case, ck, [o for o in ops if not any(isinstance(x, list) and x[0] == 'arr' for x in o[1].values())])
        return
    part = case['part']
    if part == 'forecasts':
        # what describes the forecasts alone does not depend on the observations, missing ones included
        from mc import env
        kind = case['kind']
        for shape in ((4,), (2, 3)):
            d = vf.data(kind, shape, 2)
            names = ['f_determ'] + ([] if kind == 'determ' else ['variance', 'cdf', 'sharpness']) + (['spread'] if kind in vf.ENS else [])
            kw = {'integration_range': (0.0, 25.0)} if kind == 'hurdle' else {}
            call = lambda v, n: np.asarray(getattr(v, n)(**({'below': 2.5} if n in ('cdf', 'sharpness') else {})))
            with env.settings(skip_nan=False):
                want = {n: call(vf.build(kind, vf.copy(d), **kw), n) for n in names}
            if kind in vf.ENS:
                mem = d['f'] if kind == 'ens_last' else np.moveaxis(d['f'], 0, -1)
                ck.equal(want['variance'], np.mean((mem - mem.mean(-1, keepdims=True)) ** 2, -1), 'ensemble variance')
            others = [np.zeros(shape), d['o'] * 100, -d['o']]
            for bits in range(1, 2 ** int(np.prod(shape))):
                o = d['o'].copy()
                o.ravel()[[i for i in range(o.size) if bits >> i & 1]] = np.nan
                others.append(o)
            for o in others:
                for skip in (False, True):
                    for n in names:
                        with env.settings(skip_nan=skip):
                            got = call(vf.build(kind, dict(vf.copy(d), o=o.copy()), **kw), n)
                        ck.equal(got, want[n], '%s %s depends on the observations' % (kind, n), 1e-12, 1e-14, observations=o, skip=skip)
                        ck.step()
                ck.state(o.tobytes())
        ck.outcome(kind)
        ck.trace('forecasts only/' + kind, case)
    elif part == 'determ':
        n, dt = case['n'], case['dtype']
        alpha = [-1, 0, 3] if dt == 'int64' else [-1.5, 0.0, 2.25]
        T = table(alpha, 2 * n, dt)
        F, O = np.ascontiguousarray(T[:n]), np.ascontiguousarray(T[n:])
        ck.bulk_states('enumerated_inputs', T.shape[1])
        tol = dict(rtol=1e-5, atol=1e-5) if dt == 'float32' else {}
        compare(ck, lambda a: PyAnEn.VerifyDeterm(F.copy(), O.copy(), avg_axis=a), F, O, 'determ', corr=n > 1, **tol)
        # one population per call as well (1-D data), for the shortest vectors
        if n <= 2:
            for j in range(T.shape[1]):
                v = PyAnEn.VerifyDeterm(F[:, j].copy(), O[:, j].copy())
                d = F[:, j].astype(float) - O[:, j]
                ck.state(j)
                ck.equal(v.error(), d.mean(), 'single error', 1e-5, 1e-6)
                ck.equal(v.rmse(), np.sqrt((d ** 2).mean()), 'single rmse', 1e-5, 1e-6)
                ck.equal(v.ab_error(), np.abs(d).mean(), 'single ab_error', 1e-5, 1e-6)
                ck.step(3)
            ck.trace('single', case)
    elif part == 'ens':
        m, n, axis, coll = case['m'], case['n'], case['axis'], case['collapse']
        T = table([-1.0, 0.0, 2.5], (m + 1) * n)
        N = T.shape[1]
        ck.bulk_states('enumerated_inputs', N)
        f = T[:m * n].reshape(m, n, N)
        o = T[m * n:]
        F = np.array([[RFUNCS[coll](f[:, i, j].tolist()) for j in range(N)] for i in range(n)])
        if axis in (0, 'first'):
            farr, ax = f, (0 if axis == 0 else -3)
        else:
            farr, ax = np.moveaxis(f, 0, -1), (-1 if axis == -1 else 2)

        def mk(a):
            return PyAnEn.VerifyEnsemble(np.array(farr), o.copy(), ensemble_axis=ax, ensemble_collapse_func=FUNCS[coll], avg_axis=a)
        compare(ck, mk, F, o, 'ensemble', corr=n > 1)
        v = mk((0,))
        sp = np.array([[max(f[:, i, j]) - min(f[:, i, j]) for j in range(N)] for i in range(n)])
        var = np.array([[ref.pvariance(f[:, i, j].tolist()) for j in range(N)] for i in range(n)])
        ck.equal(v.spread(), sp.mean(axis=0), 'ensemble spread')
        ck.equal(v.variance(), var, 'ensemble variance')
        ck.equal(mk(None).spread(), sp.mean(), 'ensemble pooled spread')
        ck.step(3)
        ck.trace('ens', case)
        # collapse function set later
        w = PyAnEn.VerifyEnsemble(np.array(farr), o.copy(), ensemble_axis=ax).set_collapse_func(FUNCS[coll])
        ck.equal(w.f_determ(), F, 'collapse function set later')
    elif part == 'many':
        # every position of the smallest and of the largest member
        m, axis, scale = case['m'], case['axis'], case['scale']
        pos = [(i, j) for i in range(m) for j in range(m) if i != j]
        if m > 12:
            pos = [(i, (i * 7 + 3) % m) for i in range(m)]
        N = len(pos)
        f = np.empty((m, N))
        for k, (i, j) in enumerate(pos):
            f[:, k] = [(3 * r + k) % m / m + 1 for r in range(m)]
            f[i, k], f[j, k] = -2.0 - k % 3, 4.0 + k % 2
        f, o = f * scale, vf.grid((N,), 1.9, -2, 4) * scale
        ck.bulk_states('enumerated_inputs', N)
        farr = f if axis == 0 else np.ascontiguousarray(f.T)
        cols = f.T.tolist()
        mk = lambda a, **kw: PyAnEn.VerifyEnsemble(farr.copy(), o.copy(), ensemble_axis=axis, avg_axis=a, **kw)
        sp = np.array([max(c) - min(c) for c in cols])
        ck.equal(mk(()).spread(), sp, 'spread of %d members' % m, 1e-9, 1e-15)
        ck.equal(mk(None).spread(), sp.mean(), 'mean spread of %d members' % m, 1e-9, 1e-15)
        ck.equal(mk(None).variance(), np.array([ref.pvariance(c) for c in cols]), 'variance of %d members' % m, 1e-9, 1e-20)
        F = np.array([ref.mean(c) for c in cols])
        ck.equal(mk(None).f_determ(), F, 'mean of %d members' % m, 1e-9, 1e-15 + 1e-13 * scale)
        ck.equal(mk(()).error(), F - o, 'error of %d members' % m, 1e-9, 1e-15 + 1e-12 * scale)
        ck.equal(mk(None).rmse(), ref.mean((F - o) ** 2) ** 0.5, 'rmse of %d members' % m, 1e-9, 1e-15)
        ck.equal(mk(None).corr(), ref.pearson(F.tolist(), o.tolist()), 'correlation of %d members' % m, 1e-7, 1e-8)
        ck.equal(mk(None, ensemble_collapse_func=np.median).f_determ(), np.array([RFUNCS['median'](c) for c in cols]), 'median of %d members' % m, 1e-9, 1e-15)
        ck.step(8)
        for x in sp:
            ck.outcome((m, round(float(x / scale), 6)))
        ck.trace('many', case)
    elif part == 'types':
        # integer and single precision inputs in every combination
        vals, ovals = TYPED.get(case['f'], FTYPED)[0], TYPED.get(case['o'], FTYPED)[1]
        T = list(itertools.product(vals, vals, vals, ovals))
        f3, o = np.array([t[:3] for t in T], dtype=case['f']), np.array([t[3] for t in T], dtype=case['o'])
        ck.bulk_states('enumerated_inputs', len(T))
        cols = [[float(x) for x in r] for r in f3.tolist()]
        ol = [float(x) for x in o.tolist()]
        r, a = (2e-6, 2e-6) if 'float32' in case.values() else (1e-9, 1e-11)
        for ax in (0, -1):
            for coll in ('mean', 'median', 'max'):
                mk = lambda av: PyAnEn.VerifyEnsemble(f3.T.copy() if ax == 0 else f3.copy(), o.copy(), ensemble_axis=ax, avg_axis=av, ensemble_collapse_func=FUNCS[coll])
                F = [RFUNCS[coll](c) for c in cols]
                ck.equal(mk(None).f_determ(), np.array(F), 'deterministic forecast of typed members', r, a, collapse=coll)
                ck.equal(mk(()).error(), np.array([x - y for x, y in zip(F, ol)]), 'bias of typed data', r, a)
                ck.equal(mk(()).ab_error(), np.array([abs(x - y) for x, y in zip(F, ol)]), 'absolute error of typed data', r, a)
                ck.equal(mk(()).sq_error(), np.array([(x - y) ** 2 for x, y in zip(F, ol)]), 'squared error of typed data', r, 10 * a)
                ck.equal(mk(None).error(), ref.mean(x - y for x, y in zip(F, ol)), 'mean bias of typed data', r, a)
                ck.equal(mk(None).rmse(), ref.mean((x - y) ** 2 for x, y in zip(F, ol)) ** 0.5, 'rmse of typed data', r, a)
                ck.equal(mk(None).corr(), ref.pearson(F, ol), 'correlation of typed data', 1e-5, 1e-5)
                ck.step(7)
            ck.equal(mk(()).spread(), np.array([max(c) - min(c) for c in cols]), 'spread of typed members', r, a)
            ck.equal(mk(None).variance(), np.array([ref.pvariance(c) for c in cols]), 'variance of typed members', r, 10 * a)
            ck.step(2)
        F = [c[1] for c in cols]
        mk = lambda av: PyAnEn.VerifyDeterm(f3[:, 1].copy(), o.copy(), avg_axis=av)
        ck.equal(mk(()).error(), np.array([x - y for x, y in zip(F, ol)]), 'bias of typed data', r, a)
        ck.equal(mk(()).sq_error(), np.array([(x - y) ** 2 for x, y in zip(F, ol)]), 'squared error of typed data', r, 10 * a)
        ck.equal(mk(None).ab_error(), ref.mean(abs(x - y) for x, y in zip(F, ol)), 'mean absolute error of typed data', r, a)
        ck.equal(mk(None).corr(), ref.pearson(F, ol), 'correlation of typed data', 1e-5, 1e-5)
        ck.step(4)
        ck.outcome((case['f'], case['o']))
        ck.trace('types', case)
    elif part == 'offset':
        # small differences on top of a large value (temperatures in Kelvin, pressures in Pascal)
        off, unit = case['off'], case['unit']
        T = list(itertools.product([0, 1, 3], [0, 2, 5], [1, 4], [0, 1, 6]))
        f3 = off + unit * np.array([t[:3] for t in T], dtype=float)
        o = off + unit * np.array([t[3] for t in T], dtype=float)
        ck.bulk_states('enumerated_inputs', len(T))
        raw = [[unit * x for x in t[:3]] for t in T]
        ro = [unit * t[3] for t in T]
        eps = abs(off) * 1e-15
        for ax in (0, -1):
            mk = lambda av: PyAnEn.VerifyEnsemble(f3.T.copy() if ax == 0 else f3.copy(), o.copy(), ensemble_axis=ax, avg_axis=av)
            F = [ref.mean(c) for c in raw]
            ck.equal(mk(()).error(), np.array(F) - ro, 'bias of large values', 1e-9, 4 * eps)
            ck.equal(mk(()).sq_error(), (np.array(F) - ro) ** 2, 'squared error of large values', 1e-9, 40 * eps * unit)
            ck.equal(mk(()).spread(), np.array([max(c) - min(c) for c in raw]), 'spread of large values', 1e-9, 4 * eps)
            ck.equal(mk(None).variance(), np.array([ref.pvariance(c) for c in raw]), 'variance of large values', 1e-9, 40 * eps * unit)
            ck.equal(mk(None).corr(), ref.pearson(F, ro), 'correlation of large values', 1e-6, 1e-6)
            ck.step(5)
        mk = lambda av: PyAnEn.VerifyDeterm(f3[:, 1].copy(), o.copy(), avg_axis=av)
        F = [c[1] for c in raw]
        ck.equal(mk(None).error(), ref.mean(x - y for x, y in zip(F, ro)), 'bias of large values', 1e-9, 4 * eps)
        ck.equal(mk(None).rmse(), ref.mean((x - y) ** 2 for x, y in zip(F, ro)) ** 0.5, 'rmse of large values', 1e-9, 40 * eps)
        ck.equal(mk(None).corr(), ref.pearson(F, ro), 'correlation of large values', 1e-6, 1e-6)
        ck.step(3)
        ck.outcome((off, unit))
        ck.trace('offset', case)
    elif part == 'detect':
        shape, m, first = tuple(case['shape']), case['m'], case['first']
        f = vf.grid(((m,) + shape) if first else (shape + (m,)), 1.3)
        o = vf.grid(shape, 2.7)
        # the last axis is preferred when both fit
        last_ok = f.shape[:-1] == shape
        first_ok = f.shape[1:] == shape
        ax = -1 if last_ok else 0
        if not (last_ok or first_ok):
            ck.fail('harness: impossible')
        v = PyAnEn.VerifyEnsemble(f.copy(), o.copy())
        ck.equal(v.f_determ(), f.mean(axis=ax), 'detected member axis')
        ck.equal(v.variance(), f.var(axis=ax), 'variance with detected member axis')
        ck.equal(v.spread(), (f.max(axis=ax) - f.min(axis=ax)).mean(), 'spread with detected member axis')
        mem = np.moveaxis(f, ax, -1)
        rk = np.array([ref.ranks(r, x)[0] for r, x in zip(mem.reshape(-1, m).tolist(), o.ravel().tolist())]).reshape(shape)
        ck.equal(v.rank_hist(), rk, 'ranks with detected member axis')
        cr = np.array([ref.ens_crps(r, x) for r, x in zip(mem.reshape(-1, m).tolist(), o.ravel().tolist())])
        ck.equal(v.crps(), cr.mean(), 'crps with detected member axis')
        ck.equal(v.cdf(below=0.4), (mem <= 0.4).mean(axis=-1), 'probability with detected member axis')
        ck.step(6)
        ck.trace('detect', case)
        # wrong shapes are rejected
        bad = np.zeros((2,) + tuple(s + 3 for s in shape) + (m,))
        try:
            PyAnEn.VerifyEnsemble(bad, o.copy())
        except Exception:
            pass
        else:
            ck.fail('mismatching shapes accepted')
    elif part == 'prob':
        kind, shape = case['kind'], tuple(case['shape'])
        d = vf.data(kind, shape)
        v = vf.build(kind, vf.copy(d))
        if kind == 'hurdle':
            det = vf.build(kind, vf.copy(d)).f_determ()
            x = [ref.trapezoid_hurdle(p, m, s, o, 0, 30, 12) for p, m, s, o in
                 zip(d['f']['pop'].ravel(), d['f']['mu'].ravel(), d['f']['sigma'].ravel(), d['o'].ravel())]
            ck.equal(np.ravel(det), np.array([t[0] for t in x]), 'hurdle mean', 1e-8)
            ck.equal(np.ravel(v.variance()), np.array([t[1] for t in x]), 'hurdle variance', 1e-8, 1e-8)
        else:
            det = d['f']['mu']
            ck.equal(v.variance(), d['f']['sigma'] ** 2, kind + ' variance')
        F = np.asarray(det).reshape(shape[0], -1)
        O = d['o'].reshape(shape[0], -1)

        def mk(a):
            dd = vf.copy(d)
            f2 = {k: x.reshape(F.shape) for k, x in dd['f'].items()}
            return vf.build(kind, {'f': f2, 'o': dd['o'].reshape(F.shape)}, avg_axis=a)
        compare(ck, mk, F, O, kind)
        ck.trace('prob', case)
    else:
        # sign convention and pairs for one explicit example
        v = PyAnEn.VerifyDeterm(np.array([3.0, 5.0]), np.array([1.0, 9.0]))
        ck.equal(v.error(), -1.0, 'bias is forecast minus observation')
        ck.equal(v.ab_error(), 3.0, 'mae')
        ck.equal(v.sq_error(), 10.0, 'mse')
        ck.equal(v.corr(), 1.0, 'corr')
        ck.trace('direct', case)
