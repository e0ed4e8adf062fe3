"""C19: Diebold-Mariano test."""
import itertools
import math

import numpy as np
from scipy import special

from mc import ref
import PyAnEn

BOUNDS = {'quick': 'all triples of series of length 3 over 3 values and of length 4 over 2 values (a negative variance estimate gives no statistic), 4 losses, powers 1..5 and 7, all horizons; longer fixed series (to 3000) with horizons 1..n-1, all combinations of 7 number types, values from the whole range of 8 integer types and of 4 memory layouts of the three series, units 1e-30 to 1e30, p-values down to 1e-280',
          'thorough': 'as quick with length 5 over 2 values and length 4 over 3 values for one actual series'}


def cases(tier):
    for crit in ('MSE', 'MAD', 'MAPE', 'poly1', 'poly2', 'poly3', 'poly4'):
        for a in itertools.product([1.0, 2.0, -3.0], repeat=3):
            yield {'part': 'all', 'crit': crit, 'actual': list(a), 'alpha': [0.0, 1.0, 2.5]}
        for a in itertools.product([1.0, 3.0], repeat=4):
            yield {'part': 'all', 'crit': crit, 'actual': list(a), 'alpha': [0.5, 2.0]}
        if tier != 'quick':
            for a in itertools.product([1.0, 3.0], repeat=5):
                yield {'part': 'all', 'crit': crit, 'actual': list(a), 'alpha': [0.5, 2.0]}
            yield {'part': 'all', 'crit': crit, 'actual': [1.0, 2.0, -1.0, 3.0], 'alpha': [0.5, 2.0, -1.0]}
        yield {'part': 'long', 'crit': crit}
        for n in (100, 150, 400, 1000, 3000) if tier == 'quick' else (100, 101, 128, 150, 256, 400, 999, 1000, 3000, 10000):
            yield {'part': 'large', 'crit': crit, 'n': n}
        yield {'part': 'types', 'crit': crit}
        yield {'part': 'integers', 'crit': crit}
        yield {'part': 'orders', 'crit': crit}
        yield {'part': 'units', 'crit': crit}
        yield {'part': 'clear', 'crit': crit}
    for crit in ('poly5', 'poly7', 'poly2.0', 'poly3.0'):
        for a in itertools.product([1.0, 2.0, -3.0], repeat=3):
            yield {'part': 'all', 'crit': crit, 'actual': list(a), 'alpha': [0.0, 2.5]}
        yield {'part': 'long', 'crit': crit}
        yield {'part': 'large', 'crit': crit, 'n': 150}
        yield {'part': 'types', 'crit': crit}
    yield {'part': 'reject'}


def expected(a, x, y, h, crit, power):
    n = len(a)
    if crit == 'MSE':
        loss = lambda u, v: (u - v) ** 2
    elif crit == 'MAD':
        loss = lambda u, v: abs(u - v)
    elif crit == 'MAPE':
        loss = lambda u, v: abs((u - v) / u)
    else:
        loss = lambda u, v: (u - v) ** power
    d = [loss(u, v) - loss(u, w) for u, v, w in zip(a, x, y)]
    m = ref.mean(d)
    gam = [math.fsum((d[i + k] - m) * (d[i] - m) for i in range(n - k)) / n for k in range(h)]
    V = (gam[0] + 2 * math.fsum(gam[1:])) / n
    if V <= -1e-9 * max(gam[0], 1e-300) and gam[0] > 0:
        return math.nan, math.nan                    # no statistic without a positive variance
    if V <= 1e-12:
        return None
    dm = m / math.sqrt(V) * math.sqrt((n + 1 - 2 * h + h * (h - 1) / n) / n)
    # two-sided p-value of the Student t distribution with n-1 degrees of freedom
    nu = n - 1
    return dm, float(special.betainc(nu / 2, 0.5, nu / (nu + dm * dm)))


def one(ck, a, x, y, h, crit, power, shape=None):
    w = expected(a, x, y, h, crit, power)
    if w is None:
        return False
    A, X, Y = np.array(a), np.array(x), np.array(y)
    if shape:
        A, X, Y = A.reshape(shape), X.reshape(shape), Y.reshape(shape)
    kw = dict(h=h, crit=crit)
    if crit == 'poly':
        kw['power'] = power
    got = PyAnEn.diebold_mariano_test(A.copy(), X.copy(), Y.copy(), **kw)
    ck.step()
    ck.equal(tuple(got), w, 'DM test h=%d %s' % (h, crit), 1e-8, 1e-10, actual=a, p1=x, p2=y)
    if not math.isnan(w[0]):
        ck.check(0 <= got[1] <= 1, 'p-value outside [0, 1]')
    rev = PyAnEn.diebold_mariano_test(A, Y, X, **kw)
    ck.step()
    ck.equal((-rev[0], rev[1]), tuple(got), 'exchanging the forecasts', 1e-9, 1e-12)
    ck.outcome(round(w[0], 9))
    return True


def compare(ck, A, X, Y, h, crit, power, tag, half=None):
    w = expected([float(v) for v in A.ravel()], [float(v) for v in X.ravel()], [float(v) for v in Y.ravel()], h, crit, power)
    before = [v.copy() for v in (A, X, Y)]
    got = PyAnEn.diebold_mariano_test(A, X, Y, h=h, crit=crit, power=power)
    ck.step()
    ck.state(tag, h)
    for v, b in zip((A, X, Y), before):
        ck.check(v.dtype == b.dtype and v.tobytes() == b.tobytes(), 'the DM test modifies its input')
    if w is not None:
        tol = (1e-8, 1e-10)
        if half:
            tol = (2e-2, 2e-2) if 'f2' in tag else (1e-4, 1e-4)
        ck.equal(tuple(got), w, 'DM test of %s' % (tag,), *tol, actual=A, p1=X, p2=Y)


def run_case(case, ck):
    crit = case.get('crit')
    power = 2
    if crit and crit.startswith('poly'):
        crit, power = 'poly', float(crit[4:]) if '.' in crit else int(crit[4:])
    if case['part'] == 'all':
        a = case['actual']
        n = len(a)
        for x in itertools.product(case['alpha'], repeat=n):
            for y in itertools.product(case['alpha'], repeat=n):
                for h in range(1, n):
                    if one(ck, a, list(x), list(y), h, crit, power):
                        ck.state(x, y, h)
                        ck.trace(case['crit'], {'actual': a, 'p1': x, 'p2': y, 'h': h})
    elif case['part'] == 'long':
        for n, shape in ((6, (2, 3)), (12, (3, 4)), (12, None), (24, (2, 3, 4)), (40, None)):
            a = [1.5 + math.sin(3.1 * i) * 0.8 for i in range(n)]
            x = [v + 0.6 * math.sin(1.7 * i + 0.3) for i, v in enumerate(a)]
            y = [v + 0.5 * math.cos(2.3 * i) + 0.1 for i, v in enumerate(a)]
            for h in range(1, n):
                if one(ck, a, x, y, h, crit, power, shape):
                    ck.state(n, h, shape)
        ck.trace('long', case)
    elif case['part'] == 'large':
        n = case['n']
        a = [1.5 + math.sin(3.1 * i) * 0.8 for i in range(n)]
        for amp in (0.5, 0.53, 0.58):
            x = [v + 0.6 * math.sin(1.7 * i + 0.3) for i, v in enumerate(a)]
            y = [v + amp * math.cos(2.3 * i) + 0.1 for i, v in enumerate(a)]
            for h in (1, 2, 3, 7, 24, 48, 72, n // 2, n - 1):
                if h < n and one(ck, a, x, y, h, crit, power, (n // 10, 10) if n % 10 == 0 and h == 3 else None):
                    ck.state(n, h, amp)
        ck.trace('large', case)
    elif case['part'] == 'types':
        a = [3, 5, 2, 7, 4, 1]
        x = [2.5, 5.25, 3.75, 6.5, 4.25, 1.5]
        y = [4, 4, 3, 9, 2, 2]
        z = [2.75, 6.5, 1.25, 7.5, 5.75, 0.25]
        types = ['i2', 'i4', 'i8', 'f4', 'f8', '>f8', 'f2']
        for ta, tx, tz in itertools.product(types, repeat=3):
            A = np.array(a, dtype=ta)
            X = np.array(x if np.dtype(tx).kind == 'f' else y, dtype=tx)
            Z = np.array(z, dtype=tz)
            for h in (1, 2, 3):
                compare(ck, A, X, Z, h, crit, power, (ta, tx, tz), half=max if min(A.dtype.itemsize, X.dtype.itemsize, Z.dtype.itemsize) < 8 else None)
        ck.trace('types', case)
    elif case['part'] == 'integers':
        # values from the whole range of integer types: differences, squares and powers do not fit into the type
        def span(t, xs):
            i = np.iinfo(t)
            lo, hi = (1, min(i.max, 10 ** 9)) if i.min == 0 else (max(i.min, -10 ** 9), min(i.max, 10 ** 9))
            return np.array([int(round(lo + v * (hi - lo))) for v in xs], dtype=t)
        types = ['u1', 'i1', 'u2', 'i2', 'i4', 'u4', 'i8', 'u8']
        pairs = list(itertools.product(types, repeat=2))
        for ta, tx in pairs:
            for tz in (ta, tx, 'u1', 'f8'):
                A = span(ta, (0.1, 0.9, 0.3, 0.8, 0.2, 1.0))
                X = span(tx, (0.4, 0.7, 0.2, 1.0, 0.0, 0.6))
                Z = span(tz, (0.0, 1.0, 0.6, 0.5, 0.3, 0.8)) if tz != 'f8' else 0.7 * A.astype(float) + 1.5
                for h in (1, 2):
                    compare(ck, A, X, Z, h, crit, power, (ta, tx, tz))
        ck.trace('integers', case)
    elif case['part'] == 'orders':
        # memory layout does not decide which values belong together
        for shape in ((2, 3), (4, 3), (2, 3, 2), (5, 2)):
            n = int(np.prod(shape))
            a = np.array([1.5 + math.sin(3.1 * i) * 0.8 for i in range(n)]).reshape(shape)
            x = a + np.array([0.6 * math.sin(1.7 * i + 0.3) for i in range(n)]).reshape(shape)
            y = a + np.array([0.5 * math.cos(2.3 * i) + 0.1 for i in range(n)]).reshape(shape)
            lay = [np.ascontiguousarray, np.asfortranarray, lambda v: np.repeat(v, 2, axis=-1)[..., ::2], lambda v: v[::-1].copy()[::-1]]
            for la, lx, ly in itertools.product(lay, repeat=3):
                for h in range(1, min(n, 4)):
                    compare(ck, la(a), lx(x), ly(y), h, crit, power, shape)
        ck.trace('orders', case)
    elif case['part'] == 'clear':
        # one forecast is clearly better: small p-values are told apart
        for n in (10, 30, 60, 200):
            a = [3.5 + math.sin(3.1 * i) * 0.8 for i in range(n)]
            for bias in (0.5, 1.0, 4.0):
                for noise in (0.3, 0.1, 0.01):
                    x = [v + noise * math.sin(1.7 * i + 0.3) for i, v in enumerate(a)]
                    y = [v + bias + noise * math.cos(2.3 * i) for i, v in enumerate(a)]
                    for h in (1, 2, 3):
                        w = expected(a, x, y, h, crit, power)
                        if w is None or math.isnan(w[0]):
                            continue
                        A, X, Y = np.array(a), np.array(x), np.array(y)
                        got = PyAnEn.diebold_mariano_test(A, X, Y, h=h, crit=crit, power=power)
                        ck.equal(got[0], w[0], 'DM statistic of clearly different forecasts', 1e-7, 0, h=h)
                        if w[1] > 1e-280:
                            # the p-value answers to the statistic with up to n times its relative error
                            ck.equal(got[1], w[1], 'p-value of clearly different forecasts', 1e-5, 0, h=h)
                        ck.equal(PyAnEn.diebold_mariano_test(A, Y, X, h=h, crit=crit, power=power)[1], w[1], 'p-value of exchanged forecasts', 1e-5, 1e-280, h=h)
                        ck.step(2)
                        ck.state(n, bias, noise, h)
        ck.trace('clear', case)
    elif case['part'] == 'units':
        # other units leave the p-value alone
        a = np.array([1.5 + math.sin(3.1 * i) * 0.8 for i in range(14)])
        x = a + np.array([0.6 * math.sin(1.7 * i + 0.3) for i in range(14)])
        y = a + np.array([0.5 * math.cos(2.3 * i) + 0.1 for i in range(14)])
        for h in (1, 2, 3, 6):
            w = expected(a.tolist(), x.tolist(), y.tolist(), h, crit, power)
            for s in (1e-30, 1e-12, 1e-7, 1e-4, 1e-2, 64.0, 1e5, 1e9, 1e20, 1e30):
                got = PyAnEn.diebold_mariano_test(a * s, x * s, y * s, h=h, crit=crit, power=power)
                ck.step()
                if w is not None:
                    ck.equal(tuple(np.abs(got)), tuple(np.abs(w)), 'DM test in other units (%g)' % s, 1e-7, 1e-9, h=h)
                    ck.check(np.sign(got[0]) == np.sign(w[0]) or math.isnan(w[0]), 'sign in other units')
                ck.state(h, s)
        ck.trace('units', case)
    else:
        A = np.array([1.0, 2.0, 3.0, 5.0])
        X, Y = A + np.array([0.1, -0.3, 0.2, 0.4]), A - np.array([0.2, 0.1, -0.2, 0.7])
        bad = [dict(h=0), dict(h=4), dict(h=9), dict(h=-1), dict(crit='RMSE'), dict(crit='mse')]
        for kw in bad:
            try:
                r = PyAnEn.diebold_mariano_test(A, X, Y, **kw)
            except Exception:
                ck.step()
                ck.state(str(kw))
                continue
            ck.fail('accepted %s' % kw, result=r)
        for args in [(A[:3], X, Y), (A, X[:3], Y), (A, X, Y[:3])]:
            try:
                r = PyAnEn.diebold_mariano_test(*args)
            except Exception:
                ck.step()
                continue
            ck.fail('accepted different lengths', result=r)
        # defaults: one step ahead, squared error
        ck.equal(PyAnEn.diebold_mariano_test(A, X, Y), PyAnEn.diebold_mariano_test(A, X, Y, h=1, crit='MSE'), 'defaults')
        ck.trace('reject', case)
