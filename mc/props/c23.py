"""C23: numerical integration of gamma-hurdle forecasts."""
import itertools
import math

import numpy as np

from mc import cross, env, execs, hist, ref, verifs as vf

BOUNDS = {'quick': 'full grid of 4 pop x 6 (mu, sigma) x 7 observations evaluated elementwise, bin counts 2-30 and 200, 8 ranges, default ranges for 3 multipliers, both memory modes, serial and parallel; integer and single precision numbers, 5 shapes and 2 memory layouts; convergence at 400, 1600 and 6400 points',
          'thorough': 'bin counts 2-150, finer parameter grid, 12 ranges'}
ASSUMPTIONS = ['observations other than 0 do not lie on an integration point (there the two one-sided limits differ)']

POP = [0.0, 0.25, 0.8, 1.0]
MS = [(1.0, 0.5), (2.0, 2.0), (3.0, 0.7), (0.6, 0.9), (5.0, 1.5), (4.0, 4.8)]
OBS = [0.0, 0.0137, 0.71828, 2.0317, 4.6692, 9.1234, 17.7171]
RANGES = [(0, 20), (0, 60), (-5, 20), (-0.5, 20), (-60, 60), (1, 13), (0.0, 7.5), (-1, 0.5)]
SCALES = [1e-6, 1e-3, 1e2, 1e4, 1e7]


def grid(tier):
    pops, ms = (POP, MS) if tier == 'quick' else (POP + [0.05, 0.5, 0.99], MS + [(1.5, 3.0), (8.0, 2.0), (0.3, 0.2)])
    return [(p, m, s, o) for p in pops for m, s in ms for o in OBS]


def cases(tier):
    for c in cross.cases(['hurdle'], tier):
        for lo in (0, -3):
            for nb in (4, 25):
                yield dict(c, lo=lo, nb=nb)
    for nb in list(range(2, 31)) + [200] + (list(range(31, 151)) if tier == 'thorough' else []):
        yield {'part': 'rule', 'nb': nb}
    for nb in (2, 3, 8, 25, 101):
        for i in range(len(SCALES)):
            yield {'part': 'scales', 'nb': nb, 'scale': i}
    for mult in (1, 2, 5):
        for nb in (2, 7, 20):
            for layout in range(3):
                yield {'part': 'default', 'mult': mult, 'nb': nb, 'layout': layout}
    for nb in (2, 3, 5, 20):
        for workers in (1, 2):
            yield {'part': 'modes', 'nb': nb, 'workers': workers}
    for dtype in ('i4', 'i8', 'f4', 'u1'):
        for which in ('o', 'f', 'both'):
            for less in (False, True):
                yield {'part': 'types', 'dtype': dtype, 'which': which, 'less': less}
    for shape in ([1], [1, 1], [5, 1, 3], [2, 3, 2, 2], [200, 7]):
        yield {'part': 'shapes', 'shape': shape}
    g = len(grid(tier))
    for i in range(0, g, 12):
        yield {'part': 'converge', 'from': i, 'to': min(g, i + 12)}


def dataset(pts, shape):
    a = np.array(pts)
    f = {'pop': a[:, 0].reshape(shape).copy(), 'mu': a[:, 1].reshape(shape).copy(), 'sigma': a[:, 2].reshape(shape).copy()}
    return {'f': f, 'o': a[:, 3].reshape(shape).copy()}


def integrals(d, **kw):
    v = vf.build('hurdle', vf.copy(d), avg_axis=(), **kw)
    return np.array(v.f_determ()), np.array(v.variance()), np.array(v.crps())


NAMES = ('mean', 'variance', 'CRPS')


def run_case(case, ck):
    if case['part'] == 'cross':
        cross.run(case, ck, [['f_determ', {}], ['variance', {}], ['crps', {}]], base={'integration_range': (case['lo'], 25), 'n_approx_bins': case['nb']},
                  without=('bins', 'range'), depth=1 if ck.quick else 2)
        return
    globals()['run_' + case['part']](case, ck)


def compare(ck, pts, got, lo, hi, nb, **detail):
    want = np.array([ref.trapezoid_hurdle(*p, lo, hi, nb) for p in pts])
    for i, n in enumerate(NAMES):
        ck.equal(got[i].ravel(), want[:, i], 'integrated %s differs from the trapezoid rule' % n, 1e-8, 1e-9, range=(lo, hi), nbins=nb, **detail)


def run_rule(case, ck):
    pts, nb = grid(ck.tier), case['nb']
    shapes = [(len(pts),), (len(POP) if ck.quick else 7, -1)]
    for lo, hi in RANGES:
        d = dataset(pts, shapes[nb % 2])
        got = integrals(d, n_approx_bins=nb, integration_range=(lo, hi))
        ck.step(3)
        for g in got:
            ck.check(g.shape == d['o'].shape, 'shape of the integral', got=g.shape)
        compare(ck, pts, got, lo, hi, nb)
        ck.bulk_states('integrals', 3 * len(pts))
        ck.state(lo, hi)
        if lo < 0:
            for g, w in zip(got, integrals(d, n_approx_bins=nb, integration_range=(0, hi))):
                ck.equal(g, w, 'range below zero changes the integral', 1e-10, 1e-12, range=(lo, hi), nbins=nb)
        ck.check(np.all(got[2] >= -1e-12), 'negative CRPS')
        # averaged values
        v = vf.build('hurdle', vf.copy(d), n_approx_bins=nb, integration_range=(lo, hi))
        ck.equal(v.crps(), np.mean(got[2]), 'averaged CRPS', 1e-9, 1e-11)
        v.set_integration_range(0, 17).set_bins(9)
        ck.equal(np.array(v.f_determ()), integrals(d, n_approx_bins=9, integration_range=(0, 17))[0], 'mean after changing the range', 1e-9, 1e-11)
        ck.outcome((nb, lo, hi))
    ck.trace('rule', case)


def run_scales(case, ck):
    """the same forecasts in other units"""
    s, nb = SCALES[case['scale']], case['nb']
    pts = [(p, m * s, g * s, o * s) for p, m, g, o in grid(ck.tier)[::2]]
    d = dataset(pts, (len(pts),))
    for lo, hi in ((0, 20 * s), (-5 * s, 60 * s), (1 * s, 13 * s)):
        got = integrals(d, n_approx_bins=nb, integration_range=(lo, hi))
        want = np.array([ref.trapezoid_hurdle(*p, lo, hi, nb) for p in pts])
        for i, n in enumerate(NAMES):
            u = s if i != 1 else s * s
            ck.equal(got[i].ravel() / u, want[:, i] / u, 'integrated %s in other units' % n, 1e-8, 1e-8, range=(lo, hi), nbins=nb)
        ck.state(lo, hi)
        ck.step(3)
    o = [p[3] for p in pts]
    r = max(o) - min(o)
    v = vf.build('hurdle', vf.copy(d), avg_axis=(), n_approx_bins=nb, integration_range=None)
    got = np.array(v.crps())
    want = np.array([ref.trapezoid_hurdle(*p, min(o) - 5 * r, max(o) + 5 * r, nb)[2] for p in pts])
    ck.equal(got / s, want / s, 'integrated CRPS over the default range in other units', 1e-8, 1e-8)
    ck.bulk_states('integrals', 10 * len(pts))
    ck.outcome(case)
    ck.trace('scales', case)


def run_default(case, ck):
    """range from the observations: [min - m r, max + m r] cut at zero"""
    k = case['layout']
    pts = [p for p in grid('quick') if p[3] in (OBS[:3], OBS[2:6], OBS)[k]]
    d = dataset(pts, (len(pts),))
    o = [p[3] for p in pts]
    r = max(o) - min(o)
    with env.settings(integrate_range_multiplier=case['mult']):
        v = vf.build('hurdle', vf.copy(d), avg_axis=(), n_approx_bins=case['nb'], integration_range=None)
        got = np.array(v.f_determ()), np.array(v.variance()), np.array(v.crps())
        compare(ck, pts, got, min(o) - case['mult'] * r, max(o) + case['mult'] * r, case['nb'])
        ck.step(3)
        # missing observations are left out of the range when they are skipped
        d2 = vf.copy(d)
        d2['o'][1] = np.nan
        rest = [x for i, x in enumerate(o) if i != 1]
        with env.settings(skip_nan=True):
            v = vf.build('hurdle', d2, avg_axis=(), n_approx_bins=case['nb'], integration_range=None)
            m = np.array(v.f_determ())
        r2 = max(rest) - min(rest)
        want = np.array([ref.trapezoid_hurdle(*p, min(rest) - case['mult'] * r2, max(rest) + case['mult'] * r2, case['nb'])[0] for p in pts])
        ck.equal(m, want, 'mean with a missing observation', 1e-8, 1e-9)
    ck.state('default')
    ck.outcome(case)
    ck.trace('default range', case)


def run_modes(case, ck):
    pts = grid('quick')[::3]
    d = dataset(pts, (4, -1))
    execs.MODE = 'fixed'
    for lo, hi in ((0, 20), (-3, 11)):
        want = integrals(d, n_approx_bins=case['nb'], integration_range=(lo, hi))
        for less in (False, True):
            with env.settings(workers=case['workers'], less_memory=less, wdir=env.scratch('mm')):
                got = integrals(d, n_approx_bins=case['nb'], integration_range=(lo, hi))
            ck.step(3)
            for n, g, w in zip(NAMES, got, want):
                ck.equal(g, w, 'integrated %s depends on the memory mode or the workers' % n, 1e-9, 1e-10, less_memory=less)
            ck.state(lo, hi, less)
    ck.trace('modes', case)


def run_converge(case, ck):
    pts = grid(ck.tier)[case['from']:case['to']]
    d = dataset(pts, (len(pts),))
    hi = 90.0
    exact = []
    for pop, mu, sigma, o in pts:
        cdf = lambda x: ref.hurdle_cdf(x, pop, mu, sigma)
        exact.append((pop * mu, pop * (sigma ** 2 + mu ** 2) - (pop * mu) ** 2, ref.crps_integral(cdf, o, 0.0, hi, pts=(mu, mu + 3 * sigma, 1e-3, 1e-2, 0.1))))
    exact = np.array(exact)
    last = None
    for nb, tol in ((400, 1.0), (1600, 0.25), (6400, 0.0625)):
        got = integrals(d, n_approx_bins=nb, integration_range=(0, hi))
        ck.step(3)
        h = hi / (nb - 1)
        for i, n in enumerate(NAMES):
            err = np.abs(got[i] - exact[:, i])
            # the error of one interval is bounded by its width (times the spread of the distribution for second moments)
            bound = h * (1.0 if i != 1 else 2.0) * np.array([1 + p[1] + p[2] for p in pts]) * 0.5
            ck.check(np.all(err <= bound), 'integrated %s does not approach the exact value' % n, points=nb, error=err.max(), bound=bound[np.argmax(err - bound)], at=pts[int(np.argmax(err - bound))])
        ck.state(nb)
    ck.bulk_states('integrals', 9 * len(pts))
    ck.outcome(tuple(map(tuple, pts)))
    ck.trace('convergence', case)


def run_types(case, ck):
    """integer and single precision forecasts and observations"""
    pts = [(p, m, s, o) for p in (0.0, 1.0, 0.5) for m, s in ((1, 1), (2, 1), (3, 2), (5, 3)) for o in (0, 1, 3, 7)]
    which, t = case['which'], case['dtype']
    if which != 'o' and t != 'f4':
        pts = [q for q in pts if q[0] != 0.5]        # all parameters are whole numbers
    d = dataset(pts, (len(pts),))
    if which != 'o':
        d['f'] = {k: v.astype(t) for k, v in d['f'].items()}
    if which != 'f':
        d['o'] = d['o'].astype(t)
    for lo, hi, nb in ((0, 20, 7), (0, 9.5, 12), (0.25, 19.3, 23), (-3, 14, 9)):
        for workers in (1, 2):
            with env.settings(workers=workers, less_memory=case['less'], wdir=env.scratch('mm')):
                got = integrals(d, n_approx_bins=nb, integration_range=(lo, hi))
            ck.step(3)
            want = np.array([ref.trapezoid_hurdle(*p, lo, hi, nb) for p in pts])
            x = np.linspace(max(lo, 0), hi, nb)
            on = [any(abs(p[3] - y) < 1e-9 for y in x) and p[3] != 0 for p in pts]      # either limit of the step
            for i, n in enumerate(NAMES):
                keep = ~np.array(on) if i == 2 else slice(None)
                ck.equal(got[i].ravel()[keep], want[keep, i], 'integrated %s of %s' % (n, t), 1e-8 if t != 'f4' else 1e-5, 1e-9 if t != 'f4' else 1e-5, range=(lo, hi), nbins=nb)
            ck.state(lo, nb, workers)
    # the default range is that of the numbers
    if which != 'f':
        o = [p[3] for p in pts]
        got = np.array(vf.build('hurdle', vf.copy(d), avg_axis=(), n_approx_bins=16, integration_range=None).f_determ())
        want = [ref.trapezoid_hurdle(*p, min(o) - 5 * 7, max(o) + 5 * 7, 16)[0] for p in pts]
        ck.equal(got, np.array(want), 'mean over the default range of %s' % t, 1e-5, 1e-5)
    ck.outcome(case)
    ck.trace('types', case)


def run_shapes(case, ck):
    shape = tuple(case['shape'])
    n = int(np.prod(shape))
    all_pts = grid('quick')
    pts = [all_pts[i * 29 % len(all_pts)] for i in range(n)]
    for less in (False, True):
        for workers in (1, 2):
            for lay in (lambda a: a, np.asfortranarray):
                d = dataset(pts, shape)
                d = {'f': {k: lay(v) for k, v in d['f'].items()}, 'o': lay(d['o'])}
                with env.settings(workers=workers, less_memory=less, wdir=env.scratch('mm')):
                    v = vf.build('hurdle', d, avg_axis=(), n_approx_bins=9, integration_range=(0, 33))
                    got = np.array(v.f_determ()), np.array(v.variance()), np.array(v.crps())
                ck.step(3)
                for g in got:
                    ck.check(g.shape == shape, 'shape of the integral', got=g.shape)
                compare(ck, pts, got, 0, 33, 9, shape=shape)
                ck.state(less, workers)
    ck.outcome(shape)
    ck.trace('shapes', case)
