"""C22: sampled members follow the distribution of their location."""
import itertools
import math

import numpy as np
from scipy import special

from mc import cross, env, execs, hist, verifs as vf

BOUNDS = {'quick': 'all member counts 1-4, member axes (positive and negative), shapes (3),(2,3),(3,3),(2,1,3), split axes, chunk sizes 1-2, 4 closed-form forecast types; 21-36 parameter combinations per type with 20000 members each (Kolmogorov distance), serial and parallel, 3 clip values; units 1e-6 to 1e6, to 1000 members and 360 locations, integer and single precision parameters',
          'thorough': 'finer parameter grids, 100000 members, 4-d shapes'}
ASSUMPTIONS = ['the distribution test uses fixed seeds and the threshold sqrt(n) D < 3 (chance of exceeding it 3e-8 per location)',
               'the closed-form types only: gamma-hurdle forecasts cannot be sampled']

UNITS = [1e-6, 1e-3, 20.0, 1e3, 1e6]
SHAPES = [(3,), (2, 3), (3, 3), (2, 1, 3)]


def cases(tier):
    for c in cross.cases(vf.CLOSED, tier):
        for axis in (-1, 1, 0):
            yield dict(c, axis=axis)
    shapes = SHAPES + [(2, 2, 1, 3)] + ([(3, 1, 2, 2), (2, 1, 2, 1, 2)] if tier == 'thorough' else [])
    for kind in vf.CLOSED:
        for shape in shapes:
            for n in (1, 2, 3, 4):
                yield {'part': 'place', 'kind': kind, 'shape': list(shape), 'n': n}
            yield {'part': 'use', 'kind': kind, 'shape': list(shape)}
        for workers in (1, 2):
            yield {'part': 'dist', 'kind': kind, 'workers': workers}
        yield {'part': 'clip', 'kind': kind}
        for i in range(len(UNITS)):
            yield {'part': 'dist', 'kind': kind, 'workers': 1, 'unit': i}
        for n in (50, 1000) if tier == 'quick' else (11, 50, 100, 1000, 3000):
            for workers in (1, 2):
                yield {'part': 'manymembers', 'kind': kind, 'n': n, 'workers': workers}
        yield {'part': 'types', 'kind': kind}


def run_case(case, ck):
    if case['part'] == 'cross':
        base = {'n_sample_members': 4, 'move_sampled_ens_axis': case['axis'], 'clip_member_to_zero': 1.0}
        cross.run(case, ck, [['prob_to_ens', {}], ['spread', {}]] + ([['rank_hist', {}]] if case['which'] == 'plain' else []),
                  base=base, without=('workers', 'mapaxis', 'clip', 'nsample', 'sampleaxis'), seed=5)
        return
    execs.MODE = 'fixed'
    globals()['run_' + case['part']](case, ck)


def far_apart(kind, shape):
    """locations whose distributions do not overlap, so that every value tells its location"""
    n = int(np.prod(shape))
    mu = (np.arange(n) * 37 % n * 10.0 + 10).reshape(shape)      # a permutation: neighbours differ
    if n % 37 == 0:
        raise RuntimeError('not a permutation')
    sigma = np.full(shape, 0.2)
    o = mu + 0.01
    if kind in ('gauss', 'tgauss'):
        return {'f': {'mu': mu, 'sigma': sigma}, 'o': o}
    shift = (-0.5 - 3.0 * (np.arange(n) % 3)).reshape(shape)
    return {'f': {'mu': mu + shift, 'unshifted_mu': mu, 'sigma': sigma, 'shift': shift}, 'o': o + shift}


def settings_of(shape, quick):
    yield {}
    for ax in range(-1, -len(shape) - 1, -1):
        for chunk in (1, 2) if ax == -1 else (1,):
            yield dict(workers=2, map_axis=ax, chunksize=chunk)


def run_place(case, ck):
    kind, shape, n = case['kind'], tuple(case['shape']), case['n']
    d = far_apart(kind, shape)
    centre = d['f']['mu']
    nd = len(shape)
    for st in settings_of(shape, ck.quick):
        for axis in range(-nd - 1, nd + 1):
            np.random.seed(3)
            with env.settings(**st), execs.schedule(execs.Chooser()):
                v = vf.build(kind, vf.copy(d), n_sample_members=n, move_sampled_ens_axis=axis)
                ens = np.array(v.prob_to_ens())
            ck.step()
            pos = axis % (nd + 1)
            want = shape[:pos] + (n,) + shape[pos:]
            ck.check(ens.shape == want, 'shape of the sampled members', got=ens.shape, want=want, axis=axis, settings=st)
            off = np.abs(np.moveaxis(ens, pos, 0) - centre)
            ck.check(np.all(off < 2.5), 'members belong to another location', axis=axis, settings=st)
            if n > 1:
                ck.check(np.all(np.ptp(ens, axis=pos) > 0), 'members of a location coincide', axis=axis, settings=st)
            ck.state(str(st), axis)
            ck.outcome((kind, want, str(st)))
    ck.trace('place/' + kind, case)


def params(kind, tier):
    if kind in ('gauss', 'tgauss'):
        mus = [-2.0, 0.0, 0.5, 3.0, 10.0] + ([-5.0, 100.0] if tier == 'thorough' else [])
        far = [dict(mu=m, sigma=1.0) for m in (-9.0, -30.0)] if kind == 'tgauss' else []          # hardly any mass above zero
        return [dict(mu=m, sigma=s) for m in mus for s in (0.3, 1.0, 2.5, 6.0)] + far
    out = []
    for u in (0.8, 2.0, 6.0):
        for s in (0.4, 1.0, 3.0) + ((6.0,) if tier == 'thorough' else ()):
            for sh in (0.0, -0.3, -1.5) + (0.7, 12.0):
                out.append(dict(mu=u + sh, unshifted_mu=u, sigma=s, shift=sh))
    if kind == 'tgamma':
        out += [dict(mu=u + sh, unshifted_mu=u, sigma=s, shift=sh) for u, s, sh in ((1.0, 1.0, -20.0), (1.0, 1.0, -50.0), (0.1, 0.02, -0.5), (5.0, 3.0, -40.0))]
    return out


def cdf(kind, p, x):
    x = np.asarray(x, dtype=float)
    if kind in ('gauss', 'tgauss'):
        g = lambda y: special.ndtr((y - p['mu']) / p['sigma'])
        sf = lambda y: np.exp(special.log_ndtr(-(y - p['mu']) / p['sigma']) - special.log_ndtr(p['mu'] / p['sigma']))
    else:
        a, sc = (p['unshifted_mu'] / p['sigma']) ** 2, p['sigma'] ** 2 / p['unshifted_mu']
        g = lambda y: special.gammainc(a, np.maximum((y - p['shift']) / sc, 0))
        sf = lambda y: special.gammaincc(a, np.maximum((y - p['shift']) / sc, 0))
    if kind in ('tgauss', 'tgamma'):
        return np.where(x <= 0, 0.0, 1 - sf(x) / sf(0.0))
    return g(x)


def kolmogorov(kind, p, x):
    x = np.sort(x)
    delta = 1e-9 * (min(1, p['sigma']) + np.abs(x))            # members are rounded: many fall on the very end of a skewed distribution
    n = len(x)
    i = np.arange(1, n + 1)
    return math.sqrt(n) * max(np.max(i / n - cdf(kind, p, x + delta)), np.max(cdf(kind, p, x - delta) - (i - 1) / n))


def run_dist(case, ck):
    kind = case['kind']
    ps = params(kind, ck.tier)
    keys = list(ps[0])
    if 'unit' in case:
        ps = [{k: x * UNITS[case['unit']] for k, x in p.items()} for p in ps[case['unit'] % 2::2]]
    f = {k: np.array([p[k] for p in ps]) for k in keys}
    d = {'f': f, 'o': np.ones(len(ps))}
    n = 20000 if ck.quick else 100000
    for axis in (0, -1):
        np.random.seed(7)
        with env.settings(workers=case['workers']), execs.schedule(execs.Chooser()):
            ens = np.array(vf.build(kind, vf.copy(d), n_sample_members=n, move_sampled_ens_axis=axis).prob_to_ens())
        ck.step()
        ens = np.moveaxis(ens, axis, 0)
        ck.check(ens.shape == (n, len(ps)), 'shape of the sampled members', got=ens.shape)
        ck.check(not np.isnan(ens).any(), 'missing members')
        if kind in ('tgauss', 'tgamma'):
            ck.check(ens.min() >= -1e-9 * min(1, f['sigma'].min()), 'negative members of a truncated distribution', smallest=ens.min(), params=ps[int(np.argmin(ens.min(0)))])
        for i, p in enumerate(ps):
            k = kolmogorov(kind, p, ens[:, i])
            ck.check(k < 3.0, 'members do not follow the distribution of their location', params=p, statistic=k)
            ck.check(k > 0.12, 'members are implausibly regular', params=p, statistic=k)     # below it: 1e-30
            # members are independent of each other: lag one
            u = cdf(kind, p, ens[:, i])
            if 'unit' not in case:
                # the tails are reached: chance of missing them 4e-8
                ck.check(u.min() * n < 17 and (1 - u.max()) * n < 17, 'members do not reach the tails of their distribution', params=p, smallest=u.min(), largest=u.max())
            r = np.corrcoef(u[1:], u[:-1])[0, 1]
            ck.check(abs(r) * math.sqrt(n) < 6, 'members of a location depend on each other', params=p, correlation=r)
            # every lag (circular, so that each has n pairs) and the reversed order, in position and in distance from the middle
            for w in (u - u.mean(), np.abs(u - 0.5) - np.abs(u - 0.5).mean()):
                F = np.fft.rfft(w)
                ac = np.fft.irfft(F * np.conj(F), n)[1:n // 2 + 1] / np.dot(w, w)
                # the lag n/2 counts every pair twice
                ac[-1] /= math.sqrt(2)
                ck.check(np.abs(ac).max() * math.sqrt(n) < 7, 'members of a location depend on each other', params=p, correlation=np.abs(ac).max(), lag=int(np.argmax(np.abs(ac))) + 1)
                r = np.dot(w, w[::-1]) / np.dot(w, w) / math.sqrt(2)
                ck.check(abs(r) * math.sqrt(n) < 7, 'members of a location mirror each other', params=p, correlation=r)
            ck.state(axis, i)
            ck.outcome((kind, i))
        # and of the members at other locations
        U = np.stack([cdf(kind, p, ens[:, i]) for i, p in enumerate(ps)])
        R = np.corrcoef(U) - np.eye(len(ps))
        ck.check(np.abs(R).max() * math.sqrt(n) < 6, 'members of different locations depend on each other', correlation=np.abs(R).max())
    ck.bulk_states('members_tested', 2 * n * len(ps))
    ck.trace('distribution/' + kind, case)


def run_clip(case, ck):
    kind = case['kind']
    ps = params(kind, 'quick')
    f = {k: np.array([p[k] for p in ps]) for k in ps[0]}
    d = {'f': f, 'o': np.ones(len(ps))}
    n = 400
    for st in ({}, {'workers': 2}):
        for axis in (0, 1, -1):
            for c in (0.0, 0.5, 2.0, -1.0):
                out = []
                for clip in (None, c):
                    np.random.seed(13)
                    with env.settings(**st), execs.schedule(execs.Chooser()):
                        v = vf.build(kind, vf.copy(d), n_sample_members=n, move_sampled_ens_axis=axis, clip_member_to_zero=clip)
                        out.append(np.array(v.prob_to_ens()))
                    ck.step()
                raw, got = out
                ck.equal(got, np.where(raw < c, 0.0, raw), 'members after clipping', 0, 0, clip=c, settings=st)
                ck.state(str(st), axis, c)
                ck.outcome((kind, c))
    ck.trace('clip/' + kind, case)


def run_use(case, ck):
    """rank histogram and spread of the saved members"""
    kind, shape = case['kind'], tuple(case['shape'])
    nd = len(shape)
    d = vf.data(kind, shape, 4)
    for st in ({}, {'workers': 2}):
        for n in (2, 3):
            for axis in range(-nd - 1, nd + 1):
                for clip in (None, 2.0):
                    for avg in (None, 0):
                        with env.settings(**st), execs.schedule(execs.Chooser()):
                            np.random.seed(21)
                            v = vf.build(kind, vf.copy(d), n_sample_members=n, move_sampled_ens_axis=axis, clip_member_to_zero=clip,
                                         avg_axis=avg, working_directory=env.scratch('use'))
                            ens = np.moveaxis(np.array(v.prob_to_ens()), axis, 0)
                            ranks = np.array(v.rank_hist())
                            spread = np.array(v.spread())
                        ck.step(3)
                        ck.equal(ranks, 1 + np.sum(ens < d['o'], axis=0), 'rank histogram of the sampled members', 0, 0, axis=axis, members=n, settings=st)
                        ck.equal(spread, np.mean(ens.max(0) - ens.min(0), axis=avg), 'spread of the sampled members', 1e-10, 1e-12, axis=axis, members=n, settings=st)
                        ck.state(str(st), n, axis, clip, avg)
                        ck.outcome((kind, shape, n, axis))
    ck.trace('use/' + kind, case)


def run_manymembers(case, ck):
    """large ensembles and many locations: place and distribution of the members"""
    kind, n = case['kind'], case['n']
    for shape in ((5,), (30, 12)):
        d = far_apart(kind, shape)
        centre, sigma = d['f']['mu'], 0.2
        for axis in (0, -1, 1):
            np.random.seed(31)
            with env.settings(workers=case['workers']), execs.schedule(execs.Chooser()):
                ens = np.array(vf.build(kind, vf.copy(d), n_sample_members=n, move_sampled_ens_axis=axis).prob_to_ens())
            ck.step()
            pos = axis % (len(shape) + 1)
            ck.check(ens.shape == shape[:pos] + (n,) + shape[pos:], 'shape of the sampled members', got=ens.shape, axis=axis)
            off = np.moveaxis(ens, pos, 0) - centre
            ck.check(np.all(np.abs(off) < 2.5), 'members belong to another location', axis=axis)
            z = off.mean(0) / sigma * np.sqrt(n)
            ck.check(np.abs(z).max() < 6, 'mean of the members', z=np.abs(z).max())
            ck.check(np.abs(off.std(0) / sigma - 1).max() < 5 / np.sqrt(n), 'spread of the members', got=off.std(0).ravel()[:4], want=sigma)
            ck.check(len(np.unique(off)) > 0.99 * off.size, 'members repeat each other')
            ck.state(shape, axis)
    ck.outcome((kind, n))
    ck.trace('many members/' + kind, case)


def run_types(case, ck):
    """parameters of other number types and memory layouts give the members of the same distributions"""
    kind = case['kind']
    mu = np.array([[10, 60, 20], [40, 90, 30]])
    for dtype in ('i4', 'i8', 'f4', 'f8'):
        for lay in (np.ascontiguousarray, np.asfortranarray, lambda a: np.repeat(a, 2, 1)[:, ::2]):
            t = lambda a: lay(np.asarray(a).astype(dtype))
            f = {'mu': t(mu), 'sigma': t(np.ones((2, 3)))}
            if kind not in ('gauss', 'tgauss'):
                f = {'mu': t(mu - 1), 'unshifted_mu': t(mu), 'sigma': t(np.ones((2, 3))), 'shift': t(-np.ones((2, 3)))}
            for st in ({}, {'workers': 2}):
                for axis in (0, -1):
                    np.random.seed(17)
                    with env.settings(**st), execs.schedule(execs.Chooser()):
                        ens = np.array(vf.build(kind, {'f': {k: v.copy(order='K') for k, v in f.items()}, 'o': mu.astype(float)}, n_sample_members=600, move_sampled_ens_axis=axis).prob_to_ens())
                    ck.step()
                    ens = np.moveaxis(ens, axis, 0)
                    off = ens - f['mu']
                    ck.check(off.shape == (600, 2, 3) and np.abs(off).max() < 7, 'members belong to another location', dtype=dtype)
                    ck.check(np.abs(off.mean(0)).max() < 0.25 and np.abs(off.std(0) - 1).max() < 0.2, 'mean or spread of the members', got=(off.mean(0), off.std(0)), dtype=dtype, settings=st)
                    ck.check(len(np.unique(off)) > 3000, 'members are rounded', dtype=dtype)
                    ck.state(dtype, str(st), axis)
    ck.outcome(kind)
    ck.trace('types/' + kind, case)
