"""C20: bootstrap intervals, over all random index streams."""
import collections
import itertools
import math

import numpy as np

from mc import env, execs, ref, rng, verifs as vf

BOUNDS = {'quick': 'all index streams for population sizes 2-5, sample sizes 1-5 and repeats 1-5 with n^(m r) <= 512 (m r odd), 4 confidences, every bootstrapped metric of 8 forecast types, pooled and with kept dimensions; '
                   'sample sizes and repeats 1..41, 101, 151, 307 by single-one streams; to 2500 repeats and 1200 elements against the limit distribution (fixed seeds); skipping of missing values on; 41 confidences on 63 resamples; constant populations',
          'thorough': 'n^(m r) <= 4096, 8 confidences, sample sizes and repeats up to 151'}
ASSUMPTIONS = ['random indices come from the global numpy generator (whose words the explorer chooses); the mapping from words to indices may use low or high bits']

AVERAGES = ('error', 'ab_error', 'sq_error', 'rmse', 'brier_over', 'brier_below', 'crps', 'spread')
SMALL = [(2, 3, 1), (3, 1, 3), (2, 3, 3)]


def sizes(tier):
    cap = 512 if tier == 'quick' else 4096
    return [(n, m, r) for n in (2, 3, 4, 5) for m in range(1, 8, 2) for r in range(1, 8, 2) if n ** (m * r) <= cap]


def confidences(tier):
    return (0.95, 0.5, 0.8, 1.0) if tier == 'quick' else (0.95, 0.5, 0.8, 1.0, 0.0, 0.1, 0.9, 0.99)


def cases(tier):
    seen = set()
    for c in all_cases(tier):
        k = str(c)
        if k not in seen:
            seen.add(k)
            yield c


def all_cases(tier):
    for n, m, r in sizes(tier):
        yield {'part': 'avg', 'kind': 'determ', 'metric': 'error', 'nmr': [n, m, r], 'keep': 0}
        if n > 2 and m > 1:
            yield {'part': 'avg', 'kind': 'determ', 'metric': 'corr', 'nmr': [n, m, r], 'keep': 0}
    for kind in vf.KINDS:
        names = vf.metrics_for(kind)
        for nmr in SMALL:
            for keep in (0, 2):
                for metric in AVERAGES:
                    if metric in names:
                        yield {'part': 'avg', 'kind': kind, 'metric': metric, 'nmr': list(nmr), 'keep': keep}
        for keep in (0, 2):
            yield {'part': 'avg', 'kind': kind, 'metric': 'corr', 'nmr': [4, 3, 1], 'keep': keep}
            yield {'part': 'avg', 'kind': kind, 'metric': 'corr', 'nmr': [2, 3, 3], 'keep': keep}
            if kind != 'determ':
                for metric in ('decomp_over', 'decomp_below'):
                    for nmr in ([4, 3, 1], [3, 1, 3], [2, 3, 3]):
                        yield {'part': 'avg', 'kind': kind, 'metric': metric, 'nmr': nmr, 'keep': keep}
        if kind != 'determ':
            for nmr in SMALL:
                for nbins in (1, 2, 3):
                    for keep in (0, 2):
                        yield {'part': 'ss', 'kind': kind, 'nmr': list(nmr), 'nbins': nbins, 'keep': keep}
            for nmr in SMALL + [(4, 3, 1)]:
                yield {'part': 'rel', 'kind': kind, 'nmr': list(nmr), 'keep': 0}
        for metric in names:
            if metric in AVERAGES:
                yield {'part': 'const', 'kind': kind, 'metric': metric}
    for nmr in SMALL + [(4, 1, 3), (4, 3, 1)]:
        for keep in (0, 2):
            yield {'part': 'relbins', 'nmr': list(nmr), 'keep': keep}
    # skipping missing observations with none missing
    for kind in ('determ', 'ens_first', 'gauss') if tier == 'quick' else vf.KINDS:
        for metric in ('error', 'rmse', 'corr', 'decomp_over', 'crps'):
            if metric in vf.metrics_for(kind):
                for nmr in ([2, 3, 3], [4, 3, 1]):
                    for keep in (0, 2):
                        yield {'part': 'avg', 'kind': kind, 'metric': metric, 'nmr': nmr, 'keep': keep, 'skip': True}
        if kind != 'determ':
            for keep in (0, 2):
                yield {'part': 'ss', 'kind': kind, 'nmr': [2, 3, 3], 'nbins': 2, 'keep': keep, 'skip': True}
            yield {'part': 'rel', 'kind': kind, 'nmr': [2, 3, 3], 'keep': 0, 'skip': True}
    for skip in (False, True):
        yield {'part': 'relbins', 'nmr': [2, 3, 3], 'keep': 2, 'skip': True}
        for metric in ('corr', 'decomp_over'):
            for c in (0.5, 0.8, 0.95, 1.0, 0.1) if tier != 'quick' else (0.5, 0.9):
                yield {'part': 'avg', 'kind': 'determ' if metric == 'corr' else 'ens_last', 'metric': metric, 'nmr': [3, 3, 3], 'keep': 0, 'skip': skip, 'conf': [c]}
    for metric in ('error', 'corr', 'decomp', 'ss', 'rel'):
        for q in (101, 151, 307) if tier == 'quick' else (101, 151, 201, 307, 501, 623):
            yield {'part': 'many', 'metric': metric, 'q': q}
        for r in (100, 101, 150, 500, 1000, 1001, 2500):
            yield {'part': 'repeats', 'metric': metric, 'r': r}
        for n in (50, 300, 1200) if tier == 'quick' else (50, 300, 1200, 5000):
            for keep in (0, 3):
                yield {'part': 'large', 'metric': metric, 'n': n, 'keep': keep}
    for metric in ('error', 'corr', 'decomp', 'ss', 'rel'):
        yield {'part': 'count', 'metric': metric}
        if metric != 'corr':
            yield {'part': 'wide', 'metric': metric}


def run_case(case, ck):
    execs.MODE = 'fixed'
    rng.selftest()
    with env.settings(skip_nan=bool(case.get('skip'))):
        globals()['run_' + case['part']](case, ck)


# --- the specification ------------------------------------------------------------------------------------

def word(j, n):
    """a random word that denotes index j of n, whether the low or the high bits are used"""
    return int((2 * j + 1) / (2 * n) * 2 ** 32) & ~0xFF | j


def quantile(xs, q):
    xs = sorted(xs)
    h = q * (len(xs) - 1)
    i = min(int(math.floor(h + 1e-12)), len(xs) - 1)
    f = max(h - i, 0.0)
    return xs[i] if f < 1e-12 or i + 1 >= len(xs) else xs[i] + f * (xs[i + 1] - xs[i])


def triple(stats, c, skip=False):
    if skip:
        stats = [s for s in stats if not math.isnan(s)] or [math.nan]
    if any(math.isnan(s) for s in stats):
        return (math.nan,) * 3
    return quantile(stats, (1 - c) / 2), ref.mean(stats), quantile(stats, (1 + c) / 2)


def key(t):
    return tuple('nan' if math.isnan(x) else round(float(x), 8) + 0.0 for x in t)


def expected(stat_of, n, m, r, c, post=lambda t: t, skip=False):
    """distribution of the triple over all draws; stat_of: tuple of m indices -> statistic"""
    stats = {}
    for draw in itertools.product(range(n), repeat=m):
        stats[draw] = stat_of(draw)
    out = collections.Counter()
    for reps in itertools.product(stats.values(), repeat=r):
        out[key(post(triple(reps, c, skip)))] += 1
    return out, n ** (m * r)


def streams(n, m, r):
    for s in itertools.product(range(n), repeat=m * r):
        yield s, [word(j, n) for j in s]


def same_distribution(ck, got, want, **kw):
    """got: Counter over triples, want: (Counter, total)"""
    n_got, (w, n_want) = sum(got.values()), want
    bad = match(got, w, n_got, n_want)
    if bad:
        ck.fail('intervals over all random streams differ from the resampled statistics', **bad, **kw)


def match(got, w, n_got, n_want):
    # rounding may put equal numbers into neighbouring keys: merge keys closer than 3e-8
    def norm(c, total):
        items = sorted((tuple(math.inf if x == 'nan' else x for x in k), v / total) for k, v in c.items())
        return items
    a, b = norm(got, n_got), norm(w, n_want)
    used = [False] * len(b)
    left = [v for _, v in b]
    for k, v in a:
        rest = v
        for i, (k2, _) in enumerate(b):
            if left[i] > 1e-12 and all(x == y or abs(x - y) <= 3e-8 * (1 + abs(y)) for x, y in zip(k, k2)):
                take = min(rest, left[i])
                rest -= take
                left[i] -= take
                if rest <= 1e-12:
                    break
        if rest > 1e-9:
            return dict(interval=k, share=v, excess=rest, possible=[x for x, _ in b][:6])
    return None


def quick_conf(ck):
    return confidences(ck.tier)


# --- averages, correlation, decomposition -------------------------------------------------------------------

def make(kind, n, keep):
    shape = (n,) + ((keep,) if keep else ())
    return vf.data(kind, shape, 5), ([0] if keep else None)


def resampled(kind, d, idx, k):
    sel = (list(idx),) + ((k,) if d['o'].ndim > 1 else ())
    return vf.take(kind, d, sel)


def run_avg(case, ck):
    kind, metric, (n, m, r), keep = case['kind'], case['metric'], case['nmr'], case['keep']
    d, axis = make(kind, n, keep)
    f = vf.metrics_for(kind)[metric]
    parts = 3 if metric.startswith('decomp') else 1
    slices = range(keep or 1)
    base = 'sq_error' if metric == 'rmse' else metric
    g = vf.metrics_for(kind)[base]
    post = (lambda t: tuple(math.sqrt(x) for x in t)) if metric == 'rmse' else (lambda t: t)

    def stat(k, part):
        if base in AVERAGES:
            pop = [float(np.ravel(g(vf.build(kind, resampled(kind, d, [i], k))))[0]) for i in range(n)]
            return lambda draw: ref.mean(pop[i] for i in draw)
        memo = {}

        def s(draw):
            dr = tuple(sorted(draw))
            if dr not in memo:
                dd = resampled(kind, d, dr, k)
                memo[dr] = [float(np.ravel(x)[0]) for x in (g(vf.build(kind, dd)) if parts == 3 else [g(vf.build(kind, dd))])]
                if metric == 'corr':
                    # decided by the data, not by rounding
                    if len({float(x) for x in np.ravel(dd['o'])}) == 1:
                        memo[dr] = [math.nan]
                    else:
                        memo[dr] = [float(np.clip(memo[dr][0], -1, 1))]
            return memo[dr][part]
        return s

    for c in case.get('conf') or (quick_conf(ck) if n <= 4 or not ck.quick else (0.95, 0.5)):
        got = {(k, p): collections.Counter() for k in slices for p in range(parts)}
        with env.settings(repeats=r, confidence=c):
            v = vf.build(kind, vf.copy(d), avg_axis=axis, boot_samples=m)
            for s, words in streams(n, m, r):
                rng.set_words(words)
                out = f(v)
                ck.step()
                out = [np.asarray(x) for x in out] if parts == 3 else [np.asarray(out)]
                for p, x in enumerate(out):
                    ck.check(x.shape == ((3, keep) if keep else (3,)), 'lower bound, mean and upper bound in a leading dimension', got=x.shape, metric=metric)
                    for k in slices:
                        t = [float(z) for z in (x[:, k] if keep else x)]
                        if metric == 'corr' and any(math.isnan(z) for z in t):
                            t = [math.nan] * 3
                        got[k, p][key(t)] += 1
                ck.state(c, s)
        for (k, p), cnt in got.items():
            same_distribution(ck, cnt, expected(stat(k, p), n, m, r, c, post, case.get('skip')), metric=metric, kind=kind, n=n, samples=m, repeats=r, confidence=c, slice=k, part=p)
            ck.outcome((kind, metric, n, m, r, c, len(cnt)))
    ck.trace(metric + '/' + kind, case)


# --- binned spread-skill --------------------------------------------------------------------------------------

def run_ss(case, ck):
    kind, (n, m, r), nbins, keep = case['kind'], case['nmr'], case['nbins'], case['keep']
    d, axis = make(kind, n * nbins, keep)
    if kind in vf.ENS:                         # no ties of the variances
        scale = 1 + 0.07 * vf.grid(d['o'].shape, 0.77)
        d['f'] = d['f'] * (scale if kind == 'ens_first' else scale[..., None])
    var = np.array(vf.build(kind, vf.copy(d)).variance())
    sq = np.array([[float(np.ravel(vf.build(kind, resampled(kind, d, [i], k)).sq_error())[0]) for k in range(keep or 1)] for i in range(n * nbins)])
    var = var.reshape(n * nbins, -1)
    for k in range(keep or 1):
        if np.min(np.diff(np.sort(var[:, k]))) < 1e-9:
            raise RuntimeError('ties in the data of the check')
    for c in quick_conf(ck)[:2 if n ** (m * r) > 100 else 4]:
        got = collections.defaultdict(collections.Counter)
        with env.settings(repeats=r, confidence=c):
            v = vf.build(kind, vf.copy(d), avg_axis=axis, boot_samples=m)
            for s, words in streams(n, m, r):
                rng.set_words(words)
                out = v.binned_spread_skill(nbins=nbins)
                ck.step()
                for p, x in enumerate(out):
                    x = np.asarray(x)
                    ck.check(x.shape == ((keep,) if keep else ()) + (nbins, 3), 'shape of the spread-skill intervals', got=x.shape)
                    x = x.reshape(keep or 1, nbins, 3)
                    for k in range(keep or 1):
                        for b in range(nbins):
                            got[p, k, b][key(x[k, b])] += 1
                ck.state(c, s)
        for k in range(keep or 1):
            order = sorted(range(n * nbins), key=lambda i: var[i, k])
            for b in range(nbins):
                members = order[b * n:(b + 1) * n]
                for p, src in enumerate((var, sq)):
                    pop = [float(src[i, k]) for i in members]
                    want = expected(lambda draw: ref.mean(pop[i] for i in draw), n, m, r, c, lambda t: tuple(math.sqrt(x) for x in t))
                    same_distribution(ck, got[p, k, b], want, kind=kind, n=n, samples=m, repeats=r, confidence=c, bin=b, slice=k, part=('spread', 'error')[p])
                    ck.outcome((kind, n, m, r, c, b, p))
    ck.trace('spread-skill/' + kind, case)


# --- reliability ----------------------------------------------------------------------------------------------

def rel_one(ck, kind, d, axis, nbins, over, probs, events, n, m, r, keep, **kw):
    """probs, events: arrays (elements, slices); every bin has 1, n/2 or n elements"""
    for c in quick_conf(ck)[:2 if n ** (m * r) > 100 else 4]:
        got = collections.defaultdict(collections.Counter)
        with env.settings(repeats=r, confidence=c):
            v = vf.build(kind, vf.copy(d), avg_axis=axis, boot_samples=m)
            for s, words in streams(n, m, r):
                rng.set_words(words)
                out = v.reliability(nbins=nbins, over=over)
                ck.step()
                for p in (0, 1):
                    x = np.asarray(out[p])
                    x = x.reshape(keep or 1, -1, 3) if keep else x[None]
                    for k in range(keep or 1):
                        for b in range(x.shape[1]):
                            got[p, k, b][key(x[k, b])] += 1
                ck.state(c, s)
        for k in range(keep or 1):
            groups = {}
            for i, (pr, ev) in enumerate(zip(probs[:, k], events[:, k])):
                groups.setdefault(min(int(sum(pr >= j / nbins for j in range(1, nbins))), nbins - 1), []).append(i)
            bins = sorted(groups)
            for p, src in enumerate((probs, events)):
                ck.check(len([1 for q in got if q[0] == p and q[1] == k]) == len(bins), 'number of bins', **kw)
                for b, bid in enumerate(bins):
                    pop = [float(src[i, k]) for i in groups[bid]]
                    if n % len(pop):
                        raise RuntimeError('bin size')
                    want = expected(lambda draw: ref.mean(pop[i] for i in draw), len(pop), m, r, c)
                    same_distribution(ck, got[p, k, b], want, kind=kind, n=len(pop), samples=m, repeats=r, confidence=c, bin=bid, slice=k, part=('probability', 'frequency')[p])
                    ck.outcome((kind, n, m, r, c, b, p))


def run_rel(case, ck):
    kind, (n, m, r) = case['kind'], case['nmr']
    d, axis = make(kind, n, 0)
    over = 2.5
    probs = np.array(vf.build(kind, vf.copy(d)).cdf(over=over)).reshape(n, 1)
    events = (d['o'] > over).astype(float).reshape(n, 1)
    rel_one(ck, kind, d, axis, 1, over, probs, events, n, m, r, 0)
    ck.trace('reliability/' + kind, case)


def run_relbins(case, ck):
    """bins of different sizes: n, n/2 or 1 elements"""
    (n, m, r), keep = case['nmr'], case['keep']
    members = 5
    for sizes in ([n, n], [n, 1], [1, n, n]) + (([n, n // 2],) if n % 2 == 0 else ()):
        total = sum(sizes)
        K = keep or 1
        exceed, obs = np.zeros((total, K), int), np.zeros((total, K))
        for k in range(K):
            where = [b for b, s in enumerate(sizes) for _ in range(s)]
            rot = where[(k + 1) % total:] + where[:(k + 1) % total]        # elements in another order per slice
            counts = collections.Counter()
            for i, b in enumerate(rot):
                # nbins = 3: probabilities 0, .2 | .4, .6 | .8, 1
                exceed[i, k] = 2 * b + (counts[b] % 2)
                obs[i, k] = 1.0 if (i * 7 + k) % 3 else 9.0
                counts[b] += 1
        over = 5.0
        f = np.zeros((total, K, members))
        for i in range(total):
            for k in range(K):
                f[i, k, :exceed[i, k]] = 8.0
                f[i, k] += np.arange(members) * 0.01
        d = {'f': f if keep else f[:, 0], 'o': obs if keep else obs[:, 0]}
        rel_one(ck, 'ens_last', d, [0] if keep else None, 3, over, exceed / members, (obs > over).astype(float), n, m, r, keep, sizes=sizes)
        ck.outcome((tuple(sizes), n))
    ck.trace('reliability/bins', case)


# --- sample size, repeats, confidence -----------------------------------------------------------------------------

def binary(metric, n):
    """(kind, data, call): population of n values, the statistic of index i alone is i for error, and known for the others"""
    if metric == 'error':
        return 'determ', {'f': np.arange(float(n)), 'o': np.zeros(n)}, lambda v: v.error()
    if metric == 'corr':
        return 'determ', {'f': np.arange(float(n)), 'o': np.arange(float(n)) ** 2}, lambda v: v.corr()
    if metric == 'ss':
        f = np.stack([np.zeros(n), np.zeros(n)], axis=1)
        f[:, 1] = 2 * np.sqrt(np.arange(n))                                # variance i
        return 'ens_last', {'f': f, 'o': np.sqrt(np.arange(n)) * 2}, lambda v: v.binned_spread_skill(nbins=1)
    f = np.where(np.arange(n)[:, None] > np.arange(n - 1)[None], 1.0, -1.0)      # i of n-1 members above 0
    o = np.where(np.arange(n) % 2, 1.0, -1.0)
    if n == 2:
        f = np.repeat(f, 2, axis=1)
    return 'ens_last', {'f': f, 'o': o}, (lambda v: v.reliability(nbins=1, over=0.0)) if metric == 'rel' else (lambda v: v.brier_decomp(over=0.0))


def run_many(case, ck):
    """as count, with large sample sizes and many repeats"""
    q = case['q']
    run_count(case, ck, [q], {0, 1, 2, q // 3, q // 2, q - 100, q - 2, q - 1} if ck.quick else range(q))


def seeded(n):
    np.random.seed(1234 + n)


def run_repeats(case, ck):
    """single samples of 0 or 1 with many repeats: each resampled value is 0 or 1, both occur"""
    metric, r = case['metric'], case['r']
    if metric == 'corr':
        kind, d, call = binary(metric, 40)
    else:
        kind, d, call = binary(metric, 2)
    for m in (1, 3):
        for c in (0.95, 0.5, 1.0):
            seeded(r)
            with env.settings(repeats=r, confidence=c):
                out = call(vf.build(kind, vf.copy(d), boot_samples=10 if metric == 'corr' else m))
            ck.step()
            ck.state(m, c)
            if metric == 'corr':
                t = np.asarray(out, dtype=float)
                ck.check(0.8 < t[0] <= t[1] <= t[2] < 1 and t[2] - t[0] > 0.004, 'correlation interval of %d repeats' % r, got=t)
                continue
            if metric == 'error':
                t = np.asarray(out)
            elif metric == 'ss':
                t = np.asarray(out[0])[0] ** 2
            elif metric == 'rel':
                t = np.asarray(out[1])[0]
            else:
                t = np.asarray(out[2])          # uncertainty p (1 - p)
                if c == 0.5 and m == 3:
                    continue                    # a quarter of the values is zero
                if m == 1:
                    ck.equal(t, [0.0] * 3, 'uncertainty of single samples', 0, 1e-12)
                else:
                    ck.equal(t[[0, 2]], [0.0, 2 / 9], 'bounds of the uncertainty', 1e-9, 1e-9, confidence=c, repeats=r)
                    k = t[1] * r * 9 / 2
                    ck.check(abs(k - round(k)) < 1e-5 and 0.55 < k / r < 0.95, 'mean of %d repeats' % r, got=t)
                continue
            k = t[1] * r * m
            ck.check(abs(k - round(k)) < 1e-5 and abs(k / (r * m) - 0.5) < 0.2, 'mean of %d repeats' % r, got=t)
            # quantiles of r binomial means
            p = np.arange(m + 1) / m
            w = [0, 1] if m == 1 or c > 0.9 else [1 / 3, 2 / 3]
            ck.equal(t[[0, 2]], w, 'bounds of %d repeats' % r, 1e-9, 1e-9, confidence=c, samples=m, possible=p)
    ck.outcome((metric, r))
    ck.trace('repeats/' + metric, case)


def run_large(case, ck):
    """many elements and the usual numbers of samples and repeats: the interval agrees with that of an own bootstrap with
    many more repeats, whatever the random numbers are used for (at least 5 standard errors are tolerated)"""
    metric, n, keep = case['metric'], case['n'], case['keep']
    shape = (n, keep) if keep else (n,)
    rs = np.random.RandomState(n)
    scale = np.array([1.0, 5.0, 0.2])[:keep] if keep else np.array(1.0)
    err = rs.standard_normal(shape) * scale
    o = rs.standard_normal(shape) * 2 * scale
    R = 20000
    for m in (40, 300, 700):
        seeded(n)
        with env.settings(repeats=1000, confidence=0.95):
            kw = dict(avg_axis=[0] if keep else None, boot_samples=m)
            f, pop, step = o + err, None, 0.0
            if metric == 'error':
                t = np.asarray(vf.build('determ', {'f': f, 'o': o}, **kw).error())
                pop = err
            elif metric == 'corr':
                t = np.asarray(vf.build('determ', {'f': f, 'o': o}, **kw).corr())
            elif metric == 'ss':
                f = np.stack([o + err - np.sqrt(2) * scale, o + err + np.sqrt(2) * scale], axis=-1)
                got = vf.build('ens_last', {'f': f, 'o': o}, **kw).binned_spread_skill(nbins=1)
                t = np.moveaxis(np.asarray(got[1])[..., 0, :] ** 2, -1, 0)
                pop = err ** 2
            else:
                f = np.stack([o * 0 + 1, o + err], axis=-1)
                v = vf.build('ens_last', {'f': f, 'o': o}, **kw)
                ev = (o > 0).astype(float)
                if metric == 'rel':
                    t = np.moveaxis(np.asarray(v.reliability(nbins=1, over=0.0)[1])[..., 0, :], -1, 0)
                    pop, step = ev, 1 / m
                else:
                    t = np.asarray(v.brier_decomp(over=0.0)[2])
                    mean = ev.mean(0) * (1 - ev.mean(0))
        ck.step()
        ck.state(m)
        if metric == 'decomp':
            ck.check(np.all(t[1] < mean + 1e-9) and np.all(t[1] > mean - 3 / m) and np.all(t[0] <= t[1]) and np.all(t[1] <= t[2]), 'uncertainty of many elements', got=t, want=mean)
            continue
        own = np.random.RandomState(m)
        for k in range(keep or 1):
            col = (lambda x: x[:, k]) if keep else (lambda x: x)
            values = np.empty(R)
            for part in range(0, R, 2000):
                idx = own.randint(n, size=(2000, m))
                if metric == 'corr':
                    a, b = col(f)[idx], col(o)[idx]
                    a, b = a - a.mean(1, keepdims=True), b - b.mean(1, keepdims=True)
                    values[part:part + 2000] = (a * b).sum(1) / np.sqrt((a * a).sum(1) * (b * b).sum(1))
                else:
                    values[part:part + 2000] = col(pop)[idx].mean(1)
            u, se = (t[:, k] if keep else t), values.std()
            ck.check(abs(u[1] - values.mean()) < 0.25 * se, 'mean of the resampled statistics of many elements', got=u[1], want=values.mean(), se=se, samples=m)
            for j, q in ((0, 0.025), (2, 0.975)):
                # the standard error of this quantile of 1000 repeats, from the density of the own repeats around it
                lo, hi = np.quantile(values, [q - 0.012, q + 0.012])
                err_q = max(math.sqrt(q * (1 - q) / 1000) * (hi - lo) / 0.024, 0.06 * se)
                want = np.quantile(values, q)
                ck.check(abs(u[j] - want) < 5.5 * err_q + step, 'bound %d of many elements' % j, got=u[j], want=want, samples=m, tolerance=5.5 * err_q + step, se=se)
    ck.outcome((metric, n, keep))
    ck.trace('large/' + metric, case)


def run_count(case, ck, qs=None, positions=None):
    """streams with a single one: the mean is 1/m with one repeat and 1/r with one sample"""
    metric = case['metric']
    top = 41 if ck.quick else 151
    kind, d, call = binary(metric, 2)
    for q in qs or range(1, top + 1, 2):
        for m, r in ((q, 1), (1, q)):
            if metric == 'corr' and r > 1:
                continue                                                     # undefined for single samples
            with env.settings(repeats=r, confidence=1.0):
                v = vf.build(kind, vf.copy(d), boot_samples=m)
                for pos in positions or range(q):
                    words = [word(int(i == pos), 2) for i in range(q)]
                    rng.set_words(words)
                    out = call(v)
                    ck.step()
                    if metric == 'corr':
                        # two points: correlation one if both occur
                        if q > 1:
                            ck.equal(np.asarray(out, dtype=float), [1.0] * 3, 'correlation of resampled points', 1e-9, 1e-9, samples=m)
                        continue
                    u = 1 / q
                    if metric == 'error':
                        trip = np.asarray(out)
                    elif metric == 'ss':
                        trip = np.asarray(out[0])[0] ** 2
                    elif metric == 'rel':
                        trip = np.asarray(out[1])[0]
                    else:
                        # uncertainty p (1 - p): p = 1/m with one repeat, zero for single samples
                        u = (1 / q) * (1 - 1 / q) if r == 1 else 0.0
                        trip = np.asarray(out[2])
                    lo, hi = (u, u) if r == 1 or metric == 'decomp' else (0.0, 1.0)
                    ck.equal(trip, [lo, u, hi], 'sample size or number of repeats', 1e-9, 1e-9, samples=m, repeats=r, position=pos, metric=metric)
                    ck.state(m, r, pos)
            ck.outcome((metric, m, r))
    ck.trace('count/' + metric, case)


def run_wide(case, ck):
    """one sample per repeat, 63 repeats of known values: the quantiles for a grid of confidences"""
    metric = case['metric']
    n, r = 64, 63
    kind, d, call = binary(metric, n)
    if metric == 'rel':
        # nbins=1: the probability of element i is i / 63
        read = lambda out: np.asarray(out[0])[0] * 63
    elif metric == 'ss':
        read = lambda out: np.asarray(out[0])[0] ** 2
    elif metric == 'decomp':
        read = lambda out: np.asarray(out[0])
    else:
        read = lambda out: np.asarray(out)
    value = (lambda i: (i / 63 - i % 2) ** 2) if metric == 'decomp' else float      # reliability of a single pair
    sets = [list(range(63)), list(range(1, 64)), [i * i % 64 for i in range(63)], [0] * 40 + [63] * 23, [5] * 62 + [50]]
    for idx in sets:
        for j in range(41):
            c = j / 40
            with env.settings(repeats=r, confidence=c):
                v = vf.build(kind, vf.copy(d), boot_samples=1)
                rng.set_words([word(i, n) for i in idx])
                got = read(call(v))
            ck.step()
            t = triple([value(i) for i in idx], c)
            ck.equal(got, t, 'quantiles of the resampled means', 1e-7, 1e-7, confidence=c, metric=metric)
            ck.state(tuple(idx), j)
            ck.outcome((metric, j))
    ck.trace('wide/' + metric, case)


def run_const(case, ck):
    kind, metric = case['kind'], case['metric']
    for shape, axis in (((5,), None), ((2, 3), None), ((4, 2), [0]), ((2, 3, 2), [0, 1])):
        one = vf.data(kind, (1,), 3)
        rep = lambda a: np.broadcast_to(np.ravel(a)[0], shape).copy()
        if kind == 'ens_first':
            f = np.broadcast_to(one['f'].reshape(-1, *([1] * len(shape))), (one['f'].shape[0],) + shape).copy()
        elif kind == 'ens_last':
            f = np.broadcast_to(one['f'].reshape(*([1] * len(shape)), -1), shape + (one['f'].shape[-1],)).copy()
        elif isinstance(one['f'], dict):
            f = {k: rep(x) for k, x in one['f'].items()}
        else:
            f = rep(one['f'])
        d = {'f': f, 'o': rep(one['o'])}
        call = vf.metrics_for(kind)[metric]
        want = np.asarray(call(vf.build(kind, vf.copy(d), avg_axis=axis)))
        for m, r in ((1, 1), (3, 5), (50, 20)):
            for c in confidences('thorough'):
                np.random.seed(m + r)
                with env.settings(repeats=r, confidence=c):
                    got = np.asarray(call(vf.build(kind, vf.copy(d), avg_axis=axis, boot_samples=m)))
                ck.step()
                ck.equal(got, np.stack([want] * 3), 'interval of a constant population', 1e-9, 1e-10, metric=metric, samples=m, repeats=r, confidence=c)
                ck.state(shape, m, r, c)
                ck.outcome((kind, metric, shape))
    ck.trace('constant/' + kind, case)
