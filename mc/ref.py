"""Reference model: textbook definitions on plain Python lists (scipy only for special functions)."""
import itertools
import bisect
import math

import numpy as np
from scipy import integrate, special

NAN = float('nan')


def mean(x):
    x = list(x)
    return math.fsum(x) / len(x) if x else NAN


# ---- distributions ---------------------------------------------------------------------------
def norm_cdf(x, mu, sigma):
    return 0.5 * math.erfc(-(x - mu) / sigma / math.sqrt(2))


def truncnorm_cdf(x, mu, sigma):
    """Gaussian truncated at zero"""
    if x <= 0:
        return 0.0
    # ratio of survival functions in logarithms, accurate far in the upper tail
    return -math.expm1(special.log_ndtr((mu - x) / sigma) - special.log_ndtr(mu / sigma))


def gamma_cdf(x, umu, sigma, shift):
    shape, scale = (umu / sigma) ** 2, sigma ** 2 / umu
    z = (x - shift) / scale
    return float(special.gammainc(shape, z)) if z > 0 else 0.0


def truncgamma_cdf(x, umu, sigma, shift):
    """shifted gamma truncated at zero"""
    if x <= max(0, shift):
        return 0.0
    if shift >= 0:
        return gamma_cdf(x, umu, sigma, shift)
    shape, scale = (umu / sigma) ** 2, sigma ** 2 / umu
    return 1 - float(special.gammaincc(shape, (x - shift) / scale) / special.gammaincc(shape, -shift / scale))


def hurdle_cdf(x, pop, mu, sigma):
    if x < 0:
        return 0.0
    if x == 0:
        return 1 - pop
    return 1 - pop + pop * gamma_cdf(x, mu, sigma, 0)


def ens_cdf(x, members):
    return sum(m <= x for m in members) / len(members)


# ---- scores ----------------------------------------------------------------------------------
def ens_crps(members, o):
    """exact integral of the step functions"""
    pts = sorted(set(list(members) + [o]))
    total = 0.0
    for a, b in zip(pts, pts[1:]):
        F = sum(m <= a for m in members) / len(members)
        total += (F - (1.0 if o <= a else 0.0)) ** 2 * (b - a)
    return total


def crps_integral(cdf, o, lo, hi, pts=()):
    """integral of (F - 1{x>=o})^2 over [lo, hi] by adaptive quadrature, split at the kinks"""
    cuts = sorted({lo, hi, *[p for p in list(pts) + [o] if lo < p < hi]})
    total = 0.0
    for a, b in zip(cuts, cuts[1:]):
        step = 1.0 if o <= a else 0.0
        v, _ = integrate.quad(lambda x: (cdf(x) - step) ** 2, a, b, epsabs=1e-12, epsrel=1e-11, limit=400)
        total += v
    return total


def event(o, over=None, below=None):
    return o > over if over is not None else o < below


def brier(probs, events):
    return mean((p - e) ** 2 for p, e in zip(probs, events))


def brier_decomp(probs, events, nbins=20):
    """reliability, resolution, uncertainty over equal-width bins [i/n, (i+1)/n)"""
    n = len(probs)
    edges = [float(e) for e in np.linspace(0, 1, nbins + 1)[1:-1]]
    groups = {}
    for p, e in zip(probs, events):
        groups.setdefault(sum(p >= x for x in edges), []).append((p, float(e)))
    obar = mean(float(e) for e in events)
    rel = sum(len(g) * (mean(p for p, _ in g) - mean(e for _, e in g)) ** 2 for g in groups.values()) / n
    res = sum(len(g) * (mean(e for _, e in g) - obar) ** 2 for g in groups.values()) / n
    return rel, res, obar * (1 - obar)


def pearson(x, y):
    mx, my = mean(x), mean(y)
    sxx = math.fsum((a - mx) ** 2 for a in x)
    syy = math.fsum((b - my) ** 2 for b in y)
    sxy = math.fsum((a - mx) * (b - my) for a, b in zip(x, y))
    return sxy / math.sqrt(sxx * syy) if sxx > 0 and syy > 0 else NAN


def reliability(probs, events, nbins):
    """lists over non-empty bins: mean probability, frequency, count; plus counts of non-events and events"""
    groups = {}
    for p, e in zip(probs, events):
        i = min(int(sum(p >= k / nbins for k in range(1, nbins))), nbins - 1)
        groups.setdefault(i, []).append((p, float(e)))
    ks = sorted(groups)
    pred = [mean(p for p, _ in groups[k]) for k in ks]
    freq = [mean(e for _, e in groups[k]) for k in ks]
    cnt = [len(groups[k]) for k in ks]
    n1 = sum(bool(e) for e in events)
    return pred, freq, cnt, [c for c in (len(probs) - n1, n1) if c]


def auc(probs, events):
    pos = [p for p, e in zip(probs, events) if e]
    neg = [p for p, e in zip(probs, events) if not e]
    if len(probs) > 200:              # the same count with the help of sorted values
        neg.sort()
        return sum(0.5 * (bisect.bisect_left(neg, a) + bisect.bisect_right(neg, a)) for a in pos) / (len(pos) * len(neg))
    return sum(1.0 if a > b else 0.5 if a == b else 0.0 for a in pos for b in neg) / (len(pos) * len(neg))


def iou(a, b):
    u = sum(x or y for x, y in zip(a, b))
    return sum(x and y for x, y in zip(a, b)) / u if u else NAN


def spread_skill(variances, sq_errors, nbins):
    pairs = sorted(zip(variances, sq_errors), key=lambda t: t[0])
    n = len(pairs)
    sizes = [n // nbins + (1 if i < n % nbins else 0) for i in range(nbins)]
    out_s, out_r, k = [], [], 0
    for s in sizes:
        g = pairs[k:k + s]
        k += s
        out_s.append(math.sqrt(mean(v for v, _ in g)))
        out_r.append(math.sqrt(mean(e for _, e in g)))
    return out_s, out_r


def pvariance(x):
    m = mean(x)
    return mean((a - m) ** 2 for a in x)


def ranks(members, o):
    """set of possible ranks, all equally likely"""
    lo = 1 + sum(m < o for m in members)
    return list(range(lo, lo + sum(m == o for m in members) + 1))


def trapezoid_hurdle(pop, mu, sigma, o, lo, hi, nbins):
    """mean, variance and CRPS by the documented rule on nbins equally spaced points of [max(lo,0), hi]"""
    lo = max(lo, 0)
    x = [lo + (hi - lo) * i / (nbins - 1) for i in range(nbins)]
    F = [hurdle_cdf(a, pop, mu, sigma) for a in x]
    m = math.fsum(0.5 * (x[i + 1] + x[i]) * (F[i + 1] - F[i]) for i in range(nbins - 1))
    m2 = math.fsum(0.5 * (x[i + 1] ** 2 + x[i] ** 2) * (F[i + 1] - F[i]) for i in range(nbins - 1))
    b = [(F[i] - (1.0 if o < x[i] else 0.0)) ** 2 for i in range(nbins)]
    c = math.fsum(0.5 * (b[i + 1] + b[i]) * (x[i + 1] - x[i]) for i in range(nbins - 1))
    return m, m2 - m ** 2, c


# ---- arrays ----------------------------------------------------------------------------------
def norm_axes(axes, nd):
    if axes is None:
        return tuple(range(nd))
    if isinstance(axes, int):
        axes = (axes,)
    return tuple(sorted(a % nd for a in axes))


def by_slice(func, arrays, axes):
    """Applies func to the pooled values (lists) of each kept index; kept dimensions in original order"""
    nd = arrays[0].ndim
    axes = norm_axes(axes, nd)
    kept = [i for i in range(nd) if i not in axes]
    shape = [arrays[0].shape[i] for i in kept]
    out = np.empty(shape, dtype=object)
    for idx in itertools.product(*[range(s) for s in shape]):
        sel = [slice(None)] * nd
        for k, i in zip(kept, idx):
            sel[k] = i
        out[idx] = func(*[a[tuple(sel)].ravel().tolist() for a in arrays])
    return out


def scalar_by_slice(func, arrays, axes):
    return np.array(by_slice(func, arrays, axes).tolist(), dtype=float)
