"""Deterministic data and verifier construction for every forecast type (public constructors only)."""
import functools
import math

import numpy as np
import PyAnEn

KINDS = ['determ', 'ens_last', 'ens_first', 'gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle']
ENS = ('ens_last', 'ens_first')
PROB = ('gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle')
CLOSED = ('gauss', 'tgauss', 'gamma', 'tgamma')


def frac(i, salt):
    """low-discrepancy numbers in (0, 1): distinct for every index, no ties"""
    return (0.5 + (i + 1) * 0.6180339887498949 + salt * 0.7548776662466927) % 1.0


def grid(shape, salt, lo=0.0, hi=1.0):
    n = int(np.prod(shape)) if len(shape) else 1
    x = np.array([frac(i * 7 + 3, salt) for i in range(n)]).reshape(shape)
    return lo + (hi - lo) * x


def data(kind, shape, salt=0, members=4):
    """dict with 'f' (array or dict of arrays) and 'o'"""
    shape = tuple(shape)
    o = grid(shape, salt + 0.1, 0.3, 6.0)
    if kind == 'determ':
        return {'f': grid(shape, salt + 0.37, 0.3, 6.0), 'o': o}
    if kind == 'ens_last':
        return {'f': grid(shape + (members,), salt + 0.53, 0.0, 7.0), 'o': o}
    if kind == 'ens_first':
        return {'f': grid((members,) + shape, salt + 0.59, 0.0, 7.0), 'o': o}
    if kind in ('gauss', 'tgauss'):
        return {'f': {'mu': grid(shape, salt + 0.23, 0.5, 6.0), 'sigma': grid(shape, salt + 0.91, 0.5, 2.5)}, 'o': o}
    if kind in ('gamma', 'tgamma'):
        umu = grid(shape, salt + 0.29, 1.5, 6.0)
        shift = grid(shape, salt + 0.71, -1.2, -0.1)
        return {'f': {'mu': umu + shift, 'unshifted_mu': umu, 'sigma': grid(shape, salt + 0.83, 0.6, 2.5), 'shift': shift}, 'o': o}
    if kind == 'hurdle':
        return {'f': {'pop': grid(shape, salt + 0.43, 0.1, 0.9), 'mu': grid(shape, salt + 0.61, 1.0, 5.0),
                      'sigma': grid(shape, salt + 0.97, 0.6, 2.0)}, 'o': o}
    raise KeyError(kind)


def edge(kind, d, ts=(2.5, 3.5)):
    """the data with extreme observations, exact zeros, and observations and members on or one ulp next to the thresholds"""
    d = copy(d)
    o = d['o'].ravel()
    lo, hi = ts
    special = [0.0, lo, 40.0, hi, np.nextafter(lo, 9), np.nextafter(hi, 0), -1.0, lo]
    pos = [(1 + 5 * i) % o.size for i in range(len(special))]
    for p, x in list(zip(pos, special))[:max(2, o.size // 2)]:
        o[p] = x
    d['o'] = o.reshape(d['o'].shape)
    if kind in ENS:
        f = d['f'].ravel()
        f[::5] = lo
        f[3::7] = hi
        f[2::11] = 0.0
        d['f'] = f.reshape(d['f'].shape)
    elif kind == 'determ':
        f = d['f'].ravel()
        f[::3] = lo
        f[1::4] = hi
        d['f'] = f.reshape(d['f'].shape)
    return d


def scaled(d, s):
    """the same situation in other units"""
    f = d['f']
    f = {k: v * (1 if k == 'pop' else s) for k, v in f.items()} if isinstance(f, dict) else f * s
    return {'f': f, 'o': d['o'] * s}


def copy(d):
    f = d['f']
    return {'f': {k: np.array(v) for k, v in f.items()} if isinstance(f, dict) else np.array(f), 'o': np.array(d['o'])}


def build(kind, d, **kw):
    f, o = d['f'], d['o']
    if kind == 'determ':
        return PyAnEn.VerifyDeterm(f, o, **kw)
    if kind == 'ens_last':
        kw.setdefault('ensemble_axis', -1)
        return PyAnEn.VerifyEnsemble(f, o, **kw)
    if kind == 'ens_first':
        kw.setdefault('ensemble_axis', 0)
        return PyAnEn.VerifyEnsemble(f, o, **kw)
    if kind == 'gauss':
        return PyAnEn.VerifyProbGaussian(f, o, **kw)
    if kind == 'tgauss':
        kw.setdefault('truncated', True)
        return PyAnEn.VerifyProbGaussian(f, o, **kw)
    if kind == 'gamma':
        return PyAnEn.VerifyProbGamma(f, o, **kw)
    if kind == 'tgamma':
        kw.setdefault('truncated', True)
        return PyAnEn.VerifyProbGamma(f, o, **kw)
    if kind == 'hurdle':
        kw.setdefault('integration_range', (0, 30))
        kw.setdefault('n_approx_bins', 12)
        return PyAnEn.VerifyProbGammaHurdle(f, o, **kw)
    raise KeyError(kind)


def take(kind, d, sel):
    """data of the elements selected by sel (an index of the observation array)"""
    f, o = d['f'], d['o']
    if kind == 'ens_first':
        f = f[(slice(None),) + tuple(sel)]
    elif isinstance(f, dict):
        f = {k: v[tuple(sel)] for k, v in f.items()}
    else:
        f = f[tuple(sel)]
    return copy({'f': f, 'o': o[tuple(sel)]})


def flat(kind, d, keep=None):
    """1-D data; keep: boolean mask over the flattened elements"""
    f, o = d['f'], d['o']
    n = o.size
    if kind == 'ens_first':
        f = f.reshape(f.shape[0], n)
        f = f[:, keep] if keep is not None else f
    elif kind == 'ens_last':
        f = f.reshape(n, f.shape[-1])
        f = f[keep] if keep is not None else f
    elif isinstance(f, dict):
        f = {k: (v.ravel()[keep] if keep is not None else v.ravel()) for k, v in f.items()}
    else:
        f = f.ravel()[keep] if keep is not None else f.ravel()
    o = o.ravel()
    return copy({'f': f, 'o': o[keep] if keep is not None else o})


def members_of(kind, d):
    """list of member lists per flattened element"""
    f = d['f']
    if kind == 'ens_first':
        return f.reshape(f.shape[0], -1).T.tolist()
    return f.reshape(-1, f.shape[-1]).tolist()


def metrics_for(kind):
    """axis-aware metrics: name -> callable(verifier, threshold)"""
    out = {
        'error': lambda v: v.error(), 'ab_error': lambda v: v.ab_error(), 'sq_error': lambda v: v.sq_error(),
        'rmse': lambda v: v.rmse(), 'corr': lambda v: v.corr(),
        'iou_determ_over': lambda v: v.iou_determ(over=2.5), 'iou_determ_below': lambda v: v.iou_determ(below=3.5),
    }
    if kind == 'determ':
        return out
    out.update({
        'brier_over': lambda v: v.brier(over=2.5), 'brier_below': lambda v: v.brier(below=3.5),
        'decomp_over': lambda v: v.brier_decomp(over=2.5), 'decomp_below': lambda v: v.brier_decomp(below=3.5),
        'iou_prob_over': lambda v: v.iou_prob(over=(2.5, 0.4), below=(None, None)),
        'iou_prob_below': lambda v: v.iou_prob(over=(None, 0.4), below=(3.0, None)),
        'spread_skill': lambda v: v.binned_spread_skill(nbins=2),
    })
    if kind != 'tgamma':
        out['crps'] = lambda v: v.crps()
    if kind in ENS:
        out['spread'] = lambda v: v.spread()
    return out


def elementwise_for(kind):
    out = {'f_determ': lambda v: v.f_determ()}
    if kind == 'determ':
        return out
    out.update({'cdf_below': lambda v: v.cdf(below=3.5), 'cdf_over': lambda v: v.cdf(over=2.5),
                'sharpness': lambda v: v.sharpness(over=2.5), 'variance': lambda v: v.variance()})
    if kind in ENS:
        out['rank_hist'] = lambda v: v.rank_hist()
    else:
        out['pit'] = lambda v: v.pit()
        out['rank_pit'] = lambda v: v.rank_hist()
    return out


def pooled_for(kind):
    if kind == 'determ':
        return {}
    return {'reliability': lambda v: rel(v.reliability(nbins=5, over=2.5)), 'roc': lambda v: v.roc(over=2.5)}


def rel(r):
    """reliability result as plain arrays"""
    return tuple(np.asarray(x) for x in r)


def all_metrics(kind):
    return {**metrics_for(kind), **elementwise_for(kind), **pooled_for(kind)}


def arr(x):
    """normalizes a result (array, scalar, tuple of these) for storage and comparison"""
    if isinstance(x, (tuple, list)):
        return tuple(arr(y) for y in x)
    return np.array(x)
