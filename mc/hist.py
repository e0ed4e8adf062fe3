"""Histories of metric calls and reconfigurations: alphabets shared by C01, C02, C14, C16, C17."""
import copy
import hashlib
import os

import numpy as np

from mc import verifs as vf

ARRAYS = {}


def threshold(t, d):
    """JSON description -> threshold: number, or ['arr', k] = an array of the shape of the observations"""
    if isinstance(t, (list, tuple)) and len(t) == 2 and t[0] == 'arr':
        o = d['o']
        base = vf.grid(o.shape, 0.377, 1.0, 5.0)
        k = t[1]
        if k == 1:
            base = base + 1e-11                       # prints the same with limited precision
        elif k == 2:
            base = base.copy()
            base[tuple(s // 2 for s in o.shape)] += 0.75    # differs in the middle only
        elif k == 3:
            base = base[..., ::-1].copy()
        elif k == 4:
            base = np.round(base)
        elif k == 5:
            base = base - 3                           # both signs
        return base
    if isinstance(t, (list, tuple)) and len(t) == 3 and t[0] == 'lit':
        return np.array(t[1], dtype=t[2]).reshape(d['o'].shape)
    if isinstance(t, (list, tuple)) and len(t) == 3 and t[0] == 'num':
        return np.dtype(t[2]).type(t[1])
    return t


def call(v, op, d):
    """op = [method, kwargs]"""
    name, kw = op[0], dict(op[1])
    for k in ('over', 'below'):
        if k in kw and name != 'iou_prob':
            kw[k] = threshold(kw[k], d)
        elif k in kw and kw[k] is not None:
            kw[k] = tuple(kw[k])
    return getattr(v, name)(**kw)


def value(v, op, d):
    r = call(v, op, d)
    if op[0] == 'reliability':
        return vf.rel(r)
    return vf.arr(r)


def ops_for(kind, full=True, arrays=False, saved_names=True):
    """metric calls with their arguments"""
    out = [[m, {}] for m in ('f_determ', 'error', 'ab_error', 'sq_error', 'rmse', 'corr')]
    out += [['iou_determ', {'over': 2.5}], ['iou_determ', {'below': 2.5}], ['iou_determ', {'over': 3.5}]]
    if saved_names:
        out += [['corr', {'save_name': 'cc'}], ['error', {'save_name': 'my err'}]]
    if kind == 'determ':
        return out
    out += [['variance', {}]]
    if kind != 'tgamma':
        out += [['crps', {}]]
    if kind in vf.ENS:
        out += [['spread', {}], ['rank_hist', {}]]
    else:
        out += [['pit', {}], ['rank_hist', {}]]
    ts = [2.5, 3.5]
    for t in ts:
        for side in ('over', 'below'):
            out += [['cdf', {side: t}], ['brier', {side: t}]]
    out += [['cdf', {'below': 2.5000000001}], ['cdf', {'below': 3}], ['brier', {'over': 2.5000000001}]]
    out += [['cdf', {'below': -0.5}], ['cdf', {'below': 0.5}], ['brier', {'below': -0.5}], ['brier', {'below': 0.5}]]
    out += [['sharpness', {'over': 2.5}], ['sharpness', {'below': 3.5}], ['roc', {'over': 2.5}], ['roc', {'over': 3.5}], ['roc', {'below': 2.5}]]
    out += [['brier_decomp', {'over': 2.5}], ['brier_decomp', {'below': 3.5}]]
    if saved_names:
        out += [['brier_decomp', {'over': 2.5, 'save_name': 'bd'}], ['brier_decomp', {'over': 3.5, 'save_name': 'bd'}],
                ['brier_decomp', {'below': 2.5, 'save_name': 'bd'}]]
    out += [['iou_prob', {'over': [2.5, 0.4], 'below': [None, None]}], ['iou_prob', {'over': [2.5, 0.6], 'below': [None, None]}],
            ['iou_prob', {'over': [None, 0.4], 'below': [2.5, None]}], ['iou_prob', {'over': [3.5, None], 'below': [None, 0.6]}]]
    out += [['reliability', {'nbins': 3, 'over': 2.5}], ['reliability', {'nbins': 4, 'over': 2.5}], ['reliability', {'nbins': 3, 'over': 3.5}],
            ['reliability', {'nbins': 3, 'below': 2.5}]]
    out += [['binned_spread_skill', {'nbins': 2}], ['binned_spread_skill', {'nbins': 1}]]
    if arrays:
        for k in range(5):
            out += [['cdf', {'below': ['arr', k]}], ['cdf', {'over': ['arr', k]}], ['brier', {'over': ['arr', k]}], ['brier', {'below': ['arr', k]}]]
        for k in (0, 2, 4):
            out += [['roc', {'over': ['arr', k]}], ['brier_decomp', {'below': ['arr', k], 'save_name': 'bd'}],
                    ['iou_determ', {'over': ['arr', k]}], ['reliability', {'nbins': 3, 'over': ['arr', k]}]]
    return out


def snapshot(d):
    out = {}
    if os.path.isdir(d):
        for root, dirs, files in os.walk(d):
            for f in files:
                p = os.path.join(root, f)
                with open(p, 'rb') as fh:
                    out[os.path.relpath(p, d)] = fh.read()
            for x in dirs:
                out[os.path.relpath(os.path.join(root, x), d) + '/'] = b''
    return out


def restore(d, snap):
    os.makedirs(d, exist_ok=True)
    cur = snapshot(d)
    for n in cur:
        if n not in snap and not n.endswith('/'):
            os.unlink(os.path.join(d, n))
    for n, b in snap.items():
        if n.endswith('/'):
            os.makedirs(os.path.join(d, n), exist_ok=True)
        elif cur.get(n) != b:
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fh:
                fh.write(b)


def digest(snap):
    h = hashlib.blake2b(digest_size=10)
    for n in sorted(snap):
        h.update(n.encode() + b'\0' + hashlib.blake2b(snap[n], digest_size=8).digest())
    return h.hexdigest()


def clone(v):
    return copy.deepcopy(v)
