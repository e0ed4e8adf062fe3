"""C12: ROC and IOU."""
import itertools

import numpy as np

from mc import cross, ref, verifs as vf
import PyAnEn

BOUNDS = {'quick': 'ROC: all multisets of 2..5 (probability k/3, outcome) pairs with both outcomes, parametric forecasts; '
                   'rare events with probabilities down to 1e-100; IOU: all forecast/observation vectors of length 1..3 over 4 values x thresholds on and between values, pooled and along axes',
          'thorough': 'ROC with 6 pairs and probabilities k/4; IOU with length 4'}


def cases(tier):
    yield from cross.cases(vf.KINDS, tier)
    yield from cross.unit_cases(vf.KINDS, tier)
    for m in (3,) if tier == 'quick' else (3, 4):
        for n in (2, 3, 4, 5) if tier == 'quick' else (2, 3, 4, 5, 6):
            for side in ('over', 'below'):
                yield {'part': 'roc', 'm': m, 'n': n, 'side': side}
    for kind in vf.PROB + vf.ENS:
        for shape in [(8,), (3, 4), (2, 3, 3), (4000,), (30, 20)] + ([(20000,)] if tier != 'quick' else []):
            for t in (1.0, 2.0, 3.0, 4.0):
                if len(shape) and int(np.prod(shape)) > 100 and t > 3:
                    continue
                yield {'part': 'rocprob', 'kind': kind, 'shape': list(shape), 't': t}
                yield {'part': 'rocprob', 'kind': kind, 'shape': list(shape), 't': t, 'edge': True}
    for gap in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-10):
        for base in (0.01, 0.5, 0.95):
            yield {'part': 'rocclose', 'gap': gap, 'base': base}
    for base in (1e-3, 1e-9, 1e-16, 1e-18, 1e-30, 1e-100, 0.3, 0.6):
        for gap in (1.0, 1e-3, 1e-6, 1e-10):
            if base < 0.1 or gap < 1:
                yield {'part': 'smallprob', 'gap': gap, 'base': base}
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for t in (-1.0, 0.0, 0.5, 1.0, 2.0, 3.0):
            for side in ('over', 'below'):
                yield {'part': 'iou', 'n': n, 't': t, 'side': side}
                for pt in (0.0, 0.25, 0.5, 1.0):
                    for ps in ('over', 'below'):
                        yield {'part': 'iouprob', 'n': n, 't': t, 'side': side, 'pt': pt, 'pside': ps}
    for kind in vf.KINDS:
        for shape in [(6,), (3, 4), (2, 3, 2), (600,), (3, 300)]:
            yield {'part': 'ioukinds', 'kind': kind, 'shape': list(shape)}
            yield {'part': 'ioukinds', 'kind': kind, 'shape': list(shape), 'edge': True}


def check_roc(ck, got, probs, events, what):
    ck.check(len(got) == 3, what + ': expected fpr, tpr, auc')
    fpr, tpr, a = (np.asarray(x, dtype=float) for x in got)
    ck.equal(a, ref.auc(probs, events), what + ' area', 1e-9, 1e-12, probs=probs, events=events)
    ck.check(fpr.shape == tpr.shape and len(fpr) >= 2, what + ' curve shape')
    ck.check(fpr[0] == 0 and tpr[0] == 0 and fpr[-1] == 1 and tpr[-1] == 1, what + ' end points', fpr=fpr, tpr=tpr)
    ck.check(np.all(np.diff(fpr) >= 0) and np.all(np.diff(tpr) >= 0), what + ' decreases', fpr=fpr, tpr=tpr)
    pos, neg = sum(events), len(events) - sum(events)
    pts = {(0.0, 0.0)}
    fp = tp = 0
    ordered = sorted(zip(probs, events), reverse=True)
    for i, (p, e) in enumerate(ordered):
        tp, fp = tp + bool(e), fp + (not e)
        if i + 1 == len(ordered) or ordered[i + 1][0] != p:
            pts.add((round(fp / neg, 9), round(tp / pos, 9)))
    for x, y in zip(fpr, tpr):
        ck.check((round(float(x), 9), round(float(y), 9)) in pts, what + ': (%g, %g) is not a point of the curve' % (x, y), probs=probs, events=events)
    ck.outcome((fpr.tobytes(), tpr.tobytes()))


def run_case(case, ck):
    if case.get('part') in ('cross', 'binary units'):
        kind = case['kind']
        ops = ([] if kind == 'determ' else [['roc', {'over': 2.5}], ['roc', {'below': 3.5}], ['iou_prob', {'over': [2.5, 0.4], 'below': [None, None]}], ['iou_prob', {'over': [None, 0.4], 'below': [3.0, None]}]]) + [['iou_determ', {'over': 2.5}], ['iou_determ', {'below': 3.5}]]
        if case['part'] == 'cross':
            cross.run(case, ck, ops)
        else:
            cross.run_units(case, ck, [o for o in ops if not any(isinstance(x, list) and x[0] == 'arr' for x in o[1].values())])
        return
    part = case['part']
    if part == 'roc':
        m, n, side = case['m'], case['n'], case['side']
        rows = [(k, e) for k in range(m + 1) for e in (0, 1)]
        for p in itertools.combinations_with_replacement(rows, n):
            ev = [bool(e) if side == 'over' else not e for _, e in p]
            if all(ev) or not any(ev):
                continue
            probs = [k / m if side == 'over' else 1 - k / m for k, _ in p]
            f = np.array([[2.0] * k + [0.0] * (m - k) for k, _ in p])
            o = np.array([2.0 if e else 0.0 for _, e in p])
            if n == 4:
                f, o = f.reshape(2, 2, m), o.reshape(2, 2)
            v = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1)
            check_roc(ck, v.roc(**{side: 1.0}), probs, ev, 'roc')
            ck.state(p)
            ck.step()
            ck.trace('roc/' + side, {'pairs': p})
    elif part == 'rocprob':
        kind, shape, t = case['kind'], tuple(case['shape']), case['t']
        d = vf.data(kind, shape)
        if case.get('edge'):
            d = vf.edge(kind, d, (t, t + 0.5))
        for side in ('over', 'below'):
            probs = np.asarray(vf.build(kind, vf.copy(d)).cdf(**{side: t})).ravel().tolist()
            ev = (d['o'] > t if side == 'over' else d['o'] < t).ravel().tolist()
            if all(ev) or not any(ev):
                continue
            check_roc(ck, vf.build(kind, vf.copy(d)).roc(**{side: t}), probs, ev, kind + ' roc')
            check_roc(ck, vf.build(kind, vf.copy(d)).roc(**{side: np.full(shape, t)}), probs, ev, kind + ' roc, threshold array')
            ck.step(2)
            ck.trace('roc/' + kind, case)
    elif part == 'rocclose':
        # nearly equal probabilities: all assignments of outcomes to five forecasts whose probabilities differ by gap
        from scipy.special import ndtri
        probs = [case['base'] + case['gap'] * k for k in (0, 2, 1, 4, 3)]
        mu = ndtri(np.array(probs))               # P(above 0) for sigma 1
        for ev in itertools.product([True, False], repeat=5):
            if all(ev) or not any(ev):
                continue
            o = np.where(ev, 1.0, -1.0)
            mk = lambda: PyAnEn.VerifyProbGaussian({'mu': mu.copy(), 'sigma': np.ones(5)}, o.copy())
            check_roc(ck, mk().roc(over=0.0), probs, list(ev), 'roc of close probabilities')
            check_roc(ck, mk().roc(below=0.0), [1 - p for p in probs], [not e for e in ev], 'roc of close probabilities')
            ck.step(2)
            ck.state(ev)
        ck.trace('rocclose', case)
    elif part == 'smallprob':
        # rare events: all assignments of outcomes, probability thresholds between any two of the probabilities
        from scipy.special import ndtri
        probs = [case['base'] * (1 + case['gap'] * k) for k in (0, 2, 1, 4, 3)]
        mu = -ndtri(np.array(probs))              # P(below 0) for sigma 1
        ts = [case['base'] * (1 + case['gap'] * (k + 0.5)) for k in range(-1, 5)]
        for ev in itertools.product([True, False], repeat=5):
            o = np.where(ev, -1.0, 1.0)
            mk = lambda: PyAnEn.VerifyProbGaussian({'mu': mu.copy(), 'sigma': np.ones(5)}, o.copy())
            if any(ev) and not all(ev):
                check_roc(ck, mk().roc(below=0.0), probs, list(ev), 'roc of small probabilities')
            for th in ts:
                fb = [p > th for p in probs]
                ck.equal(mk().iou_prob(over=(None, th), below=(0.0, None)), ref.iou(fb, list(ev)), 'iou_prob of small probabilities, over', probs=probs, threshold=th)
                ck.equal(mk().iou_prob(over=(None, None), below=(0.0, th)), ref.iou([not x for x in fb], list(ev)), 'iou_prob of small probabilities, below', probs=probs, threshold=th)
                ck.step(2)
            ck.state(ev)
        ck.trace('smallprob', case)
    elif part == 'iou':
        n, t, side = case['n'], case['t'], case['side']
        T = np.array(list(itertools.product([0.0, 0.5, 1.0, 2.0], repeat=2 * n))).T
        ck.bulk_states('enumerated_inputs', T.shape[1])
        F, O = T[:n], T[n:]
        b = (lambda x: x > t) if side == 'over' else (lambda x: x < t)
        want = np.array([ref.iou(b(F[:, j]).tolist(), b(O[:, j]).tolist()) for j in range(T.shape[1])])
        got = PyAnEn.VerifyDeterm(F.copy(), O.copy(), avg_axis=0).iou_determ(**{side: t})
        ck.equal(got, want, 'iou_determ %s %g' % (side, t))
        got = PyAnEn.VerifyDeterm(F.copy(), O.copy()).iou_determ(**{side: t})
        ck.equal(got, ref.iou(b(F).ravel().tolist(), b(O).ravel().tolist()), 'pooled iou_determ')
        # the same through an ensemble with this mean
        E = np.stack([F - 0.5, F + 0.5], -1)
        got = PyAnEn.VerifyEnsemble(E, O.copy(), ensemble_axis=-1, avg_axis=0).iou_determ(**{side: t})
        ck.equal(got, want, 'ensemble iou_determ')
        ck.step(3)
        for w in want:
            ck.outcome(str(w))
        ck.trace('iou_determ', case)
    elif part == 'iouprob':
        n, t, side, pt, ps = case['n'], case['t'], case['side'], case['pt'], case['pside']
        if n > 2:
            n = 2
            if case['n'] > 3:
                return
        m = 4 if n == 1 else 2
        T = np.array(list(itertools.product([0.0, 1.0, 2.0], repeat=(m + 1) * n))).T
        if case['n'] == 3:
            T = T[:, ::-1]
        ck.bulk_states('enumerated_inputs', T.shape[1])
        f, O = T[:m * n].reshape(m, n, -1), T[m * n:]
        p = (f <= t).sum(axis=0) / m
        if side == 'over':
            p = 1 - p
        fb = p > pt if ps == 'over' else p < pt
        ob = O > t if side == 'over' else O < t
        over = [t if side == 'over' else None, pt if ps == 'over' else None]
        below = [t if side == 'below' else None, pt if ps == 'below' else None]
        want = np.array([ref.iou(fb[:, j].tolist(), ob[:, j].tolist()) for j in range(T.shape[1])])
        for form in (tuple, list):
            got = PyAnEn.VerifyEnsemble(f.copy(), O.copy(), ensemble_axis=0, avg_axis=0).iou_prob(over=form(over), below=form(below))
            ck.equal(got, want, 'iou_prob over=%s below=%s' % (over, below))
            ck.step()
        got = PyAnEn.VerifyEnsemble(f.copy(), O.copy(), ensemble_axis=0).iou_prob(over=tuple(over), below=tuple(below))
        ck.equal(got, ref.iou(fb.ravel().tolist(), ob.ravel().tolist()), 'pooled iou_prob')
        for w in want:
            ck.outcome(str(w))
        ck.trace('iou_prob', case)
    else:
        kind, shape = case['kind'], tuple(case['shape'])
        d = vf.data(kind, shape)
        if case.get('edge'):
            d = vf.edge(kind, d, (2.0, 3.0))
        det = np.asarray(vf.build(kind, vf.copy(d)).f_determ())
        nd = len(shape)
        for ax in [None] + [tuple(s) for r in range(1, nd + 1) for s in itertools.combinations(range(nd), r)]:
            for t in (2.0, 3.0):
                for side in ('over', 'below'):
                    b = (lambda x: x > t) if side == 'over' else (lambda x: x < t)
                    want = ref.scalar_by_slice(lambda a, c: ref.iou(a, c), [b(det), b(d['o'])], ax)
                    ck.equal(vf.build(kind, vf.copy(d), avg_axis=ax).iou_determ(**{side: t}), want, kind + ' iou_determ')
                    ck.state(str(ax), t, side)
                    ck.step()
                    if kind != 'determ':
                        pr = np.asarray(vf.build(kind, vf.copy(d)).cdf(**{side: t}))
                        for pt in (0.3, 0.6):
                            for ps in ('over', 'below'):
                                fb = pr > pt if ps == 'over' else pr < pt
                                over = (t if side == 'over' else None, pt if ps == 'over' else None)
                                below = (t if side == 'below' else None, pt if ps == 'below' else None)
                                want = ref.scalar_by_slice(lambda a, c: ref.iou(a, c), [fb, b(d['o'])], ax)
                                ck.equal(vf.build(kind, vf.copy(d), avg_axis=ax).iou_prob(over=over, below=below), want, kind + ' iou_prob')
                                ck.step()
        ck.trace('iou/' + kind, case)
