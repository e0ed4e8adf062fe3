"""C02: a run killed at any instant can be resumed.

The run is a real process stopped (ptrace) at every mutating file operation below its working directory. It is killed
before each one, and in the middle of each write with every chosen number of bytes stored; a second process may be
killed likewise while it resumes. Afterwards a verifier on the directory must compute everything correctly, and a
verifier on *different* data (poisoned) shows which results are loaded rather than recomputed."""
import json
import os

import numpy as np

from mc import core, env, hist, ptrace, verifs as vf

BOUNDS = {'quick': 'every mutating file operation of runs of 5-12 metric calls (8 forecast types; small and multi-write arrays; memory-saving integration; starting from scratch over an old directory; nested new directory): killed before each operation and after 0, 1, half, all but one bytes of each write',
          'thorough': 'as quick with more prefix lengths of torn writes, longer runs, and a second kill at every operation of the resumed run'}
ASSUMPTIONS = ['a kill loses nothing the process had already written (process death, not power loss)', 'x86_64 Linux, processes may trace their own children']


def runs(kind, size):
    ops = [['f_determ', {}], ['sq_error', {}]]
    if kind != 'determ':
        ops += [['variance', {}], ['brier', {'over': 2.5}], ['cdf', {'below': 3.5}], ['roc', {'over': 2.5}], ['reliability', {'nbins': 3, 'over': 2.5}],
                ['binned_spread_skill', {'nbins': 2}], ['rank_hist', {}], ['sharpness', {'below': 3.5}]]
        if kind != 'tgamma':
            ops.insert(2, ['crps', {}])
        if kind in vf.ENS:
            ops.append(['spread', {}])
        else:
            ops.append(['pit', {}])
        ops.append(['brier_decomp', {'over': 2.5, 'save_name': 'bd'}])
        ops.append(['iou_prob', {'over': [2.512345678901, 0.412345678901], 'below': [None, None], 'save_name': 'intersection over union of events'}])
    else:
        ops += [['error', {}], ['ab_error', {}], ['iou_determ', {'over': 2.5}], ['corr', {'save_name': 'cc'}]]
    return ops


SHAPES = {'small': (3, 4), 'large': (30, 60)}


def cases(tier):
    for kind in vf.KINDS:
        for size in ('small', 'large'):
            if size == 'large' and tier == 'quick' and kind in ('ens_first', 'gamma', 'tgamma', 'hurdle', 'determ'):
                continue
            yield {'kind': kind, 'size': size, 'scenario': 'plain', 'cfg': {}}
        yield {'kind': kind, 'size': 'small', 'scenario': 'nested', 'cfg': {'avg_axis': 0}}
        yield {'kind': kind, 'size': 'small', 'scenario': 'scratch', 'cfg': {}}
        yield {'kind': kind, 'size': 'small', 'scenario': 'plain', 'cfg': {'boot_samples': 4}}
    yield {'kind': 'hurdle', 'size': 'small', 'scenario': 'less_memory', 'cfg': {}}
    for kind in ('gauss', 'gamma'):
        yield {'kind': kind, 'size': 'small', 'scenario': 'sampling', 'cfg': {'n_sample_members': 3}}
    for kind in ('gauss', 'ens_last') if tier == 'quick' else vf.KINDS:
        n = 12 if tier == 'quick' else 40
        for i in range(n):
            yield {'kind': kind, 'size': 'small', 'scenario': 'twice', 'cfg': {}, 'part': [i, n]}


_ref = {}


def refs(kind, size, cfg, ops, d):
    key = (kind, size, json.dumps(cfg, sort_keys=True), json.dumps(ops))
    if key not in _ref:
        out = []
        for op in ops:
            np.random.seed(4711)
            out.append(hist.value(vf.build(kind, vf.copy(d), **cfg), op, d))
        _ref[key] = out
    return _ref[key]


def poison(kind, d):
    """other data of the same shape: nothing computed from it coincides with the original"""
    p = vf.copy(d)
    p['o'] = p['o'] * 0.9 + 1.7
    if isinstance(p['f'], dict):
        for k in p['f']:
            p['f'][k] = p['f'][k] * 0.8 + (0.01 if k == 'pop' else -0.01 if k == 'shift' else 0.3)
        if 'shift' in p['f']:
            p['f']['mu'] = p['f']['unshifted_mu'] + p['f']['shift']
    else:
        p['f'] = p['f'] ** 1.1 + 0.21
    return p


def run_case(case, ck):
    kind, size, sc = case['kind'], case['size'], case['scenario']
    cfg = dict(case['cfg'], **({'n_approx_bins': 4} if kind == 'hurdle' else {}))
    thorough = not ck.quick
    d = vf.data(kind, SHAPES[size], 5)
    ops = [op for op in runs(kind, size) if op[0] != 'reliability' or 'avg_axis' not in cfg]    # may be ragged along axes
    if sc == 'sampling':
        ops = [['prob_to_ens', {}], ['rank_hist', {}], ['spread', {}]]
    if sc == 'twice' and ck.quick:
        ops = ops[1:4] + ops[-1:]
    base = env.scratch('c02')
    wd = os.path.join(base, 'a', 'b', 'run') if sc == 'nested' else os.path.join(base, 'run')
    why = ptrace.available()
    if why:
        raise RuntimeError('cannot trace processes: ' + why)
    with env.settings(repeats=4, less_memory=(sc == 'less_memory')):
        want = refs(kind, size, cfg, ops, d)
        old = {}
        if sc == 'scratch':
            v = vf.build(kind, vf.copy(d), working_directory=wd, **cfg)
            for op in ops:
                np.random.seed(4711)
                hist.value(v, op, d)
            old = hist.snapshot(base)

        def first(scratch):
            def fn(report):
                v = vf.build(kind, vf.copy(d), working_directory=wd, start_from_scratch=scratch, **cfg)
                for i, op in enumerate(ops):
                    np.random.seed(4711)
                    got = hist.value(v, op, d)
                    report(('done', i, core.diff(got, want[i], 1e-10, 1e-13)))
            return fn

        def reset(snap):
            import shutil
            shutil.rmtree(base)
            os.makedirs(base)
            hist.restore(base, snap)

        def points(fn, snap):
            """operations of the undisturbed run and the kill points derived from them"""
            reset(snap)
            t = ptrace.Traced(fn, [base])
            seen = []
            while True:
                op = t.next(mutating=True)
                if op is None:
                    break
                seen.append(op)
            check_messages(t)
            ck.check(('end', None) in t.messages, 'the undisturbed run fails', messages=t.messages)
            out = []
            for i, op in enumerate(seen):
                out.append((i, None))
                if op.name in ptrace.WRITES:
                    n = op.args[2]
                    cuts = {1, n // 2, n - 1} | ({2, 3, 10, n // 3, n // 4, n - 2, n - 8, n * 3 // 4} if thorough else set())
                    out += [(i, c) for c in sorted(cuts) if 0 < c < n]
            out.append((len(seen), None))
            return seen, out

        def check_messages(t):
            for m in t.messages:
                if m[0] == 'error':
                    ck.fail('the run fails: %s\n%s' % (m[1], m[2]))
                if m[0] == 'done':
                    ck.check(m[2] is None, 'value of the run itself: %s' % m[2], op=ops[m[1]])

        def killed(fn, snap, point):
            """runs fn, kills it at the point; returns the calls that had returned"""
            reset(snap)
            t = ptrace.Traced(fn, [base])
            k, cut = point
            n = 0
            at = 'end'
            while True:
                op = t.next(mutating=True)
                ck.step()
                if op is None:
                    break
                if n == k:
                    at = repr(op) + ('' if cut is None else ' after %d bytes' % cut)
                    if cut is not None:
                        t.shorten(min(cut, op.args[2]))
                        t.finish_call()
                    t.kill()
                    break
                n += 1
            check_messages(t)
            return [m[1] for m in t.messages if m[0] == 'done'], at

        def examine(done, at, label):
            snap = hist.snapshot(base)
            ck.state(label, hist.digest(snap), tuple(done))
            # results that were complete are reused: a verifier on other data returns the old values
            p = poison(kind, d)
            for i in done:
                reset(snap)
                np.random.seed(4711)
                got = hist.value(vf.build(kind, vf.copy(p), working_directory=wd, start_from_scratch=False, **cfg), ops[i], p)
                ck.equal(got, want[i], 'a result completed before the kill is not reused', 1e-10, 1e-13, op=ops[i], killed=at)
                ck.step()
            # everything is computed correctly by a resumed run
            reset(snap)
            v = vf.build(kind, vf.copy(d), working_directory=wd, start_from_scratch=False, **cfg)
            for op, w in zip(ops, want):
                np.random.seed(4711)
                ck.equal(hist.value(v, op, d), w, 'a resumed run computes another value', 1e-10, 1e-13, op=op, killed=at)
                ck.step()
            for op, w in zip(ops, want):         # and again, now everything is saved
                np.random.seed(4711)
                v = vf.build(kind, vf.copy(d), working_directory=wd, start_from_scratch=False, **cfg)
                ck.equal(hist.value(v, op, d), w, 'a run after the resumed one computes another value', 1e-10, 1e-13, op=op, killed=at)
            ck.outcome((label, at))

        scratch = sc == 'scratch'
        seen, pts = points(first(scratch), old)
        ck.check(len(seen) >= len(ops), 'the run saves fewer results than it computes', operations=[repr(o) for o in seen], calls=len(ops))
        if sc != 'twice':
            for pt in pts:
                done, at = killed(first(scratch), old, pt)
                examine(done, at, ('kill', pt))
                ck.trace('%s/%s' % (sc, kind), dict(case, kill=at))
            return
        i, n = case['part']
        for pt in pts[i::n]:
            done, at = killed(first(False), {}, pt)
            snap = hist.snapshot(base)
            _, pts2 = points(first(False), snap)
            for pt2 in pts2:
                done2, at2 = killed(first(False), snap, pt2)
                examine(sorted(set(done) | set(done2)), [at, at2], ('kill2', pt, pt2))
            ck.trace('twice/' + kind, dict(case, kill=at))
