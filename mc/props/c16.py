"""C16: two processes working in one directory at the same time.

Two real processes stop at every file operation below the shared directory; the explorer decides which one continues.
All schedules with a bounded number of preemptions (all schedules for the shortest programs) are executed."""
import functools
import itertools
import json
import os
import shutil

import numpy as np

from mc import core, env, execs, hist, ptrace, verifs as vf

BOUNDS = {'quick': 'two processes, 1-3 metric calls each, every interleaving of their file operations with at most 2 preemptions (unbounded for single-file programs with at most 2000 schedules)',
          'thorough': 'at most 3 preemptions, more programs and forecast types, unbounded for programs with up to two files'}
ASSUMPTIONS = ['processes interact only through the file system', 'operations between two file operations of a process are not interleaved further (they touch no shared state)',
               'x86_64 Linux, processes may trace their own children']

C = {'below': 3.5}


def cases(tier):
    def case(kind, p, q, bound, **kw):
        return dict({'kind': kind, 'p': p, 'q': q, 'bound': bound, 'exists': False, 'less_memory': False, 'save': True, 'size': 'small'}, **kw)
    b = 2 if tier == 'quick' else 3
    one = 99
    er, cd, br, cr = ['error', {}], ['cdf', C], ['brier', C], ['crps', {}]
    yield case('determ', [er], [er], one, exists=True)
    yield case('determ', [er], [['sq_error', {}]], one, exists=True)
    yield case('determ', [er], [er], 99 if tier == 'thorough' else 3)
    yield case('gauss', [], [], one)
    yield case('gauss', [br], [br], b, exists=True)
    yield case('determ', [er], [er], one, exists=True, filled=True)
    yield case('gauss', [br], [cd], b, exists=True, filled=True)
    yield case('ens_last', [cr, cd], [cd], b, exists=True, filled=True)
    yield case('gauss', [br], [cd], b)
    yield case('gauss', [cr, cd], [cd, cr], b, exists=True)
    yield case('ens_last', [['rank_hist', {}]], [['rank_hist', {}]], one, exists=True)
    yield case('ens_first', [['binned_spread_skill', {'nbins': 2}]], [['sq_error', {}]], b, exists=True)
    yield case('ens_last', [cr], [cr], 3, exists=True, size='large')
    yield case('gamma', [['roc', C]], [['reliability', dict(C, nbins=3)]], b, exists=True)
    yield case('tgauss', [['pit', {}], cr], [['pit', {}]], b)
    yield case('hurdle', [cr], [cr], 2 if tier == 'thorough' else 1, save=True, exists=True)
    yield case('hurdle', [cr], [cr], b, save=False, less_memory=True, exists=True)
    yield case('hurdle', [['f_determ', {}]], [['variance', {}]], b, save=False, less_memory=True, exists=True)
    yield case('hurdle', [['f_determ', {}]], [cr], 1 if tier == 'quick' else 2, save=True, less_memory=True, exists=True)
    if tier == 'thorough':
        for kind in vf.KINDS:
            e, g = ['sq_error', {}], (['variance', {}] if kind != 'determ' else ['ab_error', {}])
            yield case(kind, [e, g], [g, e], 2, exists=True)
            yield case(kind, [e, g], [e, g], 2)


SHAPES = {'small': (2, 3), 'large': (30, 50)}


BUDGET = {'quick': 2000, 'thorough': 20000}


@functools.lru_cache(None)
def schedules(a, b, left, cur=None):
    """number of schedules of two processes with a and b remaining steps and at most left preemptions"""
    if not a or not b:
        return 1
    if cur is None:
        return schedules(a, b, left, 0) + schedules(b, a, left, 0)
    n = schedules(a - 1, b, left, 0)          # the running process is the first one
    if left:
        n += schedules(b - 1, a, left - 1, 0)
    return n


def run_case(case, ck):
    kind = case['kind']
    d = vf.data(kind, SHAPES[case['size']], 8)
    kw = {'n_approx_bins': 3} if kind == 'hurdle' else {}
    base = env.scratch('c16')
    wd = os.path.join(base, 'shared')
    why = ptrace.available()
    if why:
        raise RuntimeError('cannot trace processes: ' + why)
    save = dict(working_directory=wd, start_from_scratch=False) if case['save'] else {}
    want = {}
    for op in case['p'] + case['q']:
        want[json.dumps(op)] = hist.value(vf.build(kind, vf.copy(d), **kw), op, d)

    def program(ops):
        def fn(report):
            v = vf.build(kind, vf.copy(d), **kw, **save)
            for op in ops:
                report(('done', op, core.diff(hist.value(v, op, d), want[json.dumps(op)], 1e-10, 1e-13)))
        return fn

    def reset():
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(wd if case['exists'] else base)
        if case.get('filled') and full:
            hist.restore(wd, full)

    with env.settings(less_memory=case['less_memory'], wdir=wd if case['less_memory'] and not case['save'] else ''):
        # the file names left by the two programs run one after the other
        full = {}
        reset()
        for ops in (case['p'], case['q']):
            program(ops)(lambda m: None)
        names = sorted(hist.snapshot(wd))
        full = hist.snapshot(wd)          # 'filled': both processes find every result

        def steps(ops):
            reset()
            t, n = ptrace.Traced(program(ops), [base]), 0
            try:
                while t.next():
                    n += 1
            finally:
                t.kill()
            return n
        na, nb = steps(case['p']), steps(case['q'])
        bounds = [k for k in range(1, min(case['bound'], na + nb) + 1) if k <= 2 and case['bound'] < 99 or schedules(na, nb, k) <= BUDGET[ck.tier]]
        bounds = sorted({1, max(bounds)}) if bounds else [1]

        def execute(ch, bound):
            reset()
            procs = [ptrace.Traced(program(case['p']), [base]), ptrace.Traced(program(case['q']), [base])]
            try:
                for t in procs:
                    t.next()
                cur, left, log = None, bound, []
                while True:
                    alive = [i for i in (0, 1) if procs[i].alive]
                    if not alive:
                        break
                    if cur is None:
                        cur = alive[ch.choose(len(alive))]
                    elif not procs[cur].alive:
                        cur = alive[0]
                    elif len(alive) == 2 and left > 0:
                        if ch.choose(2):
                            cur, left = 1 - cur, left - 1
                    log.append('%d:%r' % (cur, procs[cur].op))
                    procs[cur].next()
                    ck.step()
                return [t.messages for t in procs], log
            finally:
                for t in procs:
                    t.kill()

        # fewest preemptions first: most interleaving errors need only one
        for bound, trace, (msgs, log) in ((k, t, r) for k in bounds for t, r in execs.enumerate_choices(lambda ch: execute(ch, k))):
            for who, m in enumerate(msgs):
                for x in m:
                    if x[0] == 'error':
                        ck.fail('process %d fails: %s' % (who, x[1]), schedule=log, trace=x[2])
                    if x[0] == 'done':
                        ck.check(x[2] is None, 'process %d obtains another value: %s' % (who, x[2]), op=x[1], schedule=log)
                ck.check(('end', None) in m, 'process %d does not finish' % who, schedule=log)
            if case['save']:
                snap = hist.snapshot(wd)
                ck.check(sorted(snap) == names, 'the directory holds other files than after running one process after the other', got=sorted(snap), want=names, schedule=log)
                # only complete results: a verifier on other data loads the values of the original data
                from mc.props.c02 import poison
                pd = poison(kind, d)
                for op in case['p'] + case['q']:
                    got = hist.value(vf.build(kind, vf.copy(pd), working_directory=wd, start_from_scratch=False, **kw), op, pd)
                    ck.equal(got, want[json.dumps(op)], 'incomplete result in the directory', 1e-10, 1e-13, op=op, schedule=log)
            else:
                ck.check(not hist.snapshot(base).keys() - {'shared/'}, 'files left behind', files=sorted(hist.snapshot(base)), schedule=log)
            if bound < bounds[-1]:
                continue
            ck.state(tuple(trace))
            ck.outcome(tuple(l[0] for l in log))
            ck.trace('%s %s|%s' % (kind, [o[0] for o in case['p']], [o[0] for o in case['q']]), dict(case, schedule=''.join(l[0] for l in log)))
