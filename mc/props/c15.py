"""C15: a finished or failed numerical integration leaves nothing behind.

Faults are injected at every point: every evaluation of the forecast (the forecast mapping raises at its k-th access),
every call of the parallel runtime and every of its tasks, every file operation (ptrace makes the system call fail)."""
import errno
import os

import numpy as np

from mc import core, env, execs, hist, ptrace, verifs as vf
from mc.props.c14 import meaning

BOUNDS = {'quick': 'mean, variance, CRPS integrations with 3-4 bins, serial and parallel, both memory modes, with and without saving: an exception (ordinary or interrupt) at every forecast access, every runtime call and task, every file operation; unusable scratch directories; runtime started by the user beforehand; all completion orders of 3 tasks',
          'thorough': 'as quick with 6 bins, more settings'}
ASSUMPTIONS = ['removing the scratch file itself does not fail', 'the parallel runtime is the controlled stand-in for ray']


class Injected(RuntimeError):
    pass


class FaultyDict(dict):
    """forecast whose k-th access raises"""
    left = None
    exc = Injected
    count = 0

    def __getitem__(self, k):
        cls = FaultyDict
        cls.count += 1
        if cls.left is not None:
            cls.left -= 1
            if cls.left < 0:
                cls.left = None
                raise cls.exc('injected')
        return dict.__getitem__(self, k)


def cases(tier):
    bins = (3,) if tier == 'quick' else (3, 6)
    for what in ('f_determ', 'variance', 'crps'):
        for less in (False, True):
            for save in (False, True):
                for nb in bins:
                    for disable in ('True', 'False', 'yes', '0'):
                        for exc in ('error', 'interrupt'):
                            if tier == 'quick' and disable in ('yes', '0') and exc == 'interrupt':
                                continue
                            yield {'part': 'eval', 'what': what, 'less': less, 'save': save, 'nb': nb, 'disable': disable, 'exc': exc}
                    for shape in ((1,), (1, 1), (1, 5), (40, 30)):
                        for workers in (1, 2):
                            yield {'part': 'sizes', 'what': what, 'less': less, 'save': save, 'nb': nb, 'shape': list(shape), 'workers': workers}
                    for workers in (2, 3):
                        yield {'part': 'ray', 'what': what, 'less': less, 'save': save, 'nb': nb, 'workers': workers}
                    yield {'part': 'userray', 'what': what, 'less': less, 'save': save, 'nb': nb}
                    if less:
                        yield {'part': 'fs', 'what': what, 'save': save, 'nb': nb}
        for bad in ('missing', 'file'):
            for workers in (1, 2):
                for save in (False, True):
                    yield {'part': 'baddir', 'what': what, 'bad': bad, 'workers': workers, 'save': save, 'nb': bins[0]}


def files(*dirs):
    out = set()
    for d in dirs:
        out |= {d + '//' + n for n in hist.snapshot(d)}
    return out


class World:
    """one verifier with its directories, and what has to be restored"""

    def __init__(self, case, ck, faulty=False):
        self.ck, self.case = ck, case
        self.d = vf.data('hurdle', tuple(case.get('shape', (2, 3))), 12)
        self.op = [case['what'], {}]
        kw = dict(n_approx_bins=case['nb'], integration_range=(0, 20))
        self.kw = kw
        if not faulty:
            before = meaning()
            with env.settings(wdir=env.scratch('first')):
                m = dict(meaning())
                self.want = hist.value(vf.build('hurdle', vf.copy(self.d), **kw), self.op, self.d)
                ck.check(meaning() == m, 'settings differ after the first integration', changed={k: (m.get(k), x) for k, x in meaning().items() if m.get(k) != x})
            assert meaning() == before
        self.wd = env.scratch('wd')
        self.mm = env.scratch('mm')
        self.complete = None

    def verifier(self, faulty=False):
        d = vf.copy(self.d)
        if faulty:
            d['f'] = FaultyDict(d['f'])
        kw = dict(self.kw)
        if self.case.get('save'):
            kw['working_directory'] = self.wd
        return vf.build('hurdle', d, **kw)

    def mark(self):
        self.env = meaning()
        self.dirs = (self.wd, self.mm, os.getcwd())
        if self.complete is None:
            # what a successful run leaves in the working directory
            v = self.verifier()
            self.value_ok(v, 'undisturbed integration')
            self.complete = files(*self.dirs)
            ok = {n for n in self.complete if n.startswith(self.wd) and self.case.get('save')}
            self.ck.check(self.complete == ok, 'a finished integration leaves files behind', files=sorted(self.complete - ok))
            self.clean('a finished integration', self.complete)

    def value_ok(self, v, when):
        self.ck.equal(hist.value(v, self.op, self.d), self.want, '%s computes another value' % when, 1e-10, 1e-13, case=self.case)
        self.ck.step()

    def clean(self, when, allowed):
        m = meaning()
        self.ck.check(m == self.env, 'settings differ after ' + when, changed={k: (self.env.get(k), m.get(k)) for k in m if m.get(k) != self.env.get(k)})
        left = files(*self.dirs) - set(allowed)
        self.ck.check(not left, 'files left behind by ' + when, files=sorted(left))
        self.ck.check(not execs.fake_ray.up, 'the parallel runtime keeps running after ' + when)


def run_case(case, ck):
    execs.fake_ray.fault = None
    if execs.fake_ray.up:
        execs.fake_ray.shutdown()
    execs.MODE = 'full'
    FaultyDict.left = None
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(2)
    os.dup2(devnull, 2)              # progress bars
    try:
        globals()['run_' + case['part']](case, ck)
    finally:
        os.dup2(saved, 2)
        os.close(saved)
        os.close(devnull)
        execs.fake_ray.fault = None
        FaultyDict.left = None
        if execs.fake_ray.up:
            execs.fake_ray.shutdown()


def attempt(fn, allowed):
    try:
        fn()
    except allowed as e:
        return e
    return None


def run_eval(case, ck):
    FaultyDict.exc = Injected if case['exc'] == 'error' else KeyboardInterrupt
    with env.settings(less_memory=case['less'], tqdm_disable=case['disable'], tqdm_leave='no'):
        w = World(case, ck)
        with env.settings(wdir='' if case['save'] else w.mm):
            w.mark()
            v = w.verifier(faulty=True)
            FaultyDict.count = 0
            w.value_ok(v, 'integration')
            n = FaultyDict.count
            for k in range(n):
                v = w.verifier(faulty=True)          # starts from scratch
                FaultyDict.left = k
                e = attempt(lambda: hist.value(v, w.op, w.d), (Injected, KeyboardInterrupt))
                ck.check(e is not None, 'the injected exception is swallowed', access=k)
                w.clean('a failed integration (access %d)' % k, w.complete)
                FaultyDict.left = None
                w.value_ok(v, 'the verifier after a failed integration')
                w.clean('the integration after a failed one', w.complete)
                ck.state(k)
                ck.outcome((case, k))
    ck.trace('evaluation fault/' + case['what'], case)


def run_sizes(case, ck):
    """one location up to many; numbers of points around the number of workers; settings written in every way"""
    for nb in (2, 3, 7):
        for disable, workers in (('True', str(case['workers'])), ('False', str(case['workers'])), ('no', ' %d' % case['workers'])):
            with env.settings(less_memory='yes' if case['less'] else 'off', tqdm_disable=disable, tqdm_leave='no', workers=workers):
                w = World(dict(case, nb=nb), ck)
                with env.settings(wdir='' if case['save'] else w.mm):
                    w.mark()
                    v = w.verifier()
                    for i in range(2):
                        w.value_ok(v, 'integration %d' % i)
                        w.clean('integration %d' % i, w.complete)
                    ck.state(nb, disable)
                    ck.outcome((case, nb))
    ck.trace('sizes/' + case['what'], case)


def run_ray(case, ck):
    r = execs.fake_ray
    with env.settings(less_memory=case['less'], workers=case['workers'], tqdm_disable='False' if case['workers'] == 3 else 'True', tqdm_leave='no'):
        w = World(case, ck)
        with env.settings(wdir='' if case['save'] else w.mm):
            w.mark()
            r.log = []
            w.value_ok(w.verifier(), 'integration')
            events = [e for e in r.log if e[0] != 'shutdown']
            n = len(events)
            ck.check(n > 0, 'the integration does not use the parallel runtime')
            # faults at every event, and all completion orders with a failing task
            for exc in (Injected, KeyboardInterrupt):
                for k in range(n):
                    v = w.verifier()
                    left = [k]

                    def fault(name, i):
                        if name != 'shutdown':
                            left[0] -= 1
                            if left[0] == -1:
                                raise exc('injected')
                    if exc is KeyboardInterrupt and events[k][0] == 'task':
                        continue
                    r.fault = fault
                    e = attempt(lambda: hist.value(v, w.op, w.d), (Injected, KeyboardInterrupt))
                    r.fault = None
                    ck.check(e is not None, 'the injected exception is swallowed', event=events[k])
                    w.clean('a failed integration (%s)' % (events[k],), w.complete)
                    w.value_ok(v, 'the verifier after a failed integration')
                    w.clean('the integration after a failed one', w.complete)
                    ck.state(exc.__name__, k)
                    ck.outcome((case, k))
            for bad in range(case['nb']):
                def run(ch):
                    v = w.verifier()

                    def fault(name, i):
                        if name == 'task' and i == bad:
                            raise Injected('injected')
                    r.fault = fault
                    with execs.schedule(ch):
                        e = attempt(lambda: hist.value(v, w.op, w.d), (Injected,))
                    r.fault = None
                    ck.check(e is not None, 'the failure of a task is swallowed', task=bad)
                    w.clean('an integration with a failing task', w.complete)
                    with execs.schedule(execs.Chooser()):
                        w.value_ok(v, 'the verifier after a failed integration')
                for trace, _ in execs.enumerate_choices(run):
                    ck.state('task', bad, tuple(trace))
    ck.trace('runtime fault/' + case['what'], case)


def run_userray(case, ck):
    """the user has started the runtime: integrations may refuse to run, but must not shut it down"""
    r = execs.fake_ray
    with env.settings(less_memory=case['less'], workers=2):
        w = World(case, ck)
        with env.settings(wdir='' if case['save'] else w.mm):
            w.mark()
            v = w.verifier()
            r.init()
            e = attempt(lambda: hist.value(v, w.op, w.d), (RuntimeError,))
            if e is not None:
                ck.check(r.up, 'the runtime started by the user was shut down by a failing integration', error=str(e))
            r.up and r.shutdown()
            w.clean('an integration while the runtime was already running', w.complete)
            w.value_ok(v, 'the verifier afterwards')
            ck.state('userray')
    ck.trace('runtime of the user/' + case['what'], case)


def run_baddir(case, ck):
    with env.settings(workers=case['workers'], less_memory=True):
        w = World(case, ck)
        with env.settings(wdir='' if case['save'] else w.mm):
            w.mark()
        bad = os.path.join(env.scratch('bad'), 'x')
        if case['bad'] == 'file':
            open(bad, 'w').close()
        with env.settings(wdir=bad):
            w.env = meaning()
            v = w.verifier()
            e = attempt(lambda: hist.value(v, w.op, w.d), (Exception,))
            w.clean('an integration with an unusable scratch directory', w.complete)
            ck.check(os.path.isfile(bad) if case['bad'] == 'file' else (e is None or not os.path.exists(bad)), 'the unusable scratch directory was changed')
        with env.settings(wdir=w.mm):
            w.env = meaning()
            w.value_ok(v, 'the verifier after a failed integration')
            w.clean('the integration after a failed one', w.complete)
        ck.state('baddir')
        ck.outcome(case)
    ck.trace('unusable directory/' + case['what'], case)


def run_fs(case, ck):
    """every file operation in the scratch directory fails once"""
    why = ptrace.available()
    if why:
        raise RuntimeError('cannot trace processes: ' + why)
    with env.settings(less_memory=True):
        w = World(case, ck)
        with env.settings(wdir='' if case['save'] else w.mm):
            w.mark()
            target = w.wd if case['save'] else w.mm

            def program(report):
                v = w.verifier()
                failed = None
                os.access(target, os.F_OK)               # marks the start
                try:
                    hist.value(v, w.op, w.d)
                except Exception as e:
                    failed = '%s: %s' % (type(e).__name__, e)
                report(('failed', failed))
                try:
                    w.clean('an integration with a failing file operation', w.complete)
                    w.value_ok(v, 'the verifier after a failed integration')
                    w.clean('the integration after a failed one', w.complete)
                    report(('verdict', None))
                except core.Violation as e:
                    report(('verdict', str(e)))

            def run(k, err):
                t = ptrace.Traced(program, [target])
                started, n, at, seen = False, 0, None, []
                while True:
                    op = t.next()
                    if op is None:
                        break
                    if op.name in ('access', 'faccessat', 'faccessat2') and op.paths[0] == target:
                        started = True
                        continue
                    if not started or op.name in ('unlink', 'unlinkat', 'stat', 'newfstatat', 'lstat', 'statx', 'access', 'read', 'getdents64', 'fcntl'):
                        continue
                    if any(m[0] == 'failed' for m in t.messages):
                        continue
                    t._drain()
                    if any(m[0] == 'failed' for m in t.messages):
                        continue
                    seen.append(repr(op))
                    if n == k:
                        at = repr(op)
                        t.fail_call(err)
                    n += 1
                return t.messages, n, at
            msgs, n, _ = run(-1, 0)
            ck.check(n > 0, 'no file operations seen')
            for err in (errno.ENOSPC, errno.EACCES):
                for k in range(n):
                    msgs, _, at = run(k, err)
                    ck.step()
                    v = [m for m in msgs if m[0] == 'verdict']
                    ck.check(v, 'the process ends abnormally when a file operation fails', operation=at, messages=msgs)
                    ck.check(v[0][1] is None, '%s' % v[0][1], operation=at, error=os.strerror(err))
                    ck.state('fs', k, err)
                    ck.outcome((case, at and at.split('(')[0], err))
    ck.trace('file fault/' + case['what'], case)
