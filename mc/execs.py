"""Controlled parallel runtimes.

* ControlledPool stands in for concurrent.futures.ProcessPoolExecutor: tasks run in really forked worker
  processes (copy of the parent's memory, random state and environment at the first submission, arguments and
  results pickled), but which worker takes which task and the order of completion are chosen by the explorer.
* FakeRay stands in for the ray functions the package uses, with the completion order chosen by the explorer.

Both are installed before the package is imported. With execs.real() the real runtimes are used (conformance).
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import contextlib
import functools
import itertools
import os
import pickle
import struct
import traceback

_REAL_POOL = cfp.ProcessPoolExecutor
_REAL_WAIT, _REAL_AS_COMPLETED = cf.wait, cf.as_completed
_use_real = False


# ----------------------------------------------------------------- choices and their exhaustive enumeration
class Chooser:
    """Replays a prefix of choices, then takes 0; records the arity of every choice point."""

    def __init__(self, prefix=()):
        self.prefix, self.trace, self.arity = list(prefix), [], []

    def choose(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError('replay divergence: choice %d of %d' % (c, n))
        self.trace.append(c)
        self.arity.append(n)
        return c


_chooser = Chooser()


def enumerate_choices(run, limit=None):
    """Depth-first enumeration of all choice sequences of run(chooser). Yields (trace, result)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        if ch.trace[:len(prefix)] != prefix:
            raise RuntimeError('replay divergence')
        yield list(ch.trace), res
        n += 1
        for i in range(len(ch.trace) - 1, len(prefix) - 1, -1):
            for alt in range(ch.arity[i] - 1, 0, -1):
                stack.append(ch.trace[:i] + [alt])
        if limit and n >= limit:
            raise RuntimeError('more than %d schedules' % limit)


@contextlib.contextmanager
def schedule(chooser):
    global _chooser
    old, _chooser = _chooser, chooser
    try:
        yield chooser
    finally:
        _chooser = old


@contextlib.contextmanager
def real():
    global _use_real
    old, _use_real = _use_real, True
    try:
        yield
    finally:
        _use_real = old


@functools.lru_cache(None)
def pool_schedules(n, workers):
    """All (worker of each task, completion order) a FIFO pool can produce, workers up to renaming."""
    out = set()

    def rec(nxt, running, assign, done):
        if len(done) == n:
            out.add((tuple(assign), tuple(done)))
            return
        for w in list(running):
            r = dict(running)
            t = r.pop(w)
            rec(nxt, r, assign, done + [t])
        if nxt < n:
            used = set(assign)
            fresh = [w for w in range(workers) if w not in used][:1]
            for w in sorted(used) + fresh:
                if w not in running:
                    r = dict(running)
                    r[w] = nxt
                    rec(nxt + 1, r, assign + [w], done)
    rec(0, {}, [], [])
    return sorted(out)


@functools.lru_cache(None)
def pool_assignments(n, workers):
    """Assignments only, tasks completing in order (used where n is too large for all completion orders)"""
    out = []

    def rec(assign):
        if len(assign) == n:
            out.append((tuple(assign), tuple(range(n))))
            return
        m = max(assign) + 1 if assign else 0
        for w in range(min(m + 1, workers)):
            rec(assign + [w])
    rec([])
    return out


FULL_ORDERS_UP_TO = 4
ASSIGNMENTS_UP_TO = 6
MODE = 'full'     # full | assign | fixed


def _plan(n, workers):
    workers = min(workers, n)
    if MODE == 'full' and n <= FULL_ORDERS_UP_TO:
        s = pool_schedules(n, workers)
    elif MODE in ('full', 'assign') and n <= ASSIGNMENTS_UP_TO:
        s = pool_assignments(n, workers)
    else:
        # fixed menu for many tasks: round robin in order, round robin reversed across workers, one worker only
        rr = tuple(i % workers for i in range(n))
        blocks = tuple(i * workers // n for i in range(n))
        rev = tuple(sorted(range(n), key=lambda i: (-(rr[i]), i)))
        revb = tuple(sorted(range(n), key=lambda i: (-(blocks[i]), i)))
        s = [(rr, tuple(range(n))), (rr, rev), (blocks, revb), ((0,) * n, tuple(range(n)))]
        s = sorted(set(s), key=s.index)
    return s[_chooser.choose(len(s))]


# ----------------------------------------------------------------- forked workers
def _send(fd, obj):
    data = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
    data = struct.pack('!Q', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    def exactly(n):
        buf = b''
        while len(buf) < n:
            b = os.read(fd, n - len(buf))
            if not b:
                raise EOFError('worker died')
            buf += b
        return buf
    (n,) = struct.unpack('!Q', exactly(8))
    return pickle.loads(exactly(n))


class ForkedWorker:
    def __init__(self, initializer=None, initargs=(), environ=None, close_fds=()):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                import signal
                signal.alarm(0)
                os.close(b)
                os.close(c)
                for fd in close_fds:
                    os.close(fd)
                if environ is not None:
                    os.environ.clear()
                    os.environ.update(environ)
                if initializer is not None:
                    initializer(*initargs)
                while True:
                    try:
                        task = _recv(a)
                    except EOFError:
                        break
                    try:
                        fn, args, kwargs = pickle.loads(task)
                        res = (True, fn(*args, **kwargs))
                        data = pickle.dumps(res)
                    except BaseException as e:
                        tb = traceback.format_exc()
                        try:
                            pickle.loads(pickle.dumps(e))
                            data = pickle.dumps((False, e))
                        except Exception:
                            data = pickle.dumps((False, RuntimeError('%s\n%s' % (e, tb))))
                    _send(d, data)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    def run(self, payload):
        _send(self.w, payload)
        return pickle.loads(_recv(self.r))

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


class _Workers:
    """Lazily forked set of workers, all forked at the same moment."""

    def __init__(self, n, initializer=None, initargs=(), environ=None):
        self.list = []
        for _ in range(n):
            fds = [f for w in self.list for f in (w.w, w.r)]
            self.list.append(ForkedWorker(initializer, initargs, environ, fds))

    def close(self):
        for w in self.list:
            w.close()


def _process_chunk(fn, chunk):
    return [fn(*args) for args in chunk]


class _Future(cf.Future):
    _pool = None

    def result(self, timeout=None):
        if not self.done():
            self._pool._flush()
        return super().result(timeout)

    def exception(self, timeout=None):
        if not self.done():
            self._pool._flush()
        return super().exception(timeout)


class ControlledPool(cf.Executor):
    def __new__(cls, *a, **k):
        if _use_real:
            return _REAL_POOL(*a, **k)
        return super().__new__(cls)

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        n = max_workers or os.cpu_count() or 1
        if n <= 0:
            raise ValueError('max_workers must be greater than 0')
        self._n = n
        self._init = (initializer, initargs)
        self._workers = None
        self._pending = []
        self._completed = []

    def _start(self):
        if self._workers is None:
            # at most 3 real workers: more are only needed for more tasks than the explorer enumerates
            self._workers = _Workers(min(self._n, 3), *self._init)

    def submit(self, fn, /, *args, **kwargs):
        self._start()
        fut = _Future()
        fut._pool = self
        self._pending.append((fut, pickle.dumps((fn, args, kwargs))))
        return fut

    def _flush(self):
        pending, self._pending = self._pending, []
        if not pending:
            return
        assign, order = _plan(len(pending), min(self._n, 3))
        for i in order:
            fut, payload = pending[i]
            if not fut.set_running_or_notify_cancel():
                continue
            ok, val = self._workers.list[assign[i]].run(payload)
            self._completed.append(fut)
            (fut.set_result if ok else fut.set_exception)(val)

    def map(self, fn, *iterables, timeout=None, chunksize=1, buffersize=None):
        if chunksize < 1:
            raise ValueError('chunksize must be >= 1.')
        it = zip(*iterables)
        futs = []
        while True:
            chunk = tuple(itertools.islice(it, chunksize))
            if not chunk:
                break
            futs.append(self.submit(functools.partial(_process_chunk, fn), chunk))

        def gen():
            for f in futs:
                for r in f.result():
                    yield r
        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for fut, _ in self._pending:
                fut.cancel()
        try:
            self._flush()
        finally:
            if self._workers is not None:
                self._workers.close()
                self._workers = None


def _pools_of(fs):
    return {f._pool for f in fs if isinstance(f, _Future)}


def _wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(fs)
    for p in _pools_of(fs):
        p._flush()
    return _REAL_WAIT(fs, timeout, return_when)


def _as_completed(fs, timeout=None):
    fs = list(fs)
    pools = _pools_of(fs)
    if not pools:
        yield from _REAL_AS_COMPLETED(fs, timeout)
        return
    for p in pools:
        p._flush()
        for f in list(p._completed):
            if f in fs:
                yield f


# ----------------------------------------------------------------- ray
class _Ref:
    _count = itertools.count()

    def __init__(self):
        self.id = next(_Ref._count)
        self.done = False
        self.value = None
        self.error = None


class FakeRayTaskError(RuntimeError):
    pass


class FakeRay:
    FULL_UP_TO = 5

    def __init__(self):
        self.up = False
        self.pending = []
        self.workers = None
        self.finished = []
        self.fault = None       # callable(event, index) -> raises
        self.tasks = 0
        self.log = []

    def _event(self, name, i=0):
        self.log.append((name, i))
        if self.fault:
            self.fault(name, i)

    def init(self, *args, num_cpus=None, ignore_reinit_error=False, **kw):
        self._event('init')
        if self.up:
            if ignore_reinit_error:
                return
            raise RuntimeError('Maybe you called ray.init twice by accident?')
        self.up = True
        self.num_cpus = num_cpus or 2
        self.environ = dict(os.environ)
        if kw.get('runtime_env', {}) and 'env_vars' in kw['runtime_env']:
            self.environ.update(kw['runtime_env']['env_vars'])
        self.workers = None
        self.pending, self.finished, self.tasks = [], [], 0

    def is_initialized(self):
        return self.up

    def shutdown(self, *a, **k):
        self._event('shutdown')
        if self.workers:
            self.workers.close()
        self.workers = None
        self.up = False
        self.pending = []

    def put(self, obj):
        self._event('put')
        self._need()
        r = _Ref()
        r.done, r.value = True, self.pickle.loads(self.pickle.dumps(obj))
        return r

    def _need(self):
        if not self.up:
            self.init()

    def remote(self, *a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return _RemoteFunction(self, a[0])
        return lambda fn: _RemoteFunction(self, fn)

    def _submit(self, fn, args, kwargs):
        self._need()
        r = _Ref()
        r.index = self.tasks
        self.tasks += 1
        args = [x.value if isinstance(x, _Ref) else x for x in args]
        kwargs = {k: (v.value if isinstance(v, _Ref) else v) for k, v in kwargs.items()}
        self.pending.append((r, self.pickle.dumps((fn, args, kwargs))))
        return r

    def _complete_all(self):
        """All submitted tasks complete, in an order chosen by the explorer."""
        if not self.pending:
            return
        pending, self.pending = self.pending, []
        n = len(pending)
        if n <= self.FULL_UP_TO and MODE == 'full':
            order = list(range(n))
            perm = []
            for k in range(n, 1, -1):
                perm.append(order.pop(_chooser.choose(k)))
            perm += order
        else:
            menu = [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0],
                    list(range(0, n, 2)) + list(range(1, n, 2))]
            perm = menu[_chooser.choose(len(menu))]
        if self.workers is None:
            self.workers = _Workers(max(1, min(self.num_cpus, 2)), environ=self.environ)
        for k, i in enumerate(perm):
            r, payload = pending[i]
            try:
                self._event('task', r.index)
            except Exception as e:
                ok, val = False, e
            else:
                ok, val = self.workers.list[k % len(self.workers.list)].run(payload)
            r.done = True
            if ok:
                r.value = val
            else:
                r.error = val
            self.finished.append(r)

    def wait(self, refs, *, num_returns=1, timeout=None, fetch_local=True):
        if not isinstance(refs, list) or not refs:
            raise (TypeError if not isinstance(refs, list) else ValueError)('wait() expected a list of ray.ObjectRef')
        self._event('wait')
        self._complete_all()
        order = sorted(refs, key=lambda r: self.finished.index(r) if r in self.finished else -1)
        ready = order[:num_returns]
        return [r for r in refs if r in ready], [r for r in refs if r not in ready]

    def get(self, refs, *, timeout=None):
        self._event('get')
        if isinstance(refs, (list, tuple)):
            return [self.get(r) for r in refs]
        if not refs.done:
            self._complete_all()
        if refs.error is not None:
            raise refs.error
        return refs.value


class _RemoteFunction:
    def __init__(self, ray, fn):
        self.ray, self.fn = ray, fn

    def remote(self, *args, **kwargs):
        return self.ray._submit(self.fn, args, kwargs)

    def options(self, **k):
        return self


fake_ray = FakeRay()
_ray_names = ['init', 'is_initialized', 'shutdown', 'put', 'get', 'wait', 'remote']
_real_ray = {}


def install():
    cf.ProcessPoolExecutor = ControlledPool
    cfp.ProcessPoolExecutor = ControlledPool
    cf.wait, cf.as_completed = _wait, _as_completed
    import ray
    from ray import cloudpickle
    FakeRay.pickle = cloudpickle
    for name in _ray_names:
        _real_ray[name] = getattr(ray, name)

        def disp(*a, _n=name, **k):
            return _real_ray[_n](*a, **k) if _use_real else getattr(fake_ray, _n)(*a, **k)
        setattr(ray, name, disp)
