"""File operations of real processes under control of the explorer (ptrace of own forked children).

Traced(fn) forks a child that runs fn() of the code under test. The child stops at the entry of every system call that
concerns a path below one of the watched directories; the explorer then lets it continue, lets a write store only a part
of its bytes, or kills it. With two children this is a scheduler at the granularity of file operations."""
import ctypes
import os
import pickle
import signal
import struct
import sys
import traceback

_libc = ctypes.CDLL(None, use_errno=True)
_libc.ptrace.restype = ctypes.c_long
_libc.ptrace.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_void_p, ctypes.c_void_p]
TRACEME, PEEKUSER, POKEUSER, KILL, SYSCALL, SETOPTIONS, GETREGS = 0, 3, 6, 8, 24, 0x4200, 12
O_SYSGOOD, O_EXITKILL = 1, 0x100000
WALL = 0x40000000


def _pt(req, pid, addr=0, data=0):
    r = _libc.ptrace(req, pid, ctypes.c_void_p(addr), ctypes.c_void_p(data))
    if r == -1:
        e = ctypes.get_errno()
        if e:
            raise OSError(e, 'ptrace %d: %s' % (req, os.strerror(e)))
    return r


# x86_64 system call numbers: name -> (number, how its paths are given)
P, AT, FD = 'path', 'at', 'fd'
CALLS = {
    2: ('open', [(P, 0)]), 257: ('openat', [(AT, 0)]), 437: ('openat2', [(AT, 0)]), 85: ('creat', [(P, 0)]),
    0: ('read', [(FD, 0)]), 17: ('pread', [(FD, 0)]), 19: ('readv', [(FD, 0)]),
    1: ('write', [(FD, 0)]), 18: ('pwrite', [(FD, 0)]), 20: ('writev', [(FD, 0)]), 296: ('pwritev', [(FD, 0)]),
    4: ('stat', [(P, 0)]), 6: ('lstat', [(P, 0)]), 262: ('newfstatat', [(AT, 0)]), 332: ('statx', [(AT, 0)]),
    21: ('access', [(P, 0)]), 269: ('faccessat', [(AT, 0)]), 439: ('faccessat2', [(AT, 0)]),
    78: ('getdents', [(FD, 0)]), 217: ('getdents64', [(FD, 0)]),
    82: ('rename', [(P, 0), (P, 1)]), 264: ('renameat', [(AT, 0), (AT, 2)]), 316: ('renameat2', [(AT, 0), (AT, 2)]),
    87: ('unlink', [(P, 0)]), 263: ('unlinkat', [(AT, 0)]), 84: ('rmdir', [(P, 0)]),
    83: ('mkdir', [(P, 0)]), 258: ('mkdirat', [(AT, 0)]),
    76: ('truncate', [(P, 0)]), 77: ('ftruncate', [(FD, 0)]), 285: ('fallocate', [(FD, 0)]),
    86: ('link', [(P, 0), (P, 1)]), 265: ('linkat', [(AT, 0), (AT, 2)]),
    88: ('symlink', [(P, 1)]), 266: ('symlinkat', [(AT, 1)]),
    40: ('sendfile', [(FD, 0)]), 326: ('copy_file_range', [(FD, 2)]), 73: ('flock', [(FD, 0)]), 72: ('fcntl', [(FD, 0)]),
    90: ('chmod', [(P, 0)]), 268: ('fchmodat', [(AT, 0)]),
}
MUTATING = {'creat', 'write', 'pwrite', 'writev', 'pwritev', 'rename', 'renameat', 'renameat2', 'unlink', 'unlinkat', 'rmdir', 'mkdir', 'mkdirat',
            'truncate', 'ftruncate', 'fallocate', 'link', 'linkat', 'symlink', 'symlinkat', 'sendfile', 'copy_file_range'}
WRITES = {'write', 'pwrite'}
SCHED_SKIP = {'fcntl', 'chmod', 'fchmodat'}
AT_FDCWD = -100


class Op:
    def __init__(self, name, paths, args):
        self.name, self.paths, self.args = name, paths, args

    def mutates(self):
        if self.name in MUTATING:
            return True
        if self.name in ('open', 'openat'):
            flags = self.args[1 if self.name == 'open' else 2]
            return bool(flags & (os.O_CREAT | os.O_TRUNC))
        return self.name == 'openat2'

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(os.path.basename(p) for p in self.paths))


class Traced:
    def __init__(self, fn, watch):
        """fn(report) runs in the child; report(obj) sends a message to the explorer"""
        self.watch = [os.path.realpath(w) for w in watch]
        self.messages = []
        self.op = None
        self.alive = True
        self.status = None
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.close(r)
                _pt(TRACEME, 0)
                os.kill(os.getpid(), signal.SIGSTOP)

                def report(obj):
                    b = pickle.dumps(obj)
                    os.write(w, struct.pack('!I', len(b)) + b)
                try:
                    fn(report)
                    report(('end', None))
                    code = 0
                except BaseException as e:
                    report(('error', '%s: %s' % (type(e).__name__, e), traceback.format_exc()))
            finally:
                os._exit(code)
        os.close(w)
        self.r = r
        os.set_blocking(r, False)
        self.buf = b''
        _, st = os.waitpid(self.pid, WALL)
        if not os.WIFSTOPPED(st):
            raise RuntimeError('traced child did not stop')
        _pt(SETOPTIONS, self.pid, 0, O_SYSGOOD | O_EXITKILL)
        self.mem = open('/proc/%d/mem' % self.pid, 'rb', buffering=0)
        self.cwd = os.readlink('/proc/%d/cwd' % self.pid)
        self.entry = True

    # ---- messages
    def _drain(self):
        while True:
            try:
                b = os.read(self.r, 1 << 16)
            except BlockingIOError:
                break
            if not b:
                break
            self.buf += b
        while len(self.buf) >= 4:
            (n,) = struct.unpack('!I', self.buf[:4])
            if len(self.buf) < 4 + n:
                break
            self.messages.append(pickle.loads(self.buf[4:4 + n]))
            self.buf = self.buf[4 + n:]

    # ---- decoding
    def _string(self, addr):
        out = b''
        while len(out) < 8192:
            try:
                self.mem.seek(addr + len(out))
                b = self.mem.read(min(256, 4096 - (addr + len(out)) % 4096))
            except OSError:
                break
            i = b.find(b'\0')
            if i >= 0:
                return os.fsdecode(out + b[:i])
            out += b
        return os.fsdecode(out)

    def _fdpath(self, fd):
        try:
            return os.readlink('/proc/%d/fd/%d' % (self.pid, fd))
        except OSError:
            return ''

    def _paths(self, spec, args):
        out = []
        for how, i in spec:
            if how == FD:
                out.append(self._fdpath(ctypes.c_int(args[i]).value))
            elif how == P:
                out.append(os.path.normpath(os.path.join(self.cwd, self._string(args[i]))))
            else:
                fd = ctypes.c_int(args[i]).value
                s = self._string(args[i + 1]) if args[i + 1] else ''
                base = self.cwd if fd == AT_FDCWD else self._fdpath(fd)
                out.append(os.path.normpath(os.path.join(base, s)) if s else base)
        return out

    def _watched(self, p):
        return any(p == w or p.startswith(w + '/') for w in self.watch)

    # ---- control
    def _resume(self, sig=0):
        _pt(SYSCALL, self.pid, 0, sig)
        _, st = os.waitpid(self.pid, WALL)
        return st

    def _ended(self, st):
        self.alive = False
        self.status = st
        self.op = None
        self._drain()
        os.close(self.r)
        self.mem.close()

    def next(self, mutating=False):
        """runs until the next watched operation (it has not been executed yet); None when the process has ended"""
        sig = 0
        while True:
            st = self._resume(sig)
            sig = 0
            if os.WIFEXITED(st) or os.WIFSIGNALED(st):
                self._ended(st)
                return None
            s = os.WSTOPSIG(st)
            if s == (signal.SIGTRAP | 0x80):
                if self.entry:
                    self.entry = False
                    nr = _pt(PEEKUSER, self.pid, 15 * 8) & 0xffffffff
                    if nr in CALLS:
                        regs = (ctypes.c_ulonglong * 27)()
                        _pt(GETREGS, self.pid, 0, ctypes.addressof(regs))
                        args = [regs[14], regs[13], regs[12], regs[7], regs[9], regs[8]]
                        name, spec = CALLS[nr]
                        op = Op(name, self._paths(spec, args), args)
                        if any(self._watched(p) for p in op.paths) and (op.mutates() if mutating else name not in SCHED_SKIP):
                            self.op = op
                            return op
                else:
                    self.entry = True
                    self._chdir()
            elif s != signal.SIGTRAP and s != signal.SIGSTOP:
                sig = s

    def _chdir(self):
        pass

    def shorten(self, n):
        """the pending write stores only its first n bytes"""
        _pt(POKEUSER, self.pid, 12 * 8, n)

    def fail_call(self, errno):
        """the pending system call is not executed and reports an error"""
        _pt(POKEUSER, self.pid, 15 * 8, 2 ** 64 - 1)
        st = self._resume()
        if os.WIFEXITED(st) or os.WIFSIGNALED(st):
            self._ended(st)
            return
        _pt(POKEUSER, self.pid, 10 * 8, 2 ** 64 - errno)
        self.entry = True

    def finish_call(self):
        """executes the pending system call and stops at its exit"""
        st = self._resume()
        if os.WIFEXITED(st) or os.WIFSIGNALED(st):
            self._ended(st)
        else:
            self.entry = True

    def kill(self):
        if self.alive:
            os.kill(self.pid, signal.SIGKILL)
            while True:
                _, st = os.waitpid(self.pid, WALL)
                if os.WIFEXITED(st) or os.WIFSIGNALED(st):
                    break
                _pt(SYSCALL, self.pid)
            self._ended(st)

    def run(self):
        while self.alive:
            self.next()


def available():
    """None, or why processes cannot be traced here"""
    try:
        t = Traced(lambda report: report('hello'), ['/nonexistent'])
        t.run()
        return None if 'hello' in t.messages else 'no message from a traced process: %s' % t.messages
    except OSError as e:
        return str(e)
