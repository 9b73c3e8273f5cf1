"""Simulated child processes: a stand-in for subprocess.Popen.

The tool itself is the real binary, run synchronously on the captured input at
the point where the simulated parent lets it finish, so its relative timing is
never the host's choice.  Pagers are stubs (copy).  Faults: the spawn fails,
the tool dies before reading all its input, fails with a non-zero status and
partial output, or the wait is interrupted."""
import errno
import io
import os
import subprocess as _sp

RealPopen = _sp.Popen
STUB_COPY = ('less', 'more', 'cat', 'simpager')


class SimHang(BaseException):
    """the parent waits for a child that waits for the parent"""


class _Env:
    shim = None
    faults = {}         # spawn index -> fault dict
    count = 0
    live = []
    missing = ()        # executables that do not exist on the simulated machine
    exe = {}            # renamed executables


E = _Env()


def _chk(name, arg=0):
    e = E.shim.op('proc', name, arg)
    if e:
        raise OSError(e, os.strerror(e), name)


class _Stdin(io.RawIOBase):
    def __init__(self, p):
        self.p = p

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('simulated pipe')

    def write(self, b):
        b = bytes(b)
        p = self.p
        _chk('pipe-write:' + p.name, len(b))
        if p.die_after is not None:
            room = p.die_after - len(p.inp)
            if room <= 0:
                E.shim.op('proc', 'epipe:' + p.name)
                raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
            b = b[:room]
        p.inp += b
        return len(b)

    def close(self):
        if not self.closed:
            super().close()
            E.shim.op('proc', 'pipe-close:' + self.p.name)


class SimPopen(RealPopen):
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, **kw):
        self.args = args
        self.returncode = None
        self.pid = 0
        self.stdin = self.stdout = self.stderr = None
        self._child_created = False
        text = kw.get('text') or universal_newlines or kw.get('encoding')
        if isinstance(args, (str, bytes, os.PathLike)):
            argv = ['sh', '-c', args] if shell else [os.fsdecode(args)]
        else:
            argv = [os.fsdecode(a) for a in args]
        self.argv, self.cwd, self.cenv = argv, cwd, env
        self.name = os.path.basename(argv[0])
        self.index = E.count
        E.count += 1
        self.fault = E.faults.get(self.index, {})
        probe = len(argv) == 2 and argv[1] in ('--version', 'version')
        _chk('spawn:' + self.name + ('?' if probe else ''))
        mode = self.fault.get('mode')
        if self.name in E.missing or mode == 'enoent':
            E.shim.op('proc', 'spawn-failed:' + self.name)
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', argv[0])
        if mode == 'eagain':
            E.shim.op('proc', 'spawn-failed:' + self.name)
            raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
        if self.name not in STUB_COPY:
            import shutil
            self.exe = shutil.which(E.exe.get(self.name, argv[0]))
            if not self.exe:
                E.shim.op('proc', 'spawn-failed:' + self.name)
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', argv[0])
        self.inp = bytearray()
        self.die_after = self.fault.get('after') if mode == 'die' else None
        self.outdata = self.errdata = None
        self.done = False
        self.rc = None
        self._in, self._out, self._err = stdin, stdout, stderr
        if stdin == _sp.PIPE:
            raw = _Stdin(self)
            self.stdin = io.BufferedWriter(raw, 8192) if bufsize != 0 else raw
            if text:
                self.stdin = io.TextIOWrapper(self.stdin, kw.get('encoding'), write_through=True)
        if stdout == _sp.PIPE:
            self.stdout = _Lazy(self, 'outdata', text)
        if stderr == _sp.PIPE:
            self.stderr = _Lazy(self, 'errdata', text)
        # the descriptors the child inherits are duplicated at spawn, as fork does
        self.ofd = self._dupfd(stdout)
        self.efd = self._dupfd(stderr, err=True)
        self.text = text
        E.live.append(self)
        self._child_created = False

    def __del__(self, *a, **k):
        pass

    def _dupfd(self, f, err=False):
        if f == _sp.PIPE or f == _sp.DEVNULL:
            return None
        if f is None:
            fd = 2 if err else 1
        elif f == _sp.STDOUT:
            return -1
        elif isinstance(f, int):
            fd = f
        else:
            raw = getattr(getattr(f, 'buffer', f), 'raw', f)
            if isinstance(raw, _Stdin):         # a pipe into another simulated child
                return raw.p
            fd = f.fileno()
        E.shim.activate(0)
        try:
            return os.dup(fd)
        finally:
            E.shim.activate(1)

    def _run(self):
        """the child runs to completion"""
        if self.done:
            return
        self.done = True
        if self.stdin is not None and not self.stdin.closed and self.die_after is None:
            E.shim.op('proc', 'hang:' + self.name)
            raise SimHang(self.name)
        E.shim.activate(0)
        try:
            mode = self.fault.get('mode')
            if self._in is not None and self._in not in (_sp.PIPE, _sp.DEVNULL):
                fd = self._in if isinstance(self._in, int) else self._in.fileno()
                while True:
                    b = os.read(fd, 65536)
                    if not b:
                        break
                    self.inp += b
            if self.name in STUB_COPY:
                out, err, rc = bytes(self.inp), b'', 0
            else:
                env = dict(self.cenv if self.cenv is not None else os.environ)
                env.pop('LD_PRELOAD', None)
                if os.environ.get('SIM_SHIM'):
                    env['LD_PRELOAD'] = os.environ['SIM_SHIM']
                    env['SIM_JAIL'] = os.environ['SIM_ROOT']
                if mode in ('exit', 'die') and self.fault.get('out', 0) <= 0:
                    out, err, rc = b'', b'', 0          # fails before producing output
                else:
                    argv = list(self.argv)
                    p = RealPopen(argv, executable=self.exe, stdin=_sp.PIPE, stdout=_sp.PIPE,
                                  stderr=_sp.PIPE, env=env, cwd=self.cwd)
                    out, err = p.communicate(bytes(self.inp))
                    rc = p.returncode
            if mode in ('exit', 'die'):
                out = out[:self.fault.get('out', 0)]
                rc = self.fault.get('rc', 1 if mode == 'exit' else -9)
            if self._err == _sp.STDOUT:
                out += err
                err = b''
            if isinstance(self.ofd, SimPopen):
                t = self.ofd
                t.inp += out
                if t.die_after is not None and len(t.inp) > t.die_after:
                    del t.inp[t.die_after:]
                    rc = rc or -13
            elif self.ofd is not None:
                _all(self.ofd, out)
            else:
                self.outdata = out
            if isinstance(self.efd, int) and self.efd >= 0:
                _all(self.efd, err)
            else:
                self.errdata = err
            for fd in (self.ofd, self.efd):
                if isinstance(fd, int) and fd >= 0:
                    os.close(fd)
            self.rc = rc
        finally:
            E.shim.activate(1)
        if self.fault:
            E.shim.op('proc', 'tool-fault:%s:%s' % (self.fault.get('mode'), self.name))

    # -- public surface of Popen ------------------------------------------
    def poll(self):
        if self.returncode is None:
            if self.stdin is not None and not self.stdin.closed and self.die_after is None:
                return None
            self._run()
            self._reap()
        return self.returncode

    def _reap(self):
        if self.returncode is None:
            self.returncode = self.rc       # (an interrupt here comes after the child is gone)
            E.shim.op('proc', 'reap:' + self.name, self.rc & 0xff)

    def wait(self, timeout=None):
        if self.returncode is None:
            try:
                E.shim.op('proc', 'wait:' + self.name)      # only an interrupt has an effect here
            except KeyboardInterrupt:
                # as Popen.wait: the child got the interrupt too, reap it first
                self._run()
                self._reap()
                raise
            self._run()
            self._reap()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        if self.stdin is not None and not self.stdin.closed:
            if input:
                try:
                    self.stdin.write(input)
                except BrokenPipeError:
                    pass
            try:
                self.stdin.close()
            except BrokenPipeError:
                pass
        o = self.stdout.read() if self.stdout is not None else None
        e = self.stderr.read() if self.stderr is not None else None
        self.wait()
        return o, e

    def send_signal(self, sig):
        E.shim.op('proc', 'signal:' + self.name, int(sig))
        if not self.done:
            self.done = True
            self.rc = -int(sig)
            self.outdata = self.outdata or b''
            self.errdata = self.errdata or b''
            for fd in (self.ofd, self.efd):
                if isinstance(fd, int) and fd >= 0:
                    os.close(fd)

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for f in (self.stdout, self.stderr):
            if f is not None:
                f.close()
        try:
            if self.stdin is not None:
                self.stdin.close()
        finally:
            self.wait()


class _LazyRaw(io.RawIOBase):
    def __init__(self, p, attr):
        self.p, self.attr, self.pos = p, attr, 0

    def readable(self):
        return True

    def readinto(self, b):
        _chk('pipe-read:' + self.p.name, len(b))
        self.p._run()
        d = getattr(self.p, self.attr) or b''
        c = d[self.pos:self.pos + len(b)]
        b[:len(c)] = c
        self.pos += len(c)
        return len(c)


def _Lazy(p, attr, text):
    f = io.BufferedReader(_LazyRaw(p, attr), 8192)
    return io.TextIOWrapper(f) if text else f


def _all(fd, data):
    v = memoryview(data)
    while v:
        n = os.write(fd, v[:65536])
        v = v[n:]


def install(shim, faults=(), missing=(), exe=None):
    E.shim = shim
    E.faults = {f['i']: f for f in faults}
    E.count = 0
    E.live = []
    E.missing = tuple(missing)
    E.exe = exe or {}


# bound before the system under test does `from subprocess import Popen`
_sp.Popen = SimPopen


def unreaped():
    return [p.name for p in E.live if p.returncode is None]
