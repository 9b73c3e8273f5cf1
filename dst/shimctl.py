"""ctypes view of the shim's control block (shim/simshim.c)."""
import ctypes as C
import mmap

MAXLOG, MAXFAULT, MAXPREF, PATHLEN = 16384, 32, 12, 160
OPS = ['?', 'openr', 'openw', 'read', 'write', 'close', 'unlink', 'rename', 'mkdir', 'rmdir',
       'fsync', 'trunc', 'opendir', 'denied', 'link', 'mark']
FAULTS = ['-', 'err', 'short', 'int', 'crash', 'closelost', 'eof', 'sticky', 'eintr']
FK = {n: i for i, n in enumerate(FAULTS)}
CLS = ['-', 'in', 'out', 'tmp', 'res', 'stdin', 'stdout', 'stderr', 'proc', 'log', 'other']
CK = {n: i for i, n in enumerate(CLS)}


class Fault(C.Structure):
    _fields_ = [('op', C.c_uint32), ('kind', C.c_uint32), ('arg', C.c_int64),
                ('fired', C.c_uint32), ('pad', C.c_uint32)]


class LogEnt(C.Structure):
    _fields_ = [('op', C.c_uint32), ('kind', C.c_uint8), ('cls', C.c_uint8),
                ('fault', C.c_uint8), ('flags', C.c_uint8), ('fd', C.c_int32),
                ('err', C.c_int32), ('arg', C.c_int64), ('ret', C.c_int64),
                ('path', C.c_char * PATHLEN)]


class Pref(C.Structure):
    _fields_ = [('cls', C.c_int32), ('len', C.c_int32), ('path', C.c_char * 248)]


class Ctl(C.Structure):
    _fields_ = [('magic', C.c_uint32), ('active', C.c_uint32), ('jail', C.c_uint32),
                ('npref', C.c_uint32), ('nfaults', C.c_uint32), ('nops', C.c_uint32),
                ('nlog', C.c_uint32), ('crashed', C.c_uint32), ('tty', C.c_uint32),
                ('dirseed', C.c_uint32), ('clockon', C.c_uint32), ('randon', C.c_uint32),
                ('clock_ns', C.c_uint64), ('clock_step', C.c_uint64), ('rng', C.c_uint64),
                ('nclock', C.c_uint64), ('ndenied', C.c_uint32), ('logoverflow', C.c_uint32),
                ('nrand', C.c_uint32), ('ndir', C.c_uint32), ('root', C.c_char * 256),
                ('prefs', Pref * MAXPREF), ('faults', Fault * MAXFAULT),
                ('log', LogEnt * MAXLOG)]


class Shim:
    def __init__(self, path):
        self.lib = C.CDLL(path)
        self.lib.sim_ctl_size.restype = C.c_size_t
        self.lib.sim_op.argtypes = [C.c_int, C.c_char_p, C.c_int64]
        self.lib.sim_track_fd.argtypes = [C.c_int, C.c_int, C.c_char_p]
        self.lib.sim_attach.argtypes = [C.c_void_p]
        assert self.lib.sim_ctl_size() == C.sizeof(Ctl), (self.lib.sim_ctl_size(), C.sizeof(Ctl))
        libc = C.CDLL(None, use_errno=True)
        libc.mmap.restype = C.c_void_p
        libc.mmap.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]
        # shared with the forked child; never unmapped, the shim uses it until the very end
        p = libc.mmap(None, C.sizeof(Ctl), mmap.PROT_READ | mmap.PROT_WRITE,
                      mmap.MAP_SHARED | mmap.MAP_ANONYMOUS, -1, 0)
        assert p not in (None, C.c_void_p(-1).value)
        self.ctl = Ctl.from_address(p)

    def reset(self):
        c = self.ctl
        C.memset(C.addressof(c), 0, Ctl.log.offset)

    def configure(self, root, prefs, faults=(), clock=1700000000.0, step=1000, seed=1, tty=0, dirseed=1,
                  jail=1):
        self.reset()
        c = self.ctl
        c.root = root.encode()
        for i, (cls, p) in enumerate(prefs):
            c.prefs[i].cls = CK[cls]
            c.prefs[i].path = p.encode()
            c.prefs[i].len = len(p.encode())
        c.npref = len(prefs)
        for i, f in enumerate(faults):
            c.faults[i].op = f['op']
            c.faults[i].kind = FK[f['kind']]
            c.faults[i].arg = f.get('arg', 0)
        c.nfaults = len(faults)
        c.clock_ns = int(clock * 1e9)
        c.clock_step = step
        c.rng = (seed * 0x9E3779B97F4A7C15 + 0x1234567) & 0xffffffffffffffff or 1
        c.clockon = c.randon = 1
        c.tty = tty
        c.dirseed = dirseed
        c.jail = jail

    def attach(self):
        self.lib.sim_attach(C.addressof(self.ctl))

    def activate(self, on=1):
        self.ctl.active = on

    def disarm(self):
        """no further fault happens"""
        c = self.ctl
        for f in c.faults[:c.nfaults]:
            if not f.fired:
                f.op = 0xffffffff
        self.lib.sim_clear()

    def track(self, fd, cls, name):
        self.lib.sim_track_fd(fd, CK[cls], name.encode())

    def op(self, cls, name, arg=0):
        """numbered simulator operation; returns errno (0: go ahead)"""
        return self.lib.sim_op(CK[cls], name.encode()[:150], arg)

    def log(self):
        c = self.ctl
        out = []
        for i in range(c.nlog):
            e = c.log[i]
            out.append((e.op, OPS[e.kind], CLS[e.cls], FAULTS[e.fault], e.fd, e.err, e.arg, e.ret,
                        e.path.decode('utf-8', 'replace')))
        return out

    def fired(self):
        c = self.ctl
        return [{'op': f.op, 'kind': FAULTS[f.kind], 'arg': f.arg} for f in c.faults[:c.nfaults] if f.fired]
