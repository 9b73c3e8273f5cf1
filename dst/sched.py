"""A deterministic scheduler for the threads of one process.

Real threads, but only the one that holds the baton runs.  Every executed line
(or bytecode instruction) of hwp5 is a point where the baton may pass, decided
by a seeded policy, so that one seed is one interleaving.  Locks created while
the scheduler is installed are cooperative: who cannot get one passes the
baton.  Imports are atomic (the interpreter serialises them as well)."""
import _thread
import builtins
import random
import sys
import threading

TOOL = 3


class Deadlock(BaseException):
    pass


class Sched:
    def __init__(self, policy, prefix):
        self.policy, self.prefix = policy, prefix
        self.rng = random.Random('sched/%s' % policy.get('seed'))
        self.local = threading.local()
        self.sems, self.done, self.blocked = [], [], []
        self.current = None
        self.steps = 0
        self.switches = []
        self.nswitch = 0
        self.explicit = {int(a): b for a, b in policy.get('switches') or ()}
        self.limit = policy.get('limit', 6000000)
        self.p = policy.get('p', .01)
        self.next = self._gap()
        self.prio = None
        self.stopped = False

    def _gap(self):
        if 'switches' in self.policy:
            return 1
        return max(1, int(self.rng.expovariate(self.p)))

    # -- decisions ---------------------------------------------------------
    def point(self):
        me = getattr(self.local, 'me', None)
        if me is None or self.local.busy or self.stopped:
            return
        self.steps += 1
        if 'switches' in self.policy:
            to = self.explicit.get(self.steps)
            if to is None or self.done[to] or to == me:
                return
        else:
            self.next -= 1
            if self.next > 0:
                return
            self.next = self._gap()
            c = [i for i in range(len(self.sems)) if not self.done[i] and i != me]
            if not c:
                return
            to = self.rng.choice(c)
        if self.steps > self.limit:
            self.stopped = True
            return
        self.pass_to(me, to)

    def pass_to(self, me, to):
        if len(self.switches) < 20000:
            self.switches.append([self.steps, to])
        self.nswitch += 1
        self.local.busy = True
        self.current = to
        self.sems[to].release()
        self.sems[me].acquire()
        self.local.busy = False

    def yield_blocked(self):
        """the caller cannot proceed before another thread has"""
        me = getattr(self.local, 'me', None)
        if me is None:
            return False
        self.blocked[me] = True
        c = [i for i in range(len(self.sems)) if not self.done[i] and not self.blocked[i]]
        if not c:
            # everyone was waiting: they may look again, once
            c = [i for i in range(len(self.sems)) if not self.done[i] and i != me]
            self.spins = getattr(self, 'spins', 0) + 1
            if not c or self.spins > 50:
                raise Deadlock('every thread waits for a lock')
            self.blocked = [False] * len(self.sems)
        to = self.rng.choice(c)
        if to != me:
            self.pass_to(me, to)
        return True

    def unblock(self):
        self.blocked = [False] * len(self.sems)
        self.spins = 0

    # -- running -----------------------------------------------------------
    def run(self, fns):
        n = len(fns)
        self.sems = [_thread.allocate_lock() for _ in range(n)]
        for s in self.sems:
            s.acquire()
        self.done, self.blocked = [False] * n, [False] * n
        over = _thread.allocate_lock()
        over.acquire()
        errors = [None] * n

        def body(i):
            self.sems[i].acquire()
            self.local.busy = False
            self.local.depth = 0
            self.local.me = i
            try:
                fns[i]()
            except BaseException as e:      # noqa
                errors[i] = repr(e)
            self.local.me = None
            self.done[i] = True
            self.unblock()
            c = [j for j in range(n) if not self.done[j]]
            if c:
                to = self.rng.choice(c)
                if len(self.switches) < 20000:
                    self.switches.append([self.steps, to])
                self.current = to
                self.sems[to].release()
            else:
                over.release()
        self.install()
        try:
            for i in range(n):
                _thread.start_new_thread(body, (i,))
            first = self.rng.randrange(n)
            self.current = first
            self.sems[first].release()
            over.acquire()
        finally:
            self.uninstall()
        return errors

    # -- instrumentation ---------------------------------------------------
    def install(self):
        m = sys.monitoring
        ev = m.events.INSTRUCTION if self.policy.get('grain') == 'instruction' else m.events.LINE
        m.use_tool_id(TOOL, 'dst')
        prefix, point = self.prefix, self.point
        disable = m.DISABLE

        def cb(code, where):
            if not code.co_filename.startswith(prefix):
                return disable
            point()
        m.register_callback(TOOL, ev, cb)
        m.set_events(TOOL, ev)
        self.ev = ev
        self.imp = builtins.__import__
        real, local = self.imp, self.local

        def imp(*a, **k):
            if getattr(local, 'me', None) is None:
                return real(*a, **k)
            busy = local.busy
            local.busy = True
            try:
                return real(*a, **k)
            finally:
                local.busy = busy
        builtins.__import__ = imp

    def uninstall(self):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, self.ev, None)
        m.free_tool_id(TOOL)
        builtins.__import__ = self.imp


class SimLock:
    """threading.Lock for scheduled threads"""
    sched = None
    reentrant = False

    def __init__(self):
        self._l = _thread.allocate_lock()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        while not self._l.acquire(False):
            if not blocking:
                return False
            s = SimLock.sched
            if s is None or getattr(s.local, 'me', None) is None:
                if not self._l.acquire(True, timeout):
                    return False
                break
            s.yield_blocked()
            if timeout is not None and timeout >= 0:
                blocking = False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self.reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()
        s = SimLock.sched
        if s is not None:
            s.unblock()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c, self._count = self._count, 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    reentrant = True


def patch_locks():
    """before the system under test is imported"""
    threading.Lock = SimLock
    threading.RLock = SimRLock
