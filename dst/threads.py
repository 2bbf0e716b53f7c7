"""Simulated threads: real threads that run one at a time, in an order the plan decides.

Exactly one thread holds the baton. It may lose it at any executed line of the
code under test (function bodies only), when its slice of the plan's schedule is
used up, and when it waits for a lock. The schedule is a list of [pick, lines]:
`pick` selects among the runnable threads, `lines` is how far that thread goes.
When the list is used up, threads run to their end in order.
"""
import _thread
import sys
import threading
import traceback

_alloc = _thread.allocate_lock
_LOCK_T = type(_alloc())
_RLOCK_T = type(threading.RLock())
_REAL = threading


class Deadlock(BaseException):
    pass


class Killed(BaseException):
    pass


class _T:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.go = _alloc()
        self.go.acquire()
        self.wait = None          # lock it waits for
        self.done = False
        self.result = None
        self.ident = None
        self.throw = None


class SimLock:
    """Lock and RLock of the code under test."""

    def __init__(self, reentrant=False):
        self.re, self.owner, self.n = reentrant, None, 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while not self._free(me):
            if not blocking or (timeout is not None and timeout >= 0 and timeout == 0):
                return False
            s = Sched.current
            if s is None or s.holder is None or s.holder.ident != me:
                raise Deadlock("lock waited for outside the simulation")
            if timeout is not None and timeout > 0:
                s.sim.clock += timeout
                s.sim.mono += timeout
                s.switch(None)
                if not self._free(me):
                    return False
                break
            s.switch(self)
        self.owner, self.n = me, self.n + 1
        return True

    def _free(self, me):
        return self.owner is None or (self.re and self.owner == me)

    def release(self):
        if self.owner is None or (self.re and self.owner != self._me()):
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n <= 0:
            self.owner, self.n = None, 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


class _ThreadingProxy:
    """What `threading` means inside the code under test."""

    def __getattr__(self, k):
        if k == "Lock":
            return lambda: SimLock(False)
        if k == "RLock":
            return lambda: SimLock(True)
        return getattr(_REAL, k)


def is_target(name):
    return name == "app" or name.split(".")[0] == "kd"


def install_locks():
    """Put every lock of the code under test behind the scheduler."""
    proxy = _ThreadingProxy()
    n = 0

    def conv(v):
        if isinstance(v, _LOCK_T):
            return SimLock(False)
        if isinstance(v, _RLOCK_T):
            return SimLock(True)
        return None
    for name, mod in list(sys.modules.items()):
        if mod is None or not is_target(name):
            continue
        for k, v in list(vars(mod).items()):
            r = conv(v)
            if r is not None:
                # one lock imported by several modules stays one lock
                for m2n, m2 in list(sys.modules.items()):
                    if m2 is not None and is_target(m2n):
                        for k2, v2 in list(vars(m2).items()):
                            if v2 is v:
                                setattr(m2, k2, r)
                n += 1
            elif v is _REAL:
                setattr(mod, k, proxy)
            elif v is _REAL.Lock:
                setattr(mod, k, lambda: SimLock(False))
            elif v is _REAL.RLock:
                setattr(mod, k, lambda: SimLock(True))
            elif isinstance(v, type) and is_target(getattr(v, "__module__", "") or ""):
                for k2, v2 in list(vars(v).items()):
                    r = conv(v2)
                    if r is not None:
                        setattr(v, k2, r)
                        n += 1
    return n


class Sched:
    current = None

    def __init__(self, sim, schedule, max_wait=100.0):
        self.sim = sim
        self.schedule = [list(s) for s in schedule]
        self.i = 0
        self.threads = []
        self.holder = None
        self.left = None
        self.main = _alloc()
        self.main.acquire()
        self.max_wait = max_wait
        self.deadlock = None
        self.seq = []

    def spawn(self, name, fn):
        t = _T(name, fn)
        self.threads.append(t)

        def body():
            t.ident = _thread.get_ident()
            t.go.acquire()
            try:
                if t.throw is not None:
                    raise t.throw
                t.result = ("ok", t.fn())
            except BaseException as e:
                t.result = ("raised", e, traceback.format_exc()[-2500:])
            t.done = True
            self.main.release()
        th = threading.Thread(target=body, name=name, daemon=True)
        th.start()
        while t.ident is None:
            pass
        return t

    # -- inside a simulated thread ----------------------------------------
    def switch(self, wait):
        t = self.holder
        t.wait = wait
        self.main.release()
        t.go.acquire()
        t.wait = None
        if t.throw is not None:
            e, t.throw = t.throw, None
            raise e

    def step(self, n, code, line):
        t = self.holder
        if t is None or t.ident != _thread.get_ident():
            return
        if not code.co_flags & 1:          # module and class bodies run under the import lock
            return
        if self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            self.sim.log("switch from", t.name, "in", code.co_name)
            self.switch(None)

    # -- the controller -----------------------------------------------------
    def run(self, extra_hook=None):
        sim = self.sim
        Sched.current = self

        def hook(n, code, line):
            if extra_hook is not None:
                extra_hook(n, code, line)
            self.step(n, code, line)
        sim.install_steps(hook)
        last = None
        try:
            while True:
                alive = [t for t in self.threads if not t.done]
                if not alive:
                    break
                ready = [t for t in alive if t.wait is None or t.wait._free(t.ident)]
                if not ready:
                    self.deadlock = "no thread can go on: " + ", ".join(t.name for t in alive)
                    sim.violate("deadlock", self.deadlock)
                    for t in alive:
                        t.throw = Deadlock(self.deadlock)
                        t.wait = None
                    ready = alive
                if self.i < len(self.schedule) and self.deadlock is None:
                    pick, lines = self.schedule[self.i]
                    self.i += 1
                    t = ready[int(pick) % len(ready)]
                    self.left = max(1, int(lines))
                else:
                    t = last if last in ready else ready[0]
                    self.left = None
                if t is not last:
                    sim.stats["switches"] += 1
                last = t
                self.seq.append(self.threads.index(t))
                self.holder = t
                t.go.release()
                if not self.main.acquire(timeout=self.max_wait):
                    raise RuntimeError("a simulated thread does not give the baton back")
                self.holder = None
        finally:
            sim.step_hook = None
            sim.remove_steps()
            Sched.current = None
        return [t.result for t in self.threads]


def gen_sched(rng, n, scale):
    """A random schedule: slices from one line to `scale` lines."""
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.4:
            lines = rng.randrange(1, 12)
        elif r < 0.8:
            lines = int(scale ** rng.random()) + 1
        else:
            lines = rng.randrange(1, max(2, scale))
        out.append([rng.randrange(6), lines])
    return out


def point(lines=1):
    """A switch point inside a stub that runs as part of a simulated thread."""
    s = Sched.current
    if s is None or s.holder is None or s.holder.ident != _thread.get_ident() or s.left is None:
        return
    s.left -= lines
    if s.left <= 0:
        s.sim.log("switch from", s.holder.name, "in a stub")
        s.switch(None)
