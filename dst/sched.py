"""Deterministic thread scheduler.

Threads are real, but only the one that holds the baton runs.  It can be
preempted at yield points: every line (or bytecode instruction) of modulegraph2
and objectgraph, every simulated I/O step, every lock operation and between
calls.  Which points preempt is part of the case, so a case is one exactly
repeatable interleaving.
"""

import _thread
import sys
import threading

REAL_LOCK = _thread.allocate_lock
REAL_RLOCK = threading.RLock
ACTIVE = None       # the scheduler of the current run


class Deadlock(BaseException):
    """All threads wait for each other."""


class SimLock:
    """threading.Lock under the scheduler (never blocks outside of one)."""

    reentrant = False

    def __init__(self, *args):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = _thread.get_ident()
        if s is not None:
            s.point("lock")
        while self.depth and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            if s is None:
                raise RuntimeError("lock would block outside of the scheduler")
            if timeout is not None and timeout > 0 and not s.others_ready():
                return False
            s.block(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if not self.depth or (self.reentrant and self.owner != _thread.get_ident()):
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None
            s = ACTIVE
            if s is not None:
                s.unblock(self)
                s.point("lock")

    def locked(self):
        return self.depth > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        return self.depth > 0 and self.owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        d, self.depth = self.depth, 1
        self.release()
        return d

    def _acquire_restore(self, d):
        self.acquire()
        self.depth = d

    def _recursion_count(self):
        return self.depth if self._is_owned() else 0


class _ThreadProxy:
    allocate_lock = SimLock
    RLock = SimRLock
    LockType = SimLock

    def __getattr__(self, name):
        return getattr(_thread, name)


_saved = None


def patch_threading():
    """Locks created from here on belong to the scheduler."""
    global _saved
    _saved = (threading.Lock, threading.RLock, threading._allocate_lock, _thread.allocate_lock,
              _thread.RLock)
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock


def unpatch_threading():
    (threading.Lock, threading.RLock, threading._allocate_lock, _thread.allocate_lock,
     _thread.RLock) = _saved


class _ImpProxy:
    """The global import lock, held while finders do their I/O."""

    def __init__(self, imp):
        self._imp = imp
        self._lock = SimRLock()

    def acquire_lock(self):
        self._lock.acquire()

    def release_lock(self):
        self._lock.release()

    def lock_held(self):
        return self._lock.locked()

    def __getattr__(self, name):
        return getattr(self._imp, name)


def patch_imports():
    """The locks of the import system, for module loads by several threads."""
    b = sys.modules["_frozen_importlib"]
    b._thread = _ThreadProxy()
    b._imp = _ImpProxy(b._imp)


def code_objects(prefixes):
    """All code objects of functions defined in the modules *prefixes*."""
    out, seen, st = [], set(), []
    for name, mod in sorted(sys.modules.items()):
        if name.split(".")[0] in prefixes and mod is not None:
            st += [v for _, v in sorted(vars(mod).items())]
    objs = set()
    while st:
        x = st.pop()
        if isinstance(x, type(code_objects.__code__)):
            if x not in seen:
                seen.add(x)
                out.append(x)
                st += [c for c in x.co_consts if isinstance(c, type(x))]
            continue
        if id(x) in objs:
            continue
        objs.add(id(x))
        mod = getattr(x, "__module__", None)
        if not isinstance(mod, str) or mod.split(".")[0] not in prefixes:
            continue
        if isinstance(x, type):
            st += [v for _, v in sorted(vars(x).items())]
        for attr in ("__code__", "__func__", "__wrapped__", "fget", "fset", "func"):
            y = getattr(x, attr, None)
            if y is not None:
                st.append(y)
    # (staticmethod and classmethod objects have __func__ and __wrapped__)
    return [c for c in out if "<string>" not in c.co_filename]


def touches_shared(code, shared):
    return any(n in shared for n in code.co_names)


def shared_names(prefixes):
    """Names of mutable objects that all graphs of the process share."""
    out = {"modules", "path_importer_cache"}
    for name, mod in sorted(sys.modules.items()):
        if name.split(".")[0] not in prefixes or mod is None:
            continue
        for k, v in vars(mod).items():
            if k.startswith("__"):
                continue
            if isinstance(v, (dict, list, set)) or hasattr(v, "cache_clear"):
                out.add(k)
            elif isinstance(v, type) and getattr(v, "__module__", "").split(".")[0] in prefixes:
                out |= {a for a, x in vars(v).items() if isinstance(x, (dict, list, set))
                        and not a.startswith("__")}
    return out


TOOL = 3


class Sched:
    def __init__(self, n, plan, log, max_points=3_000_000):
        self.n = n
        self.plan = plan            # {(thread, kind, nth): to}
        self.log = log
        self.baton = [REAL_LOCK() for _ in range(n)]
        for b in self.baton:
            b.acquire()
        self.all_done = REAL_LOCK()
        self.all_done.acquire()
        self.state = ["ready"] * n
        self.waits = [None] * n
        self.off = [0] * n
        self.counts = [dict() for _ in range(n)]
        self.ids = {}
        self.cur = None
        self.switches = 0
        self.blocks = 0
        self.deadlocked = False
        self.errors = []
        self.total = 0
        self.max_points = max_points

    # -- called by the running thread
    def me(self):
        return self.ids.get(_thread.get_ident())

    def point(self, kind):
        t = self.ids.get(_thread.get_ident())
        if t is None or self.off[t]:
            return
        c = self.counts[t]
        k = c.get(kind, 0) + 1
        c[kind] = k
        self.total += 1
        if self.total > self.max_points:
            raise Deadlock("too many steps")
        to = self.plan.get((t, kind, k))
        if to is not None and to != t and to < self.n and self.state[to] == "ready":
            self.switches += 1
            self.log("switch", t, to, kind, k)
            self.hand(t, to)

    def io_point(self, op, path):
        self.point("io")

    def hand(self, t, to):
        self.cur = to
        self.baton[to].release()
        self.baton[t].acquire()
        if self.deadlocked:
            raise Deadlock()

    def others_ready(self):
        t = self.me()
        return any(s == "ready" for i, s in enumerate(self.state) if i != t)

    def next_ready(self, t):
        for d in range(1, self.n + 1):
            k = (t + d) % self.n
            if k != t and self.state[k] == "ready":
                return k
        return None

    def block(self, lock):
        t = self.me()
        if t is None:
            raise RuntimeError("unknown thread would block")
        self.blocks += 1
        self.state[t] = "blocked"
        self.waits[t] = lock
        to = self.next_ready(t)
        if to is None:
            self.deadlocked = True
            self.state[t] = "ready"
            self.log("deadlock")
            raise Deadlock("all threads wait for locks")
        self.log("block", t, to)
        self.hand(t, to)

    def unblock(self, lock):
        for i in range(self.n):
            if self.waits[i] is lock:
                self.waits[i] = None
                if self.state[i] == "blocked":
                    self.state[i] = "ready"

    def finish(self, t):
        self.state[t] = "done"
        to = self.next_ready(t)
        if to is None:
            for i in range(self.n):
                if self.state[i] == "blocked":
                    # nobody can release its lock any more
                    self.deadlocked = True
                    self.state[i] = "ready"
                    to = i
                    break
        if to is None:
            self.all_done.release()
            return
        self.log("next", t, to)
        self.cur = to
        self.baton[to].release()

    # -- running
    def run(self, fns, kinds, fine=False):
        """Run all *fns*, each in a thread of its own, starting with the first."""
        global ACTIVE

        def body(t, fn):
            self.baton[t].acquire()
            try:
                fn()
            except Deadlock as exc:
                self.errors.append((t, exc))
            except BaseException as exc:  # noqa: B036
                self.errors.append((t, exc))
            self.finish(t)

        for t, fn in enumerate(fns):
            self.ids[_thread.start_new_thread(body, (t, fn))] = t
        self.monitor(kinds, fine)
        ACTIVE = self
        try:
            self.cur = 0
            self.baton[0].release()
            self.all_done.acquire()
        finally:
            ACTIVE = None
            self.unmonitor()

    def monitor(self, wanted, fine):
        mon = sys.monitoring
        ev = mon.events
        which = ev.INSTRUCTION if fine else ev.LINE
        point = self.point

        shared = shared_names({"modulegraph2", "objectgraph"})
        kinds = {}

        def cb(code, _):
            point(kinds[code])

        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, which, cb)
        self.codes = code_objects({"modulegraph2", "objectgraph"})
        for c in self.codes:
            # (code objects that compare equal are the same code)
            kinds[c] = "hot" if touches_shared(c, shared) else "line"
            if kinds[c] in wanted:
                mon.set_local_events(TOOL, c, which)

    def unmonitor(self):
        mon = sys.monitoring
        for c in self.codes:
            mon.set_local_events(TOOL, c, 0)
        mon.free_tool_id(TOOL)
