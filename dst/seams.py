"""Seams: threading, time and queue are replaced by versions that behave as the
originals outside a simulation and belong to the simulator inside one.

Only the leaf primitives are stubs (Lock, RLock, Thread start/join, clocks); the
standard library's Condition, Event, Semaphore, Barrier, Queue and
ThreadPoolExecutor run their real code on top of them.
"""
import sys, threading, time, queue, _thread
from . import sched
from .sched import current_task

_RealLock = _thread.allocate_lock
_RealRLock = threading.RLock
_RealThread = threading.Thread
real_time = time.time
real_sleep = time.sleep
real_monotonic = time.monotonic
real_perf = time.perf_counter


class Lock(object):
    """Mutex: real outside a simulation, scheduler-owned inside."""
    def __init__(self):
        self._real = _RealLock()
        self._held = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        t = current_task()
        if t is None:
            ok = self._real.acquire(blocking, timeout)
            if ok:
                self._held = True
            return ok
        sim = t.sim
        sim.yield_point("sync", "acquire")
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        while self._held:
            if not blocking:
                return False
            if deadline is not None and sim.now >= deadline:
                return False
            self._waiters.append(t)
            try:
                sim.block("lock", None if deadline is None else deadline - sim.now)
            finally:
                if t in self._waiters:
                    self._waiters.remove(t)
        self._held = True
        self._real.acquire(False)
        return True

    def release(self):
        t = current_task()
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        try:
            self._real.release()
        except RuntimeError:
            pass
        if t is None:
            return
        sim = t.sim
        if self._waiters:
            for w in self._waiters:
                sim.wake(w)
        if not sim.killing:
            sim.yield_point("sync", "release")

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _RealLock()
        self._held = False
        self._waiters = []

    acquire_lock, release_lock, locked_lock = acquire, release, locked


class RLock(object):
    def __init__(self):
        self._block = Lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _release_save(self):
        count, owner = self._count, self._owner
        self._count, self._owner = 0, None
        self._block.release()
        return (count, owner)

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0


class Thread(_RealThread):
    """threading.Thread whose start/join belong to the simulator inside a run."""
    _sim_task = None

    def start(self):
        t = current_task()
        if t is None:
            return _RealThread.start(self)
        if self._sim_task is not None:
            raise RuntimeError("threads can only be started once")
        sim = t.sim
        self._sim_task = sim.spawn(self.run, "thread-%d" % len(sim.tasks), self)
        sim.count("threads_started")
        sim.yield_point("sync", "start")

    def join(self, timeout=None):
        if self._sim_task is None:
            return _RealThread.join(self, timeout)
        t = current_task()
        if t is None or t is self._sim_task:
            raise RuntimeError("cannot join")
        t.sim.join(self._sim_task, timeout)

    def is_alive(self):
        if self._sim_task is None:
            return _RealThread.is_alive(self)
        t = current_task()
        if t is not None:
            t.sim.yield_point("sync", "is_alive")
        return not self._sim_task.finished

    @property
    def ident(self):
        if self._sim_task is None:
            return _RealThread.ident.fget(self)
        return getattr(self._sim_task, "ident", None)


def _time():
    t = current_task()
    if t is None:
        return real_time()
    r = t.sim.read_wall()
    t.sim.yield_point("sync", "time")
    return r

def _mono():
    t = current_task()
    if t is None:
        return real_monotonic()
    return t.sim.read_mono()

def _perf():
    t = current_task()
    if t is None:
        return real_perf()
    return t.sim.read_mono()

def _sleep(dt):
    t = current_task()
    if t is None:
        return real_sleep(dt)
    t.sim.sleep(dt)

_installed = False

def install():
    global _installed
    if _installed:
        return
    _installed = True
    import concurrent.futures.thread as cft
    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock
    threading._time = _mono
    threading.Thread = Thread
    time.time, time.monotonic, time.perf_counter, time.sleep = _time, _mono, _perf, _sleep
    time.time_ns = lambda: int(_time() * 1e9)
    time.monotonic_ns = lambda: int(_mono() * 1e9)
    time.perf_counter_ns = lambda: int(_perf() * 1e9)
    queue.time = _mono
    if hasattr(queue, "_PySimpleQueue"):
        queue.SimpleQueue = queue._PySimpleQueue
    cft._global_shutdown_lock = Lock()
