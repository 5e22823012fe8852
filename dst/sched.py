"""Deterministic thread scheduler with a virtual clock.

Tasks are real OS threads, but only the one that holds the baton runs; every
change of the running task is a decision of the simulator.  Decision points are

* every operation on the seams installed by :mod:`dst.seams` (locks, and with
  them conditions, queues, events, semaphores; thread start/join; sleep; clock
  reads), and
* while monitoring is on, every line (or, in some runs, bytecode) executed in the
  files under test.

A decision is an index into the list of options at that point.  Option 0 is
always the default (go on with the current task if it can run, else the lowest
task id), so a schedule is a sparse map {decision number: option} - that map and
the plan are all a replay needs, and minimising drops entries from the map.
"""
import _thread, threading, sys, hashlib, random, traceback

_real_allocate = _thread.allocate_lock
_get_ident = _thread.get_ident


class SimKill(BaseException):
    """Raised inside a task when the simulation is torn down."""


class HarnessError(Exception):
    """The simulator itself misbehaved (never a verdict about the code)."""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


def _quiet_kill(info, _orig=sys.unraisablehook):
    # a destructor interrupted by the teardown of a simulation is not news
    if not issubclass(info.exc_type, SimKill):
        _orig(info)


sys.unraisablehook = _quiet_kill

CURRENT = None          # the running Sim, or None
_tasks_by_ident = {}


def current_sim():
    return CURRENT


def current_task():
    """The sim task of the calling thread, or None outside a simulation."""
    if CURRENT is None or CURRENT.atomic:
        return None
    t = _tasks_by_ident.get(_get_ident())
    if t is None or t.sim is not CURRENT:
        return None
    return t


_TOOL = 4
_codes = {}

def codes_of(files):
    """Code objects of the functions defined in the given (already imported) files."""
    files = tuple(files)
    if files in _codes:
        return _codes[files]
    import types
    found = {}
    def walk(c):
        if id(c) in found:
            return
        found[id(c)] = c
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)
    def visit(o, depth=0):
        o = getattr(o, "__func__", o)
        c = getattr(o, "__code__", None)
        if isinstance(c, types.CodeType) and any(c.co_filename.endswith(f) for f in files):
            walk(c)
        if isinstance(o, property):
            for f in (o.fget, o.fset):
                if f is not None:
                    visit(f)
        if hasattr(o, "__wrapped__") and depth < 3:
            visit(o.__wrapped__, depth + 1)
    for name in sorted(sys.modules):
        m = sys.modules[name]
        fn = getattr(m, "__file__", None) or ""
        if any(fn.endswith(f) for f in files):
            for k in list(vars(m).values()):
                visit(k)
                if isinstance(k, type) and k.__module__ == m.__name__:
                    for x in list(vars(k).values()):
                        visit(x)
    _codes[files] = list(found.values())
    return _codes[files]


class Task(object):
    __slots__ = ("sim", "id", "name", "go", "state", "wake", "waiting", "exc", "fn",
                 "ident", "finished", "prio", "thread", "timed_out", "wake_seq", "real_done", "daemon", "process")

    def __init__(self, sim, id, name, fn):
        self.sim, self.id, self.name, self.fn = sim, id, name, fn
        self.go = _real_allocate()
        self.go.acquire()
        self.real_done = _real_allocate()
        self.real_done.acquire()
        self.state = "ready"       # ready | blocked | done
        self.wake = None           # virtual time at which a blocked task wakes by itself
        self.wake_seq = 0
        self.waiting = None        # description of what it waits for
        self.exc = None
        self.finished = False
        self.timed_out = False
        self.prio = 0.0
        self.daemon = True
        self.process = None        # simulated process it belongs to (see disk.py)


class Sim(object):
    """One simulated execution.

    seed        : drives the schedule when `decisions` is None
    decisions   : replay map {decision number: option}
    sched       : dict(kind= 'random'|'pct'|'rr'|'starve', p_line, p_sync, p_timer,
                  victim, points)
    fair_after  : number of steps after which the adversarial schedule is replaced
                  by round-robin (liveness is judged only after that)
    max_steps   : step limit, counted in decision points
    """

    def __init__(self, seed=0, decisions=None, sched=None, fair_after=20000, max_steps=60000,
                 trace_files=(), opcodes=False, clock_jumps=None, start_time=1000.0):
        self.rng = random.Random("sched-%s" % (seed,))
        self.replaying = decisions is not None
        self.given = {int(k): int(v) for k, v in (decisions or {}).items()}
        self.decisions = {}
        self.ndec = 0
        self.sched = dict(kind="random", p_line=0.05, p_sync=0.5, p_timer=0.1)
        self.sched.update(sched or {})
        self.fair_after = fair_after
        self.max_steps = max_steps
        self.steps = 0
        self.tasks = []
        self.now = float(start_time)
        self.start_time = float(start_time)
        self.wall_offset = 0.0
        self.coarse = 0.0          # resolution of the wall clock
        self.atomic = 0            # >0: the running task is left alone (just-in-time compilation)
        self.clock_jumps = {int(k): float(v) for k, v in (clock_jumps or {}).items()}
        self.time_reads = 0
        self.jumps_fired = 0
        self.seq = 0
        self.killing = False
        self.done = _real_allocate()
        self.done.acquire()
        self.failure = None
        self.codes = codes_of(trace_files)
        self.opcodes = opcodes
        self.switches = 0
        self.hash = hashlib.blake2b(digest_size=12)
        self.log = []              # (seq, task, what) semantic events recorded by the check
        self.counters = {}
        self.thread_exceptions = []
        self.rr_next = 0
        self.max_runnable = 0
        self.keep_trace = False
        self.switch_trace = []
        self.leftover = []
        self._crit = []
        self.pct_points = set(self.sched.get("points", ()))

    # ------------------------------------------------------------------ log
    def event(self, what, **kw):
        """Record a semantic event (never draws randomness, never reads a clock)."""
        if self.killing:
            return
        self.seq += 1
        t = current_task()
        self.log.append((self.seq, t.id if t else -1, what, kw))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    # ------------------------------------------------------------- decisions
    def choose(self, options, weight_default, kind):
        """Pick an index in range(len(options)); index 0 is the default."""
        n = len(options)
        if n <= 1:
            return 0
        k = self.ndec
        self.ndec += 1
        if self.replaying:
            c = self.given.get(k, 0)
            if c >= n:
                c = 0
        else:
            c = self._pick(options, kind)
        if c:
            self.decisions[k] = c
        return c

    def _pick(self, options, kind):
        s = self.sched
        n = len(options)
        if self.steps > self.fair_after:
            # fair phase: round robin over tasks, timers only when nothing can run
            real = [i for i, o in enumerate(options) if o is not None]
            if not real:
                return 0
            best = None
            for i in real:
                d = (options[i].id - self.rr_next) % (len(self.tasks) + 1)
                if best is None or d < best[0]:
                    best = (d, i)
            self.rr_next = options[best[1]].id + 1
            return best[1]
        r = self.rng
        timers = [i for i, o in enumerate(options) if o is None]
        if timers and r.random() < s["p_timer"]:
            return timers[0]
        real = [i for i, o in enumerate(options) if o is not None]
        if not real:
            return 0
        if s["kind"] == "pct":
            if self.steps in self.pct_points and options[0] is not None:
                options[0].prio = -self.steps
            return max(real, key=lambda i: (options[i].prio, -options[i].id))
        if s["kind"] == "starve":
            v = s.get("victim", 0)
            ok = [i for i in real if options[i].id != v]
            if ok and r.random() < 0.97:
                return ok[0] if r.random() < 0.8 else r.choice(ok)
            return r.choice(real)
        p = s["p_line"] if kind == "line" else s["p_sync"]
        if r.random() < p:
            return r.choice(real)
        return 0

    # ------------------------------------------------------------ scheduling
    def _options(self, cur):
        opts = []
        if cur is not None and cur.state == "ready":
            opts.append(cur)
        for t in self.tasks:
            if t is not cur and t.state == "ready":
                opts.append(t)
        if len(opts) > self.max_runnable:
            self.max_runnable = len(opts)
        return opts

    def _next_timer(self):
        best = None
        for t in self.tasks:
            if t.state == "blocked" and t.wake is not None:
                if best is None or (t.wake, t.wake_seq) < (best.wake, best.wake_seq):
                    best = t
        return best

    def _fire_timer(self):
        t = self._next_timer()
        if t is None:
            return False
        if t.wake > self.now:
            self.now = t.wake
        t.wake = None
        t.state = "ready"
        t.timed_out = True
        return True

    def _dispatch(self, cur, kind, label):
        """Choose who runs next and hand over. `cur` may be blocked or done."""
        if self.killing:
            raise SimKill()
        self.steps += 1
        if self.steps > self.max_steps:
            self._fail(StepLimit("no end after %d steps" % self.steps))
            raise SimKill()
        while True:
            opts = self._options(cur)
            timer = self._next_timer() is not None
            if not opts:
                if timer:
                    self._fire_timer()
                    continue
                alive = [t for t in self.tasks if t.state != "done"]
                if alive and all(t.state == "done" for t in self._crit):
                    self.leftover = [(t.name, t.waiting) for t in alive]
                    self._finish()
                    if cur is not None and cur.state != "done":
                        raise SimKill()
                    return
                if alive:
                    self._fail(Deadlock("; ".join("%s waits for %s" % (t.name, t.waiting) for t in alive)))
                if cur is not None and cur.state != "done":
                    raise SimKill()
                self._finish()
                return
            c = self.choose(opts + [None] if timer else opts, 0, kind)
            if c == len(opts):
                self._fire_timer()
                self.count("early_timer")
                continue
            nxt = opts[c]
            break
        if nxt is cur:
            return
        self.switches += 1
        self.hash.update(("%s>%s@%s;" % (cur.id if cur else "-", nxt.id, label)).encode())
        if self.keep_trace:
            self.switch_trace.append("%s -> %s at %s t=%.4f" % (cur.name if cur else "-", nxt.name, label, self.now - self.start_time))
        nxt.go.release()
        if cur is not None and cur.state != "done":
            cur.go.acquire()
            if self.killing:
                raise SimKill()

    def _fail(self, exc):
        if self.failure is None:
            self.failure = exc

    def _finish(self):
        try:
            self.done.release()
        except RuntimeError:
            pass

    # called by seams -------------------------------------------------------
    def yield_point(self, kind="sync", label=""):
        cur = current_task()
        if cur is None:
            return
        self._dispatch(cur, kind, label)

    def block(self, what, timeout=None):
        """Block the calling task until `wake(task)`; True unless timed out."""
        cur = current_task()
        cur.state = "blocked"
        cur.waiting = what
        cur.timed_out = False
        if timeout is not None:
            cur.wake = self.now + max(0.0, timeout)
            self.seq += 1
            cur.wake_seq = self.seq
        try:
            self._dispatch(cur, "sync", what)
        finally:
            cur.waiting = None
            cur.wake = None
            if cur.state == "blocked":
                cur.state = "ready"
        return not cur.timed_out

    def wake(self, task):
        if task.state == "blocked":
            task.state = "ready"
            task.wake = None
            task.timed_out = False

    def sleep(self, dt, label="sleep"):
        if dt <= 0:
            self.yield_point("sync", label)
            return
        self.block(label, timeout=dt)

    def advance(self, dt):
        """CPU or device time spent by the running task."""
        self.now += dt

    def read_wall(self):
        self.time_reads += 1
        j = self.clock_jumps.get(self.time_reads)
        if j is not None:
            self.wall_offset += j
            self.jumps_fired += 1
            self.count("clock_jump")
        self.now += 1e-6
        t = 1.6e9 + self.now + self.wall_offset
        return t // self.coarse * self.coarse if self.coarse else t

    def read_mono(self):
        self.now += 1e-6
        return self.now

    # tasks ------------------------------------------------------------------
    def spawn(self, fn, name, thread=None):
        t = Task(self, len(self.tasks), name, fn)
        t.thread = thread
        t.prio = self.rng.random() if not self.replaying else 0.0
        self.tasks.append(t)
        _thread.start_new_thread(self._main, (t,))
        return t

    def _main(self, t):
        t.go.acquire()
        t.ident = _get_ident()
        # threading.current_thread() must not depend on which idents the OS reuses
        threading._active.pop(t.ident, None)
        if t.thread is not None:
            threading._active[t.ident] = t.thread
        else:
            threading.current_thread()
        _tasks_by_ident[t.ident] = t
        try:
            if self.killing:
                raise SimKill()
            t.fn()
        except SimKill:
            pass
        except BaseException as e:     # noqa
            if not self.killing:
                t.exc = e
                self.thread_exceptions.append((t.name, "".join(traceback.format_exception(e))))
        # hand over
        t.state = "done"
        t.finished = True
        for o in self.tasks:
            if o.state == "blocked" and o.waiting == "join %d" % t.id:
                self.wake(o)
        try:
            if self.killing:
                pass
            else:
                self._dispatch(t, "sync", "exit")
        except SimKill:
            pass
        finally:
            _tasks_by_ident.pop(t.ident, None)
            threading._active.pop(t.ident, None)
            if self.failure is not None:
                self._finish()
            t.real_done.release()

    def join(self, task, timeout=None):
        while not task.finished:
            if timeout is not None:
                if not self.block("join %d" % task.id, timeout):
                    return
            else:
                self.block("join %d" % task.id)

    # preemption inside the code under test -----------------------------------
    def _on_line(self, code, line):
        cur = current_task()
        if cur is not None and cur.sim is self:
            self._dispatch(cur, "line", "%s:%d" % (code.co_name, line - code.co_firstlineno))

    def _on_instruction(self, code, offset):
        cur = current_task()
        if cur is not None and cur.sim is self:
            self._dispatch(cur, "line", "%s+%d" % (code.co_name, offset))

    def _monitor(self, on):
        if not self.codes:
            return
        M, T = sys.monitoring, _TOOL
        E = M.events.INSTRUCTION if self.opcodes else M.events.LINE
        if on:
            if M.get_tool(T) is None:
                M.use_tool_id(T, "dst")
            M.register_callback(T, E, self._on_instruction if self.opcodes else self._on_line)
            for c in self.codes:
                M.set_local_events(T, c, E)
        else:
            for c in self.codes:
                M.set_local_events(T, c, 0)
            M.register_callback(T, E, None)

    # running ------------------------------------------------------------------
    def run(self, *mains, wall_limit=120.0):
        """Run the given (name, function) tasks.

        The run ends when every task is done, when nothing can run any more (a
        deadlock unless all of `mains` are done: then what is left is listed in
        `leftover`), or at the step limit.  What is left is killed.
        """
        global CURRENT
        if CURRENT is not None:
            raise HarnessError("nested simulation")
        CURRENT = self
        try:
            self._monitor(True)
            tasks = [self.spawn(fn, name) for name, fn in mains]
            self._crit = tasks
            first = self.choose(tasks, 0, "sync")
            tasks[first].go.release()
            ok = self.done.acquire(True, wall_limit)
            if not ok:
                raise HarnessError("simulation did not return the baton within %gs wall" % wall_limit)
        finally:
            try:
                self._teardown()
            finally:
                self._monitor(False)
                CURRENT = None
        return self

    def _teardown(self):
        self.killing = True
        for t in self.tasks:
            if t.state != "done" or not t.finished:
                t.state = "ready"
                try:
                    t.go.release()
                except RuntimeError:
                    pass
            if not t.real_done.acquire(True, 20.0):
                raise HarnessError("task %s does not stop" % t.name)
        _tasks_by_ident.clear()

    def digest(self):
        return self.hash.hexdigest()

    @property
    def elapsed(self):
        return self.now - self.start_time
