"""C13: VideoViewer under event histories."""
import numpy as np
from .. import world, sched
from ..runner import Result, InvalidPlan
from .c01 import Source, as_generator

OPS = ("next", "next", "next2", "prev", "prev2", "play", "play", "ff", "stop", "slide", "slide", "drag")
LAZY = ("iter", "gen", "threaded", "again")
TRACE = ("cddm/video.py",)


class Leave(BaseException):
    """Leaves a playback loop after a violation."""


class Tap(object):
    """What the viewer takes from an iterate-only source. The source may fail
    once (and go on), or for good."""
    def __init__(self, src, log):
        self.src, self.log = iter(src), log

    def __iter__(self):
        return self

    def __next__(self):
        try:
            x = next(self.src)
        except StopIteration:
            self.log["ended"] = True
            raise
        except BaseException:
            self.log["errors"] += 1
            raise
        self.log["delivered"] += 1
        return x


class Again(object):
    """A video that can not be indexed, but starts from the beginning each time
    it is iterated over."""
    def __init__(self, start):
        self.start = start

    def __iter__(self):
        return self.start()


class Indexable(object):
    """A video on disk: frames are read when asked for, some can not be."""
    def __init__(self, sim, frames, delays, bad, once, failure, log):
        self.sim, self.frames, self.delays, self.bad, self.once, self.failure, self.log = sim, frames, delays, set(bad), once, failure, log
        self.k = 0

    def __len__(self):
        return len(self.frames)

    def __getitem__(self, i):
        self.k += 1
        d = world.delay(self.delays, self.k)
        if d:
            self.sim.sleep(d, "disk")
        if i in self.bad:
            if self.once:
                self.bad.discard(i)
            self.log["errors"] += 1
            self.sim.count("fault:source_exception")
            raise self.failure
        return self.frames[i]


def make_video(p):
    rs = np.random.RandomState(p["data"])
    n, shape = p["avail"], tuple(p["shape"])
    ncam = p["ncam"]
    out = []
    for k in range(n):
        fr = []
        for c in range(ncam):
            x = rs.rand(*shape) * 0.5
            x[0, 0] = 1 + k
            x[0, 1] = 1 + c
            fr.append(x + 1j * rs.rand(*shape) if p["complex"] else x)
        out.append(fr)
    return out


class Session(object):
    """A user with a VideoViewer."""
    def __init__(self, check, p, seed, decisions):
        self.check, self.p, self.r = check, p, Result()
        self.sim = world.make_sim(p, seed, decisions, TRACE, fair_after=20000, max_steps=400000)
        self.flat = p["src"] in ("flat", "array")
        self.cam = 0 if self.flat or not p["cam"] else p["ncam"] - 1
        self.lazy = p["src"] in LAZY
        self.dead = p["src"] not in ("iter", "again") or not p["once"]        # nothing follows a failure
        self.video = make_video(p)
        self.log = dict(errors=0, delivered=0, ended=False)
        self.failure = world.FAILURES[p["fail_kind"]](0)
        self.images = [self.image(f[self.cam]) for f in self.video]
        self.lookup = {im.tobytes(): k for k, im in enumerate(self.images)}
        self.inject = {}
        for e in p["inject"]:
            self.inject.setdefault(e[0], []).append(e[1:])
        self.v = None
        self.pauses = self.draws = self.budget = self.top = self.shown = self.seen_errors = 0
        self.moved = self.disturbed = self.touched = self.stale = self.gone = False
        self.until_stop = None
        self.prev = (0, 0)
        self.events = []

    # ---- video
    def image(self, x):
        kind = self.p["norm"]
        return np.abs(x) if kind == "abs" else x.real * 0.5 if kind == "half" else x.real

    def norm(self, x):
        if self.p["norm"] == "fail" and int(x[0, 0].real) - 1 == self.p["norm_at"]:
            self.log["errors"] += 1
            self.sim.count("fault:norm_func")
            raise self.failure
        return self.image(x)

    def build(self):
        from cddm import video as V
        p, sim, video = self.p, self.sim, self.video
        bad = set(p["fail"])
        if self.lazy:
            once = p["once"]

            class Camera(Source):
                """Fails at each position in `bad`, once or always."""
                def __next__(s):
                    s.fail_at = s.k if s.k in bad else -1
                    if once:
                        bad.discard(s.k)
                    return Source.__next__(s)
            frames = [f[0] if p["ncam"] == 1 and not p["cam"] else tuple(f) for f in video]
            src = Camera(sim, frames, p["sd"], -1, self.failure, lambda k: None)
            if p["src"] == "gen":
                src = as_generator(src)
            elif p["src"] == "threaded":
                src = V.threaded(src, p["qs"])
            if p["src"] == "again":
                return Again(lambda: Tap(Camera(sim, frames, p["sd"], -1, self.failure, lambda k: None), self.log))
            return Tap(src, self.log)
        if p["src"] == "list":
            return [list(f) for f in video]
        if p["src"] == "tuple":
            return tuple(tuple(f) for f in video)
        if p["src"] == "flat":
            return [f[0] for f in video]
        if p["src"] == "array":
            return np.array([f[0] for f in video])
        return Indexable(sim, [tuple(f) for f in video], p["sd"], bad, p["once"], self.failure, self.log)

    # ---- display
    def draw(self, *a, **k):
        self.draws += 1
        if self.draws == self.p["draw_fail"] and sched.current_task() is not None and self.v is not None:
            self.log["errors"] += 1
            self.sim.count("fault:display")
            raise RuntimeError("wrapped C/C++ object has been deleted")

    def pause(self, interval):
        if sched.current_task() is None:
            return
        self.pauses += 1
        self.sim.sleep(interval, "pause")
        self.settle("pause %d" % self.pauses)
        if self.until_stop is not None:
            self.until_stop -= 1
            if self.until_stop < 0:
                self.r.bad("not-stopped", "playback goes on for more than one update after Stop")
        self.budget -= 1
        if self.budget < 0:
            self.r.bad("endless", "playback of %d frames does not end, position is %r" % (self.p["count"], self.v.sframe.val))
        if self.r.violations:
            raise Leave()
        for e in self.inject.pop(self.pauses, ()):
            self.sim.count("probe:event_during_playback")
            self.disturbed = True
            self.do(e, "%s during playback" % e[0], True)

    # ---- invariants
    def settle(self, where):
        """Looks at the viewer, which waits for the user."""
        failed = self.log["errors"] > self.seen_errors
        self.seen_errors = self.log["errors"]
        if failed:
            self.stale = True
            self.gone = self.gone or self.dead
        elif self.touched and not self.lazy:
            self.stale = False
        touched, self.touched = self.touched, False
        self.look(where, failed, touched)

    def look(self, where, failed, touched=False):
        r, v, count = self.r, self.v, self.p["count"]
        pos = int(v.sframe.val)
        if not 0 <= pos <= count - 1:
            r.bad("position", "%s: position %r of %d frames" % (where, v.sframe.val, count))
            return
        k = self.lookup.get(np.asarray(v.img.get_array()).tobytes())
        if k is None:
            r.bad("image", "%s: the image shown is not a frame of the video (camera %d)" % (where, self.cam))
            return
        if self.lazy:
            top, taken = self.top, self.log["delivered"] - 1
            if k < self.shown:
                r.bad("image", "%s: frame %d shown after frame %d" % (where, k, self.shown))
            elif taken > top:
                r.bad("skipped", "%s: %d frames taken from the source, highest position so far is %d" % (where, taken + 1, top))
            elif not failed and taken < min(top, len(self.images) - 1) and not self.gone and not self.stale:
                r.bad("image", "%s: position %d was reached, but only %d frames were read" % (where, top, taken + 1))
            elif not failed and k != taken and not self.stale:
                r.bad("skipped", "%s: frame %d shown, although frame %d was taken from the source" % (where, k, taken))
            elif touched and not failed and not self.gone and taken < min(pos, len(self.images) - 1):
                r.bad("image", "%s: at position %d, but only %d frames were read" % (where, pos, taken + 1))
            if k == taken:
                self.stale = self.stale and taken < min(top, len(self.images) - 1)
            self.shown = max(k, self.shown)
        elif not failed and not self.stale and k != pos:
            r.bad("image", "%s: position %d, but frame %d is shown" % (where, pos, k))
        self.moved = self.moved or (k, pos) != self.prev
        self.prev = (k, pos)

    # ---- events
    def do(self, e, where, nested=False):
        op, x, y = e
        r, v, count = self.r, self.v, self.p["count"]
        before, val = self.log["errors"], v.sframe.val
        # from any position to the end it takes at most max(count, 100) updates
        self.budget = max(count, 100) + 3
        if op == "stop":
            if nested or v.playing:
                self.until_stop = 1
        elif op in ("play", "ff"):
            self.until_stop = None
        self.events.append((op, self.pauses))
        error = None
        try:
            self.check.event(v, op, x, y)
        except Exception as ex:
            if isinstance(ex, sched.HarnessError):
                raise
            error = ex
            if self.log["errors"] == before:
                r.bad("event-raised", "%s: %s: %s" % (where, type(ex).__name__, ex))
                return
            self.sim.count("probe:error_reached_the_user")
        failed = self.log["errors"] > before
        if op not in ("play", "ff", "stop") or not nested:
            self.settle(where)
        if failed or error is not None or r.violations:
            return
        now = v.sframe.val
        if op == "next":
            ok = now == min(val + 1, count - 1)
        elif op == "prev":
            ok = now == max(val - 1, 0)
        elif op == "next2":
            ok = now == min(val + v.step, count - 1)
        elif op == "prev2":
            ok = now == max(val - v.step, 0)
        elif op in ("slide", "drag"):
            ok = abs(now - (x if op == "slide" else y) * (count - 1)) < 0.51
        elif op in ("play", "ff") and not nested:
            if v.playing:
                r.bad("not-stopped", "%s returned, but the viewer still plays" % where)
            ok = self.disturbed or now + (1 if op == "play" else count / 100.0) > count - 1e-6
        else:
            ok = True
        if not ok:
            r.bad("not-responsive", "%s: position went from %r to %r (%d frames, step %r)" % (where, val, now, count, v.step))

    def user(self):
        from cddm import viewer as W
        p = self.p
        kw = {"norm_func": self.norm} if p["norm"] != "default" else {}
        src = self.build()
        args = (src, p["count"]) if p["give"] else (src,)
        v = W.VideoViewer(*args, id=self.cam, title="t", **kw)
        self.v = v
        process = v.sframe._observers.process

        def changed(*a, **k):
            self.touched = True
            self.top = max(self.top, int(v.sframe.val))
            if not self.lazy and int(v.sframe.val) >= p["avail"]:
                self.log["errors"] += 1                # there is no such frame
            return process(*a, **k)
        v.sframe._observers.process = changed
        self.look("at start", False)
        for k, e in enumerate(p["events"]):
            if self.r.violations:
                break
            self.disturbed = False
            try:
                self.do(e, "event %d (%s)" % (k, e[0]))
            except Leave:
                break
            self.until_stop = None
            self.sim.event("did", op=e[0], val=float(v.sframe.val), shown=self.shown)


class C13(object):
    RUNS = {"quick": 3500, "thorough": 40000}
    HANG_S = 120.0
    FIXED = ("data", "shape", "ncam", "complex", "src", "norm")
    RULE = ("video of 1 to 300 frames (lists of arrays, lists or tuples of tuples, 3-D array, frames read on demand, iterator, generator, prefetch thread; announced length shorter, equal or longer "
            "than the video) shown in a VideoViewer; 1 to 14 mouse events (next, previous, skip, play, fast forward, stop, slider press and drag) with up to 6 further events arriving during "
            "playback; a frame that can not be read (once or always), an early end, a normalisation or a display that fails, delays, clock jumps; non-trivial: at least one event changed the position")
    DISTINCT = "hash of source kind, lengths, events with the pause they arrived in, positions and images reached, per run"
    REAL = ["cddm.viewer.VideoViewer", "matplotlib Slider, Button, mouse events and callbacks", "cddm.video.threaded", "cddm.decorators.skip_runtime_error"]
    STUB = ["figure canvas (Agg, drawing replaced by a counter that can fail)", "plt.pause (advances virtual time and delivers pending events)", "video source", "clock, threads (scheduler-owned)"]
    ASSUMPTIONS = ["events are delivered between the operations of the viewer (GUI toolkits call back in the main thread)"]

    def setup(self):
        world.setup(("cddm.video", "cddm.viewer"))
        import matplotlib.pyplot as plt
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        fig, ax = plt.subplots()
        ax.imshow(np.zeros((2, 2)))
        plt.close(fig)
        self.plt, self.canvas = plt, FigureCanvasAgg

    # ------------------------------------------------------------------ plan
    def gen(self, rng):
        count = rng.choice([1, 2, 3, 5, 7, 12, 40, 99, 100, 101, 150, 250, 300])
        avail = count
        k = rng.random()
        if k < 0.15:
            avail = rng.randint(1, count)
        elif k < 0.25:
            avail = count + rng.choice([1, 3, 20])
        src = rng.choice(["list", "tuple", "flat", "array", "disk", "iter", "iter", "gen", "gen", "threaded", "again"])
        fail = []
        if rng.random() < (0.6 if src == "iter" else 0.35) and src in ("disk",) + LAZY:
            fail = [rng.choice([1, avail - 1, rng.randint(0, avail), rng.randint(0, avail)]) for _ in range(rng.choice([1, 1, 2]))]
            fail = [f for f in fail if f > 0]
        nev = rng.randint(1, 14) if count < 100 else rng.randint(1, 6)

        def event():
            return [rng.choice(OPS), rng.choice([0.0, 1.0, 0.5, round(rng.random(), 3)]), round(rng.random(), 3)]
        inject = []
        for _ in range(rng.choice([0, 0, 1, 2, 3, 6])):
            inject.append([rng.choice([1, 2, 3, 5, 10, rng.randint(1, 120)])] + event())
        return dict(count=count, avail=avail, src=src, give=src in LAZY or avail != count or rng.random() < 0.3, data=rng.randrange(1 << 30), shape=rng.choice([[2, 3], [4, 4], [3, 2]]),
                    ncam=rng.choice([1, 1, 2, 3]), complex=rng.random() < 0.3, norm=rng.choice(["default", "default", "abs", "half", "fail"]) if rng.random() < 0.5 else "default",
                    norm_at=rng.randint(1, max(1, avail)), fail=fail, once=rng.random() < (0.75 if src == "iter" else 0.5), fail_kind=rng.choice(["SourceError", "OSError", "ValueError", "MemoryError", "StopAsync"]),
                    draw_fail=rng.randint(1, 40) if rng.random() < 0.1 else -1, events=[event() for _ in range(nev)], inject=inject, qs=rng.choice([0, 1, 3]), cam=rng.random() < 0.5,
                    sd=world.gen_delays(rng, avail), sched=world.gen_sched(rng, 2), jumps=world.gen_jumps(rng, 0.2))

    # --------------------------------------------------------------- one run
    def execute(self, plan, seed, decisions=None):
        p = plan
        if p["count"] < 1 or p["avail"] < 1 or p["ncam"] < 1 or len(p["shape"]) != 2 or min(p["shape"]) < 2:
            raise InvalidPlan("video")
        if any(f <= 0 for f in p["fail"]) or p["norm_at"] < 1:
            raise InvalidPlan("first frame")
        if not p["give"] and (p["avail"] != p["count"] or p["src"] in LAZY):
            raise InvalidPlan("count")
        s = Session(self, p, seed, decisions)
        plt = self.plt
        saved = plt.pause, self.canvas.draw, self.canvas.draw_idle
        plt.pause, self.canvas.draw, self.canvas.draw_idle = s.pause, s.draw, s.draw
        try:
            s.sim.run(("user", s.user))
        finally:
            plt.pause, self.canvas.draw, self.canvas.draw_idle = saved
            plt.close("all")
            s.v = None
        r, sim = s.r, s.sim
        r.take(sim)
        if sim.failure is not None:
            r.bad("no-progress", str(sim.failure))
        for name, tb in sim.thread_exceptions:
            if name == "user":
                if "HarnessError" in tb or "/cddm/" not in tb:
                    raise sched.HarnessError(tb)
                r.bad("unexpected-exception", tb[-1200:])
        if p["avail"] < p["count"]:
            r.count("fault:early_end")
        r.count("probe:events", len(s.events))
        r.count("probe:source_" + p["src"])
        r.count("probe:display_updates", s.pauses)
        r.key = world.digest(p["src"], p["avail"], p["count"], p["fail"], s.events, s.prev, s.shown)
        r.nontrivial = s.moved
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), s.events, s.prev, s.draws, [x["kind"] for x in r.violations])
        r.trace = ["%d %s %s %r" % e for e in sim.log]
        return r


    def event(self, v, op, x, y):
        """The mouse events of a user, through matplotlib."""
        from matplotlib.backend_bases import MouseEvent
        canvas = v.fig.canvas

        def mouse(kind, ax, fx):
            b = ax.bbox
            if ax is v.axframe:
                x0 = ax.transData.transform((fx * v.sframe.valmax, 0.5))[0]
                px = min(max(x0, b.x0 + 1e-6), b.x1 - 1e-6)
            else:
                px = b.x0 + b.width * 0.5
            MouseEvent(kind, canvas, px, b.y0 + b.height * 0.5, None if kind == "motion_notify_event" else 1)._process()
        if op in ("slide", "drag"):
            mouse("button_press_event", v.axframe, x)
            try:
                if op == "drag":
                    mouse("motion_notify_event", v.axframe, y)
            finally:
                mouse("button_release_event", v.axframe, y if op == "drag" else x)
            return
        ax = dict(next=v.axnext, next2=v.axnext2, prev=v.axprev, prev2=v.axprev2, play=v.axplay, ff=v.axfast, stop=v.axstop)[op]
        mouse("button_press_event", ax, 0.5)
        mouse("button_release_event", ax, 0.5)


CHECK = C13()
