"""Shared pieces of the checks: imports behind the seams, display stub, sources."""
import sys, types, hashlib, random, os, io, contextlib
from . import seams, sched
from .sched import Sim, current_sim, current_task

REPO = os.environ.get("DST_REPO", "/repo")


class SourceError(Exception):
    """Failure injected into a video source."""


FAILURES = {
    "SourceError": lambda k: SourceError("camera failed at %d" % k),
    "OSError": lambda k: OSError(5, "I/O error at %d" % k),
    "ValueError": lambda k: ValueError("bad frame %d" % k),
    "MemoryError": lambda k: MemoryError("no buffer for %d" % k),
    "StopAsync": lambda k: RuntimeError("generator raised at %d" % k),
    "KeyboardInterrupt": lambda k: KeyboardInterrupt("stopped at %d" % k),
    "SystemExit": lambda k: SystemExit("driver exits at %d" % k),
}
ORDINARY = ["MemoryError", "OSError", "SourceError", "StopAsync", "ValueError"]


def quiet():
    """Standard output goes nowhere."""
    return contextlib.redirect_stdout(io.StringIO())


# --------------------------------------------------------------- display stub

class Display(object):
    """What a window system would have done: images drawn, windows closed."""
    def __init__(self):
        self.reset()

    def reset(self, show_cost=(), wait_cost=(), fail_at=-1):
        self.shown = []        # (event seq, virtual time, title, image copy)
        self.waits = 0
        self.windows = []      # titles of windows opened (pyqtgraph, matplotlib)
        self.updates = []      # event seq at each call that lets the window system update
        self.closed = []
        self.show_cost = list(show_cost)
        self.wait_cost = list(wait_cost)
        self.fail_at = fail_at


DISPLAY = Display()


def _imshow(title, im):
    sim = current_sim()
    import numpy as np
    t = current_task()
    if t is None:
        DISPLAY.shown.append((0, 0.0, title, np.array(im)))
        return
    n = len(DISPLAY.shown)
    sim.event("shown", title=title, n=n)
    DISPLAY.shown.append((sim.seq, sim.now, title, np.array(im)))
    if DISPLAY.show_cost:
        sim.sleep(DISPLAY.show_cost[n % len(DISPLAY.show_cost)], "imshow")


def _waitkey(ms=0):
    t = current_task()
    DISPLAY.waits += 1
    if t is None:
        return -1
    sim = t.sim
    DISPLAY.updates.append(sim.seq)
    extra = 0.0
    if DISPLAY.wait_cost:
        extra = DISPLAY.wait_cost[DISPLAY.waits % len(DISPLAY.wait_cost)]
    sim.sleep(max(ms, 1) / 1000.0 + extra, "waitKey")
    return -1


def _destroy(title):
    DISPLAY.closed.append(title)


def install_display():
    cv2 = types.ModuleType("cv2")
    cv2.imshow, cv2.waitKey, cv2.destroyWindow = _imshow, _waitkey, _destroy
    cv2.destroyAllWindows = lambda: None
    cv2.__version__ = "0.stub"
    sys.modules["cv2"] = cv2


class _Window(object):
    def destroy(self):
        DISPLAY.closed.append(self)


class _ImageView(object):
    """pyqtgraph.ImageView"""
    def __init__(self, im, title):
        self.title, self.win = title, _Window()
        DISPLAY.windows.append(title)
        self.setImage(im)

    def setImage(self, im, *a, **k):
        _imshow(self.title, im)

    def window(self):
        return self.win

    def show(self):
        pass


class _App(object):
    """QApplication"""
    def processEvents(self, *a):
        _waitkey(1)


@contextlib.contextmanager
def shown_with(lib):
    """Selects the display library and puts the stub of its window system in place."""
    import cddm.conf
    undo = []

    def put(obj, name, value):
        undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)
    if lib == "pyqtgraph":
        import pyqtgraph
        from pyqtgraph.Qt import QtWidgets
        app = _App()
        put(pyqtgraph, "image", lambda im, title="", **k: _ImageView(im, title))
        put(pyqtgraph, "mkQApp", lambda *a, **k: app)
        put(QtWidgets.QApplication, "instance", staticmethod(lambda: app))
    elif lib == "matplotlib":
        import matplotlib.pyplot as plt
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        seen = {}

        canvases = {}

        def draw(canvas):
            for ax in canvas.figure.axes:
                for im in ax.images:
                    if id(canvas) not in canvases:
                        canvases[id(canvas)] = canvas
                        DISPLAY.windows.append(ax.get_title())
                    a = im.get_array()
                    if seen.get(id(im), (None, None))[1] is not a:
                        seen[id(im)] = (im, a)
                        _imshow(ax.get_title(), a)
        put(FigureCanvasAgg, "draw", draw)
        put(FigureCanvasAgg, "draw_idle", draw)
        put(plt, "pause", lambda interval: _waitkey(interval * 1000))
    before = cddm.conf.CDDMConfig.showlib
    cddm.conf.set_showlib(lib)
    try:
        yield
    finally:
        for obj, name, value in reversed(undo):
            setattr(obj, name, value)
        cddm.conf.set_showlib(before)
        if lib == "matplotlib":
            plt.close("all")


def compile_atomically():
    """Just-in-time compilation happens once per process and type: it takes no
    simulated time and is not interrupted, or runs would depend on history."""
    from numba.core.dispatcher import _DispatcherBase as D
    real = D._compile_for_args

    def _compile_for_args(self, *args, **kw):
        t = current_task()
        if t is None:
            return real(self, *args, **kw)
        t.sim.atomic += 1
        try:
            return real(self, *args, **kw)
        finally:
            t.sim.atomic -= 1
    D._compile_for_args = _compile_for_args


_ready = False

def setup(modules=("cddm.video",), display=True):
    """Install the seams, then import the code under test."""
    global _ready
    if not _ready:
        if set(modules) & {"cddm.core", "cddm.multitau", "cddm.sim", "cddm.viewer"}:
            from . import warm
            warm.run()
        import concurrent.futures, logging, queue, threading, warnings   # noqa: before the seams
        import numpy, matplotlib                                            # noqa
        matplotlib.use("Agg")
        import matplotlib.pyplot                                            # noqa
        import numba                                                        # noqa
        seams.install()
        compile_atomically()
        if display:
            install_display()
        warnings.simplefilter("ignore")
        _ready = True
    import importlib
    for m in modules:
        mod = importlib.import_module(m)
        f = os.path.realpath(mod.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise sched.HarnessError("%s comes from %s, not from %s" % (m, f, REPO))
    if display:
        import cddm.conf
        cddm.conf.set_showlib("cv2")


TRACE_VIDEO = ("cddm/video.py",)


# ---------------------------------------------------------------- schedules

def gen_sched(rng, ntasks=2):
    kind = rng.choice(["random", "random", "random", "pct", "starve", "sync"])
    s = dict(kind=kind, p_line=rng.choice([0.0, 0.02, 0.1, 0.3, 0.6]), p_sync=rng.choice([0.1, 0.4, 0.8]),
             p_timer=rng.choice([0.0, 0.05, 0.3, 0.8]))
    if kind == "sync":
        s["kind"], s["p_line"] = "random", 0.0
    if kind == "pct":
        s["points"] = sorted(rng.sample(range(1, 600), rng.choice([1, 2, 3, 6, 12])))
    if kind == "starve":
        s["victim"] = rng.randrange(max(1, ntasks))
    return s


def gen_delays(rng, n):
    """A delay pattern: none, uniform, one long stall, bursts."""
    k = rng.choice(["none", "none", "uniform", "stall", "burst"])
    if k == "none":
        return []
    if k == "uniform":
        d = rng.choice([0.001, 0.01, 0.05])
        return [d]
    if k == "stall":
        out = [0.0] * max(1, min(n, 12))
        out[rng.randrange(len(out))] = rng.choice([0.5, 3.0, 30.0])
        return out
    return [rng.choice([0.0, 0.0, 0.002, 0.02, 0.2]) for _ in range(rng.randint(2, 6))]


def gen_jumps(rng, p=0.4):
    if rng.random() > p:
        return {}
    return {str(rng.randint(1, 30)): rng.choice([-3600.0, -5.0, -0.3, 0.2, 4.0, 3600.0]) for _ in range(rng.randint(1, 3))}


def delay(d, k):
    return d[k % len(d)] if d else 0.0


def make_sim(plan, seed, decisions, trace_files, **kw):
    return Sim(seed=seed, decisions=decisions, sched=plan.get("sched"), trace_files=trace_files if plan.get("trace", True) else (),
               opcodes=bool(plan.get("opcodes")), clock_jumps=plan.get("jumps") or {}, **kw)


def digest(*parts):
    h = hashlib.blake2b(digest_size=12)
    for p in parts:
        h.update(repr(p).encode())
        h.update(b"|")
    return h.hexdigest()


def same_error(e, injected):
    """Is e the injected exception (possibly re-raised with it as the cause)?"""
    if injected is None:
        return False
    x = e
    for _ in range(5):
        if x is injected:
            return True
        if type(x) is type(injected) and x.args == injected.args:
            return True
        x = x.__cause__ if x is not None else None
        if x is None:
            return False
    return False
