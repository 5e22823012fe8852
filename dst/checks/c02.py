"""C02: video.play_threaded under every schedule, fps, display and clock."""
from .. import world
from .live import LiveRun, gen_base


class C02(object):
    RUNS = {"quick": 16000, "thorough": 60000}
    FIXED = ("shape", "data", "player", "fail_kind", "dtype")
    RULE = ("random live session (0-20 frames, 0-2 live figures, fps or none, delays/stalls of camera, display and consumer, clock jumps, source failure, "
            "abandonment) x seeded schedule; non-trivial: at least one frame was delivered")
    DISTINCT = "hash of the sequence of context switches (from, to, code location), per run"
    REAL = ["cddm.video.play_threaded, show_video/show_fft/show_diff, ImageShow, pause", "queue.Queue", "OS threads (one at a time)"]
    STUB = ["threading.Lock/RLock, Thread.start/join (scheduler-owned)", "clock and sleep", "window system (cv2, pyqtgraph image view, matplotlib canvas)", "camera"]
    ASSUMPTIONS = ["preemption is explored at line or bytecode granularity inside cddm/video.py and at every lock/clock/thread operation"]

    def setup(self):
        world.setup(("cddm.video",))

    def gen(self, rng):
        p = gen_base(rng, "play_threaded", rng.choice([0, 1, 1, 2]))
        p["fps"] = rng.choice([None, None, 5.0, 30.0, 100.0, 1000.0])
        if p["fps"] is not None and rng.random() < 0.05:    # without fps the player polls all the time
            p["sd"] = [0.0] * max(1, min(p["n"], 10))
            p["sd"][rng.randrange(len(p["sd"]))] = rng.choice([1.2, 3.0, 11.0, 35.0, 70.0])
        return p

    def execute(self, plan, seed, decisions=None):
        L = LiveRun(plan, seed, decisions, fair_after=30000, max_steps=120000 + 1000 * plan["n"])
        L.check_delivery()
        L.check_figures_cleared()
        L.check_drawn()
        L.check_updated()
        L.r.count("probe:fps_none" if plan["fps"] is None else "probe:fps_set")
        return L.finish()


CHECK = C02()
