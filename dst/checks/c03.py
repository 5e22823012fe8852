"""C03: video.play under every combination of delays and clock behaviour."""
from .. import world
from .live import LiveRun, gen_base, shows


class C03(object):
    RUNS = {"quick": 16000, "thorough": 250000}
    FIXED = ("shape", "data", "player", "fail_kind", "dtype")
    RULE = ("random playback (0-20 frames, 0-3 live figures, fps, max_delay, delays/stalls of camera, display, consumer, clock jumps, source failure, abandonment, "
            "optionally with a prefetch thread, figures that register during playback included); non-trivial: at least one frame was delivered")
    DISTINCT = "hash of the plan's timing outcome: which frames were drawn and the context switches, per run"
    REAL = ["cddm.video.play, threaded, show_video/show_fft/show_diff, ImageShow, pause", "queue.Queue"]
    STUB = ["clock and sleep", "window system (cv2, pyqtgraph image view, matplotlib canvas)", "camera", "threading.Lock/RLock, Thread.start/join (scheduler-owned)"]

    def setup(self):
        world.setup(("cddm.video",))

    def gen(self, rng):
        p = gen_base(rng, "play", rng.choice([0, 1, 1, 2, 3]))
        p["bg"] = rng.choice(["none", "none", "none", "before", "after"])
        return p

    def execute(self, plan, seed, decisions=None):
        L = LiveRun(plan, seed, decisions, fair_after=10000, max_steps=40000 + 1000 * plan["n"])
        L.check_delivery()
        L.check_figures_cleared()
        r = L.r
        if plan["bg"] == "none" and plan["src"] != "list":
            if L.ahead > 0:
                r.bad("reads-ahead", "the source was read %d frame(s) ahead of delivery" % L.ahead)
        shown = list(world.DISPLAY.shown)
        drawn_at = []
        if plan["bg"] == "none" and plan["src"] != "list" and not L.sim.jumps_fired and L.recv:
            t0 = L.recv[0][1]
            fps, md = plan["fps"], plan["max_delay"]
            tol = 2e-4
            for i in sorted(L.recv):
                seq_i, t_i = L.recv[i]
                end = L.deliv.get(i, (10 ** 12, 0))[0]
                during = [s for s in shown if seq_i < s[0] < end]
                if during:
                    drawn_at.append(i)
                    if t_i - t0 >= i / fps + md + tol:
                        r.bad("draws-when-late", "frame %d: %.4fs after start, limit %.4fs" % (i, t_i - t0, i / fps + md))
                elif i in L.deliv and t_i - t0 < i / fps + md - tol:
                    always = [s for s in plan["stages"] if shows(s, i)]
                    if always:
                        r.bad("not-drawn-in-time", "frame %d: %.4fs after start, limit %.4fs, nothing drawn" % (i, t_i - t0, i / fps + md))
                if i in L.deliv and during:
                    titles = [s[2] for s in during]
                    if len(set(titles)) != len(titles):
                        r.bad("drawn-twice", "frame %d: figures %r" % (i, titles))
                    always = [s for s in plan["stages"] if shows(s, i)]
                    if len(titles) < len(always):
                        r.bad("figure-not-drawn", "frame %d: %d of %d figures with a new image drawn" % (i, len(titles), len(always)))
                if i in L.deliv and plan["stages"] and not during:
                    r.count("probe:drawing_skipped")
        L.check_updated()
        r = L.finish()
        r.key = world.digest(r.key, drawn_at, len(shown), len(L.got))
        return r


CHECK = C03()
