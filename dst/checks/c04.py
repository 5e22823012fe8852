"""C04: live figures under every schedule of producer and display."""
from .. import world
from .live import LiveRun, gen_base, shows


class C04(object):
    RUNS = {"quick": 16000, "thorough": 250000}
    FIXED = ("shape", "data", "player", "fail_kind", "dtype")
    RULE = ("random live session with 1-4 figures (video, fft, difference; random options) under play, play_threaded, a prefetch thread or no display at all, "
            "with delays, display stalls, failures and abandonment x seeded schedule; non-trivial: at least one image was drawn")
    DISTINCT = "hash of context switches and of the sequence of (figure, frame) drawn, per run"
    REAL = ["cddm.video.show_video/show_fft/show_diff/figure_title, play, play_threaded, threaded, ImageShow, pause", "cddm.fft._rfft2", "queue.Queue"]
    STUB = ["threading.Lock/RLock, Thread.start/join (scheduler-owned)", "clock and sleep", "window system (cv2, pyqtgraph image view, matplotlib canvas)", "camera"]

    def setup(self):
        world.setup(("cddm.video",))

    def gen(self, rng):
        player = rng.choice(["play", "play", "play_threaded", "play_threaded", "threaded", "none"])
        p = gen_base(rng, player, rng.choice([1, 1, 2, 2, 3, 4]), long=False)
        p["fail_at"] = -1 if rng.random() < 0.8 else p["fail_at"]
        if p["fail_at"] >= 0 and p["src"] == "list":
            p["src"] = "gen"
        p["dtype"] = rng.choice(["float64", "float64", "uint8", "big", "complex128"])
        if p["dtype"] == "complex128":
            p["stages"] = [s for s in p["stages"] if s["kind"] != "fft"]
        if player == "play":
            p["bg"] = rng.choice(["none", "none", "before", "after"])
            p["max_delay"] = rng.choice([0.001, 0.1, 5.0])
        elif player == "play_threaded":
            p["fps"] = rng.choice([None, 5.0, 100.0])
            p["bg"] = rng.choice(["none", "none", "none", "before"])
        return p

    def execute(self, plan, seed, decisions=None):
        L = LiveRun(plan, seed, decisions, fair_after=30000, max_steps=120000)
        r = L.r
        L.check_delivery()
        by_title = L.check_images()
        L.check_drawn()
        nst = len(plan["stages"])
        if len(by_title) > nst:
            r.bad("too-many-figures", "%r for %d stages" % (sorted(by_title), nst))
        if plan["player"] in ("none", "threaded") and by_title:
            r.bad("drawn-without-player", repr(sorted(by_title)))
        if plan["player"] == "play" and plan["max_delay"] >= 5.0 and L.got and not L.sim.jumps_fired:
            # the first frame is always in time: every figure with an image for it is drawn
            want = sum(1 for s in plan["stages"] if shows(s, 0))
            first = [s for s in world.DISPLAY.shown if 0 in L.deliv and s[0] < L.deliv[0][0]]
            if len(set(s[2] for s in first)) < want:
                r.bad("figures-mixed", "%d figures drawn for the first frame, %d live stages" % (len(set(s[2] for s in first)), want))
        # at most one image per figure waits: after the last frame left the source at most one more is drawn
        if L.recv and plan["bg"] != "before":
            last = max(L.recv)
            for title in L.drawn:
                si, ks, ims, sure = L.drawn[title]
                # an image waiting when frame k was put must not be older than ...: one slot only
                for a, b, (sa, ta, _), (sb, tb, _2) in zip(ks, ks[1:], ims, ims[1:]):
                    # image a left the slot after the display thread's last event before sa; image b entered afterwards
                    sa = max([e[0] for e in L.sim.log if e[1] == 0 and e[0] < sa] or [-1])
                    nxt = L.recv.get(b + 1)
                    if nxt is not None and nxt[0] < sa and plan["bg"] == "none" and sure and L.unique(si, b):
                        r.bad("more-than-one-waiting", "figure %r: image of frame %d was already waiting when frame %d was drawn" % (title, b, a))
                        break
        for title in sorted(L.drawn):
            si, ks, ims, sure = L.drawn[title]
            if ks and max(ks) > len(ks) - 1:
                r.count("probe:figure_skipped_frames")
        drawn = [(t, L.drawn[t][1]) for t in sorted(L.drawn)]
        r = L.finish()
        r.nontrivial = bool(drawn)
        r.key = world.digest(r.key, drawn)
        return r


CHECK = C04()
