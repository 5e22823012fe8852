"""Shared execution of live-display pipelines (C02, C03, C04)."""
import itertools
import numpy as np
from .. import world, sched
from ..runner import Result, InvalidPlan
from .c01 import Source, as_generator


def make_frames(n, ncam, shape, seed, dtype="float64"):
    rs = np.random.RandomState(seed)
    out = []
    for k in range(n):
        if dtype == "complex128":
            out.append(tuple((rs.rand(*shape) + 1j * rs.rand(*shape)) * 0.9 + 0.05 for c in range(ncam)))
        elif dtype == "uint8":
            out.append(tuple(rs.randint(1, 255, size=shape).astype("uint8") for c in range(ncam)))
        elif dtype == "big":
            out.append(tuple(rs.rand(*shape) * 200 + 5 for c in range(ncam)))
        else:
            out.append(tuple(rs.rand(*shape) * 0.9 + 0.05 for c in range(ncam)))
    return out


# ---- what each live figure should show (independent of cddm)

def ref_fft(im, clip, mode):
    f = np.fft.rfft2(im)
    f = {"real": f.real, "imag": f.imag, "abs": np.abs(f)}[mode].copy()
    f[0, 0] = 0
    c = f.max() if clip is None else clip
    f = f / c if mode == "abs" else f / (c * 2) + 0.5
    return np.fft.fftshift(np.clip(f, 0, 1), 0)


def backend(im):
    m = im.max()
    return im / m if m > 1 else im


def shows(st, k):
    """Does the stage have an image for frame k?"""
    return k >= st.get("late", 0) and (st["kind"] != "diff" or st["dt"] is None or abs(st["t2"][k] - st["t1"][k]) in st["dt"])


def stage_images(st, frames, lib="cv2"):
    """Expected image for every frame of the video, None where the stage shows none."""
    out = []
    for k, fr in enumerate(frames):
        if k < st.get("late", 0):       # the figure does not exist yet
            out.append(None)
            continue
        if st["kind"] == "video":
            im = fr[st["id"]].real
            if st.get("norm") == "half":
                im = im * 0.5
        elif st["kind"] == "fft":
            im = ref_fft(fr[st["id"]], st["clip"], st["mode"])
        else:
            x, y = fr[0].real, fr[1].real
            if st["dt"] is not None and abs(st["t2"][k] - st["t1"][k]) not in st["dt"]:
                out.append(None)
                continue
            if st["normalize"]:
                x, y = x / x.mean(), y / y.mean()
            m = 2 * max(x.max(), y.max())
            im = x / m - y / m + 0.5
        out.append(backend(im) if lib == "cv2" else im)
    return out


def from_frame(k, video, stage):
    """A video whose frames go through a live display stage from frame k on: its figure
    registers during playback."""
    video = iter(video)
    yield from itertools.islice(video, k)
    yield from stage(video)


def gen_stage(rng, ncam, n, i):
    kinds = ["video", "video", "fft"] + (["diff"] if ncam == 2 else [])
    kind = rng.choice(kinds)
    st = dict(kind=kind, id=rng.randrange(ncam), title=rng.choice([None, None, None, "mine-%d" % i]))
    if rng.random() < 0.12 and n > 1:
        st["late"] = rng.randint(1, min(n, 6))
    if kind == "video":
        st["norm"] = rng.choice(["", "", "half"])
    elif kind == "fft":
        st["clip"] = rng.choice([None, None, 3.0])
        st["mode"] = rng.choice(["abs", "real", "imag"])
    else:
        st["normalize"] = rng.random() < 0.5
        st["dt"] = None
        if rng.random() < 0.4:
            st["dt"] = rng.sample([0, 1, 2, 3], rng.randint(1, 3))
            st["t1"] = [rng.randint(0, 3) + 4 * k for k in range(n)]
            st["t2"] = [rng.randint(0, 3) + 4 * k for k in range(n)]
    return st


def build_stages(video, stages):
    for st in stages:
        k = st.get("late", 0)
        video = from_frame(k, video, lambda v, st=st: build_stage(v, st)) if k else build_stage(video, st)
    return video


def build_stage(video, st):
    from cddm import video as V
    if st["kind"] == "video":
        if st.get("norm") == "half":
            video = V.show_video(video, id=st["id"], title=st["title"], norm_func=lambda im: im.real * 0.5)
        else:
            video = V.show_video(video, id=st["id"], title=st["title"])
    elif st["kind"] == "fft":
        video = V.show_fft(video, id=st["id"], title=st["title"], clip=st["clip"], mode=st["mode"])
    elif st["dt"] is None:
        video = V.show_diff(video, title=st["title"], normalize=st["normalize"])
    else:
        video = V.show_diff(video, title=st["title"], normalize=st["normalize"], dt=st["dt"], t1=st["t1"][st.get("late", 0):], t2=st["t2"][st.get("late", 0):])
    return video


class LiveRun(object):
    """One simulated live session; fields are what the oracles look at."""

    def __init__(self, plan, seed, decisions, **kw):
        from cddm import video as V
        self.plan, self.r = plan, Result()
        n, ncam = plan["n"], plan["ncam"]
        if plan["src"] == "list" and plan["fail_at"] >= 0:
            raise InvalidPlan("a list cannot fail")
        for st in plan["stages"]:
            if st["kind"] == "diff" and (ncam < 2 or (st["dt"] is not None and len(st["t1"]) < n or st["dt"] is not None and len(st["t2"]) < n)):
                raise InvalidPlan("diff")
            if st["id"] >= ncam:
                raise InvalidPlan("camera")
        self.frames = make_frames(n, ncam, tuple(plan["shape"]), plan["data"], plan.get("dtype", "float64"))
        self.copies = [tuple(f.copy() for f in fr) for fr in self.frames]
        self.bare = bool(plan.get("bare")) and not plan["stages"]       # a video of bare arrays
        self.items = [fr[0] for fr in self.frames] if self.bare else self.frames
        self.failure = world.FAILURES[plan["fail_kind"]](plan["fail_at"]) if 0 <= plan["fail_at"] <= n else None
        self.expected = n if self.failure is None else plan["fail_at"]
        self.sim = sim = world.make_sim(plan, seed, decisions, world.TRACE_VIDEO, **kw)
        self.got, self.ended = [], None
        self.pulls, self.ahead = 0, 0
        self.recv = {}          # frame -> (seq, time) when it left the source
        self.deliv = {}         # frame -> (seq, time) when it reached the consumer
        self.start_deliv = None
        self.closed_seq = None
        V._FIGURES.clear()
        world.DISPLAY.reset(plan.get("show", ()), plan.get("wait", ()))

        def on_pull(k):
            self.pulls = max(self.pulls, k + 1)
            self.ahead = max(self.ahead, k - len(self.got))

        def source():
            if plan["src"] == "list":
                return self.items
            s = Source(sim, self.items, plan["sd"], plan["fail_at"], self.failure, on_pull)
            return self.tap(as_generator(s) if plan["src"] == "gen" else s)

        def main():
            v = source()
            bg = plan.get("bg", "none")
            if bg == "before":
                v = V.threaded(v, plan.get("qs", 0))
            v = build_stages(v, plan["stages"])
            if bg == "after":
                v = V.threaded(v, plan.get("qs", 0))
            if plan["player"] == "play":
                v = V.play(v, fps=plan["fps"], max_delay=plan["max_delay"])
            elif plan["player"] == "play_threaded":
                v = V.play_threaded(v, fps=plan["fps"])
            elif plan["player"] == "threaded":
                v = V.threaded(v, plan.get("qs", 0))
            it = iter(v)
            while True:
                if plan["stop_after"] >= 0 and len(self.got) >= plan["stop_after"]:
                    self.ended = "stopped"
                    before = dict(V._FIGURES)
                    getattr(it, "close", lambda: None)()
                    break
                try:
                    x = next(it)
                except StopIteration:
                    self.ended = "end"
                    break
                except (Exception, KeyboardInterrupt, SystemExit) as e:
                    self.ended = e
                    break
                k = len(self.got)
                self.got.append(x)
                sim.event("consume", k=k)
                self.deliv[k] = (sim.seq, sim.now)
                d = world.delay(plan["cd"], k)
                if d:
                    sim.sleep(d, "analysis")
            sim.event("closed")
            self.closed_seq = sim.seq
            self.figures_left = sorted(V._FIGURES)
            if self.ended == "stopped" and (plan["player"] == "play_threaded" or bg == "after"):
                # a background thread may still open a figure of its own afterwards
                self.figures_left = [t for t in self.figures_left if V._FIGURES[t] is before.get(t)]

        self.figures_left = None
        with world.shown_with(plan.get("lib", "cv2")):
            sim.run(("consumer", main))
            V._FIGURES.clear()
        self.r.take(sim)

    def tap(self, it):
        """Records when each frame leaves the source."""
        k = 0
        for x in it:
            self.recv[k] = (self.sim.seq, self.sim.now)
            k += 1
            yield x

    # ------------------------------------------------------------- oracles
    def check_delivery(self):
        r, sim, got, n = self.r, self.sim, self.got, self.expected
        if sim.failure is not None and self.ended is None:
            r.bad("no-progress", "%s; delivered %d of %d" % (sim.failure, len(got), n))
        for k, x in enumerate(got):
            if k >= n or x is None:
                r.bad("extra-item", "item %d is %r, the source has %d frames" % (k, x, n))
                break
            ref = self.copies[k]
            if self.bare:
                x, ref = (x,), ref[:1]
            if not (isinstance(x, tuple) and len(x) == len(ref) and all(type(a) is np.ndarray and a.dtype == b.dtype and np.array_equal(a, b) for a, b in zip(x, ref))):
                r.bad("wrong-frame", "position %d" % k)
                break
        if self.ended == "end":
            if len(got) < n:
                r.bad("lost-frames", "ended after %d of %d frames" % (len(got), n))
            if self.failure is not None:
                r.bad("failure-hidden", "source raised %r, the video ended as if complete" % (self.failure,))
        elif isinstance(self.ended, BaseException):
            if not world.same_error(self.ended, self.failure):
                r.bad("unexpected-exception", repr(self.ended))
            elif len(got) < n:
                r.bad("lost-frames", "exception after %d of the %d frames before it" % (len(got), n))
        for k, (fr, cp) in enumerate(zip(self.frames, self.copies)):
            if any(not np.array_equal(a, b) for a, b in zip(fr, cp)):
                r.bad("source-modified", "frame %d of the source was changed" % k)
                break
        for name, tb in sim.thread_exceptions:
            if name == "consumer":
                raise sched.HarnessError(tb)

    def check_figures_cleared(self):
        if self.figures_left and self.plan["player"] in ("play", "play_threaded") and self.got:
            self.r.bad("figures-left", "after %s: %r" % (self.ended, self.figures_left))

    def check_drawn(self):
        """A threaded player that has caught up with a slow camera draws its figures."""
        r, plan, sim = self.r, self.plan, self.sim
        if plan["player"] != "play_threaded" or sim.jumps_fired or sim.counters.get("early_timer") or plan["src"] == "list":
            return                  # (early timer: time passed while a thread was ready to run)
        slow = 2 * len(plan["stages"]) * max([0.0] + list(plan.get("show", ()))) + 2 * max([0.0] + list(plan.get("wait", ()))) + max([0.0] + plan["cd"]) + 0.05
        for k in range(len(self.got) - 1):
            if k not in self.recv or k + 1 not in self.recv or k not in self.deliv or self.recv[k + 1][1] - self.deliv[k][1] < slow:
                continue
            if plan["fps"] is not None and self.deliv[k][1] - self.deliv[0][1] < k / plan["fps"] + 1e-3:
                continue
            want = sum(1 for s in plan["stages"] if shows(s, k))
            if want:
                r.count("probe:player_caught_up")
            shown = set(s[2] for s in world.DISPLAY.shown if self.recv[k][0] < s[0] < self.recv[k + 1][0])
            if len(shown) < want:
                r.bad("not-drawn", "the player waited for frame %d with an image of each of %d figures pending, %d were drawn" % (k + 1, want, len(shown)))
                break

    def check_updated(self):
        """Windows are given the time to update after each round of drawing."""
        if self.plan["player"] not in ("play", "play_threaded"):
            return
        deliv = sorted(self.deliv.items())
        for k, (d, t) in deliv:
            prev = self.deliv[k - 1][0] if k - 1 in self.deliv else -1
            shown = [s[0] for s in world.DISPLAY.shown if prev < s[0] < d]
            if shown and not any(max(shown) <= u < d for u in world.DISPLAY.updates):
                self.r.bad("window-not-updated", "images were drawn before frame %d without letting the window system update" % k)
                break

    def check_images(self):
        """Every drawn image is an image of its figure's stage, in order, once."""
        r, plan = self.r, self.plan
        by_title = {}
        for seq, t, title, im in world.DISPLAY.shown:
            by_title.setdefault(title, []).append((seq, t, im))
        refs = self.refs = [stage_images(st, self.copies, plan.get("lib", "cv2")) for st in plan["stages"]]
        could, self.drawn = {}, {}
        for title in sorted(by_title):
            ims = by_title[title]
            cands = []
            for si, ref in enumerate(refs):
                st = plan["stages"][si]
                if st["title"] is not None and st["title"] != title:
                    continue
                pos, ks = -1, []
                for seq, t, im in ims:
                    # (an image may not be drawn before its frame has left the source)
                    k = next((k for k in range(pos + 1, len(ref)) if ref[k] is not None and ref[k].shape == im.shape and np.allclose(ref[k], im, atol=1e-9)
                              and not (k in self.recv and self.recv[k][0] > seq)), None)
                    if k is None:
                        ks = None
                        break
                    ks.append(k)
                    pos = k
                if ks is not None:
                    cands.append((si, ks))
            if not cands:
                desc = []
                for seq, t, im in ims[:12]:
                    desc.append([(si, k) for si, ref in enumerate(refs) for k in range(len(ref)) if ref[k] is not None and ref[k].shape == im.shape and np.allclose(ref[k], im, atol=1e-9)])
                r.bad("wrong-image", "figure %r: drawn images (stage, frame) %r are not an in-order part of one stage" % (title, desc))
                continue
            could[title] = [si for si, ks in cands]
            self.drawn[title] = cands[0] + (ims, len(cands) == 1)
        # each figure shows a stage of its own
        owner = {}

        def place(title, tried):
            for si in could[title]:
                if si not in tried:
                    tried.add(si)
                    if si not in owner or place(owner[si], tried):
                        owner[si] = title
                        return True
            return False

        for title in sorted(could):
            if not place(title, set()):
                r.bad("figures-mixed", "two figures show one stage: %r" % could)
                break
        for title in sorted(set(world.DISPLAY.windows)):
            if world.DISPLAY.windows.count(title) > 1:
                r.bad("window-opened-again", "figure %r opened %d windows" % (title, world.DISPLAY.windows.count(title)))
        return by_title

    def unique(self, si, k):
        """True if no other frame of stage si has the same image as frame k."""
        ref = self.refs[si]
        return not any(j != k and ref[j] is not None and ref[k] is not None and np.allclose(ref[j], ref[k], atol=1e-6) for j in range(len(ref)))

    def finish(self):
        r, sim = self.r, self.sim
        r.key = sim.digest()
        r.nontrivial = len(self.got) > 0
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), len(self.got), str(self.ended), len(world.DISPLAY.shown), [v["kind"] for v in r.violations])
        r.trace = ["%d %s %s %r" % e for e in sim.log]
        r.count("probe:images_drawn", len(world.DISPLAY.shown))
        if sim.jumps_fired:
            r.count("fault:clock_jump", sim.jumps_fired)
        r.counters.pop("clock_jump", None)
        if max([0.0] + self.plan["sd"]) >= 0.1:
            r.count("fault:camera_stall")
        if max([0.0] + list(self.plan.get("show", ()))) >= 0.1 and world.DISPLAY.shown:
            r.count("fault:display_stall")
        if max([0.0] + self.plan["cd"]) >= 0.1 and self.got:
            r.count("fault:consumer_stall")
        if self.ended == "stopped":
            r.count("fault:playback_abandoned")
        world.DISPLAY.reset()
        return r


def short_delays(rng, n, top):
    k = rng.choice(["none", "none", "uniform", "stall", "burst"])
    if k == "none":
        return []
    if k == "uniform":
        return [rng.choice([0.001, 0.004, 0.02])]
    if k == "stall":
        out = [0.0] * max(1, min(n, 10))
        out[rng.randrange(len(out))] = rng.choice([0.1, top])
        return out
    return [rng.choice([0.0, 0.0, 0.002, 0.02, 0.08]) for _ in range(rng.randint(2, 6))]


def gen_long(rng, p):
    """Turns a plan into one with many frames, most of them waiting in the queue."""
    n = p["n"] = rng.choice([40, 70, 130, 150, 260, 300, 600 if rng.random() < 0.5 else 300, 1100 if rng.random() < 0.2 else 130])
    for st in p.get("stages", ()):
        if st["kind"] == "diff" and st["dt"] is not None:
            st["t1"] = [rng.randint(0, 3) + 4 * k for k in range(n)]
            st["t2"] = [rng.randint(0, 3) + 4 * k for k in range(n)]
    p.update(opcodes=False, sd=[], show=[], wait=[])
    if p["fail_at"] >= 0:
        p["fail_at"] = rng.randint(n // 2, n)
    if p["stop_after"] >= 0:
        p["stop_after"] = rng.randint(n // 2, n + 1)
    at = rng.choice([0, 0, 1, 5])
    p["cd"] = rng.choice([[0.0] * at + [rng.choice([0.4, 5.0])] + [0.0] * (n - at), [0.02], [0.004]])
    p["sched"] = dict(p["sched"])
    return p


def gen_base(rng, player, nstages, long=True):
    p = _gen_base(rng, player, nstages)
    if player == "play_threaded" and p["n"] <= 8 and rng.random() < 0.15:    # a camera the display can keep up with
        p.update(sd=[rng.choice([0.0, 0.1, 0.15, 0.3]) for _ in range(4)], cd=[rng.choice([0.0, 0.01])], jumps={}, src=rng.choice(["iter", "gen"]))
        p["show"] = [rng.choice([0.0, 0.02])]
        p["wait"] = []
        p["sched"]["p_timer"] = 0.0
        return p
    if long:
        u = rng.random()
        if u < 0.02:
            gen_long(rng, p)
        elif u < 0.10:
            k = rng.choice(["cd", "show", "sd", "wait"] if player == "play" else ["cd", "show"])
            p[k] = [0.0] * max(1, min(p["n"], 10))
            p[k][rng.randrange(len(p[k]))] = rng.choice([1.2, 3.0, 11.0, 35.0, 70.0])
    return p


def _gen_base(rng, player, nstages):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 20])
    ncam = rng.choice([1, 2, 2])
    fail = rng.choice([-1, -1, -1, -1, rng.randint(0, n)])
    stages = [gen_stage(rng, ncam, n, i) for i in range(nstages)]
    shape = [rng.choice([2, 3, 4]), rng.choice([3, 4, 6])]
    if any(s["kind"] == "fft" for s in stages):     # tiny transforms clip to equal images
        shape = [rng.choice([5, 6, 7]), rng.choice([6, 8])]
    return dict(n=n, ncam=ncam, shape=shape, data=rng.randrange(1 << 30),
                dtype=rng.choice(["float64", "float64", "float64", "uint8", "big"]),
                src=rng.choice(["iter", "gen", "list"]) if fail < 0 else rng.choice(["iter", "gen"]),
                player=player, stages=stages,
                fps=rng.choice([10.0, 30.0, 100.0, 1000.0]), max_delay=rng.choice([0.001, 0.02, 0.1, 1.0]),
                fail_at=fail, fail_kind=rng.choice(sorted(world.FAILURES)),
                stop_after=rng.choice([-1, -1, -1, -1, rng.randint(0, n + 1)]),
                sd=short_delays(rng, n, 0.4), cd=short_delays(rng, n, 0.4), show=short_delays(rng, n, 0.4), wait=short_delays(rng, n, 0.1),
                bare=not stages and rng.random() < 0.3, lib=rng.choice(["cv2"] * 8 + ["pyqtgraph", "matplotlib"]), bg="none", qs=rng.choice([0, 1, 2, 5]),
                sched=world.gen_sched(rng, 2), jumps=world.gen_jumps(rng, 0.3), opcodes=rng.random() < 0.08)
