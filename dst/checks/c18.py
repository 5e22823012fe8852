"""C18: chains of video stages: one to one, lazy, source left as it was."""
import warnings
import numpy as np
from .. import world, sched, ref
from ..runner import Result, InvalidPlan
from . import stages
from .stages import State, gen_stage, after
from .c01 import Source, as_generator
from .c08 import AllocFaults
from .stream import Refill

LIBS = ("numpy", "scipy", "pyfftw")


def atomic(f):
    """FFTW has locks and a cache of its own, which are not simulated."""
    def g(*a, **kw):
        t = sched.current_task()
        if t is None:
            return f(*a, **kw)
        t.sim.atomic += 1
        try:
            return f(*a, **kw)
        finally:
            t.sim.atomic -= 1
    g.atomic = True
    return g


def calm_fftw():
    import pyfftw.interfaces as I
    for m, names in ((I.numpy_fft, ("rfft2",)), (I.scipy_fftpack, ("fft", "ifft", "fft2", "ifft2"))):
        for n in names:
            if not hasattr(getattr(m, n), "atomic"):
                setattr(m, n, atomic(getattr(m, n)))


def make_frames(rs, n, ncam, shape, dtype):
    out = []
    for _ in range(n):
        fr = []
        for _ in range(ncam):
            x = rs.rand(*shape) * 200 + 1
            fr.append(x + 1j * rs.randn(*shape) if dtype == "complex128" else x.astype(dtype))
        out.append(tuple(fr))
    return out


class Endless(object):
    """The same frames for ever (background, window)."""
    def __init__(self, x, on_pull):
        self.x, self.k, self.on_pull = x, 0, on_pull

    def __iter__(self):
        return self

    def __next__(self):
        self.on_pull(self.k)
        self.k += 1
        return self.x


class Chain(object):
    """Real stages over simulated sources next to the reference."""
    def __init__(self, plan):
        p = self.plan = plan
        rs = np.random.RandomState(p["data"])
        self.frames = make_frames(rs, p["n"], p["ncam"], p["shape"], p["dtype"])
        for i, j in p["same"]:
            if max(i, j) < p["n"]:
                self.frames[j] = self.frames[i]
        self.copies = [tuple(x.copy() for x in f) for f in self.frames]
        self.states = [State(p["shape"], p["dtype"], True)]
        self.ys = []
        for st in p["stages"]:
            s = self.states[-1]
            if st["op"] == "threaded" and p["src"] == "refill" and s.shared:
                raise InvalidPlan("reading ahead from one buffer")
            if (st.get("inplace") or st.get("overwrite")) and p["same"] and s.shared:
                raise InvalidPlan("frames delivered again are changed")
            self.states.append(after(s, st))
            self.ys.append(stages.second(st, s, p["ncam"], p["n"]) if st["op"] in stages.ARITH else None)
        self.ycopies = [None if y is None else [tuple(x.copy() for x in f) for f in y] for y in self.ys]
        self.single = ref.SINGLE or any(s.dtype in (np.dtype("float32"), np.dtype("complex64")) for s in self.states) or \
            any(st.get("ydt") == "float32" or st.get("dtype") == "float32" for st in p["stages"])

    def build(self, sim, video, failures, on_pull, between=lambda i, v: v):
        from cddm import video as V, fft as F
        video = between(0, video)
        for i, st in enumerate(self.plan["stages"]):
            y, ys = None, self.ys[i]
            if ys is not None:
                pull = lambda k, i=i: on_pull(i, k)
                if st["y"] in ("const", "window"):
                    y = Endless(ys[0], pull)
                elif st["y"] == "list":
                    y = ys
                else:
                    y = Source(sim, ys, [], st["fail_at"], failures[i], pull)
            video = between(i + 1, stages.build(V, F, st, self.states[i], video, y))
        return video

    def expected(self, k):
        """Frames of the k-th element with bounds of the rounding error, None if rounding decides."""
        out = []
        eps = 1.2e-7 if self.single else 2.3e-16
        big = lambda x: float(np.abs(x).max()) if x.size else 0.0
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for c, x in enumerate(self.copies[k]):
                err = 0.0
                for i, st in enumerate(self.plan["stages"]):
                    m = big(x)
                    w = None if self.ys[i] is None else stages.y_frame(st, self.ycopies[i], k)[c]
                    if st["op"] in stages.NORMAL:
                        d = abs(x[0, 0] if st["op"] == "normalize_fft" else x.mean())
                        near = err + eps * m * 4
                        if not d > 1e-4 * m or not d > 1e3 * near:
                            return None
                        err = near / d + m * near / d ** 2
                    y = stages.reference(st, self.states[i], x, w)
                    if st["op"] in stages.FOURIER:
                        g = np.abs(stages.dls_window(st, x.shape)).sum() if st["op"] == "dls_video" else 1.0
                        err = x.size * (err + eps * m) * g * 4
                    elif st["op"] in stages.ARITH and y.dtype.kind in "fc":
                        err = err * big(w) + eps * m * big(w) if st["op"] == "multiply" else err + eps * (m + big(w))
                    x = y
                    err += eps * big(x)
                out.append((x, 20 * err))
        return out

    def compare(self, got, exp):
        if not isinstance(got, (tuple, list)) or len(got) != len(exp):
            return "%d frames expected, got %r" % (len(exp), type(got))
        dtypes = not any(st["op"] in ("fft2_video", "dls_video") for st in self.plan["stages"])
        for c, (a, (b, tol)) in enumerate(zip(got, exp)):
            a = np.asarray(a)
            if a.shape != b.shape:
                return "camera %d: shape %r, expected %r" % (c, a.shape, b.shape)
            if dtypes and a.dtype != b.dtype and not (ref.SINGLE and a.dtype.kind == b.dtype.kind):
                return "camera %d: dtype %s, expected %s" % (c, a.dtype, b.dtype)
            with np.errstate(all="ignore"):
                if not np.allclose(a, b, rtol=0, atol=tol if np.isfinite(tol) else np.inf, equal_nan=True):
                    return "camera %d: %r, expected %r" % (c, a.ravel()[:6], b.ravel()[:6])
        return None


def gen_chain(rng, n, maxlen=5, refill=False, same=False, threads=True, ncam=None, clean=False):
    """clean: double precision, no second video that fails or ends early."""
    shape = rng.choice([[4, 4], [5, 4], [4, 7], [3, 3], [6, 2], [8, 8], [2, 5]])
    ncam = ncam or rng.choice([1, 1, 2, 2, 3])
    dtype = rng.choice([d for d in stages.DTYPES if not clean or d != "float32"])
    s, out = State(shape, dtype, True), []
    todo = rng.randint(1, maxlen)
    while todo > 0 or not out:
        todo -= 1
        st = gen_stage(rng, s, ncam, n, threads=threads and (not refill or not s.shared), inplace=not same or not s.shared)
        if st is None:
            continue
        if clean:
            if st.get("dtype") == "float32" or st.get("ydt") == "float32":
                continue
            if "fail_at" in st:
                st.update(fail_at=-1, odd=-1)
                if st["length"] is not None:
                    st["length"] = max(st["length"], n)
        try:
            s2 = after(s, st)
        except InvalidPlan:
            continue
        out.append(st)
        s = s2
    return dict(shape=shape, ncam=ncam, dtype=dtype, stages=out)


class C18(object):
    RUNS = {"quick": 12000, "thorough": 200000}
    HANG_S = 60.0
    FIXED = ("shape", "ncam", "dtype", "data")
    RULE = ("random chain of 1 to 5 stages (crop, mask, subtract, add, multiply, normalize_video, rfft2_video, fft2_video, dls_video, normalize_fft, with threaded in between) over a source of 0 to 12 frames "
            "(generator, iterator, list, one refilled buffer, the same frame repeated) with second videos that end early, fail or miss a camera, failing source, failing allocation, "
            "consumer that stops, FFT library changed while running; non-trivial: a frame was delivered")
    DISTINCT = "hash of context switches, stages and number of frames delivered, per run"
    REAL = ["cddm.video (crop, mask, subtract, add, multiply, normalize_video, threaded)", "cddm.fft (rfft2_video, fft2_video, dls_video, normalize_fft, crops)", "numpy.fft, scipy.fftpack, pyfftw"]
    STUB = ["cameras (frame sources)", "clock and sleep", "threading.Lock/RLock, Thread.start/join (scheduler-owned)", "numpy.empty/zeros (raise MemoryError at a chosen call)"]
    ASSUMPTIONS = ["the frames passed through an in-place stage may or may not share memory with the source behind crop", "normalisation by a value that is zero up to rounding is not judged"]

    def setup(self):
        world.setup(("cddm.video", "cddm.fft"))
        calm_fftw()

    def gen(self, rng):
        n = rng.choice([0, 1, 2, 3, 5, 8, 12])
        src = rng.choice(["gen", "iter", "list", "refill", "refill"])
        same = [sorted(rng.sample(range(n), 2)) for _ in range(3)] if n > 1 and src != "refill" and rng.random() < 0.15 else []
        p = gen_chain(rng, n, refill=src == "refill", same=bool(same))
        fail = -1 if src == "list" else rng.choice([-1, -1, -1, rng.randint(0, n)])
        p.update(n=n, src=src, same=same, fail_at=fail, fail_kind=rng.choice(world.ORDINARY), data=rng.randrange(1 << 30),
                 stop_after=rng.choice([-1, -1, -1, rng.randint(0, n + 1)]), alloc=rng.randint(0, 12) if rng.random() < 0.1 else -1,
                 libs=[[rng.randint(0, n), rng.choice(LIBS), rng.choice(LIBS)] for _ in range(rng.choice([0, 1, 1, 3]))],
                 sd=world.gen_delays(rng, n) if rng.random() < 0.5 else [], cd=world.gen_delays(rng, n) if rng.random() < 0.5 else [], sched=world.gen_sched(rng, 2), jumps={})
        return p

    def execute(self, plan, seed, decisions=None):
        import cddm.conf as conf
        p = plan
        r = Result()
        n = p["n"]
        if not p["stages"] or p["ncam"] < 1 or min(p["shape"]) < 2 or n < 0:
            raise InvalidPlan("shape")
        if p["src"] == "refill" and p["same"] or p["src"] == "list" and p["fail_at"] >= 0:
            raise InvalidPlan("source")
        C = Chain(p)
        sim = world.make_sim(p, seed, decisions, ("cddm/video.py", "cddm/fft.py"), fair_after=20000, max_steps=100000)
        # where and how the chain has to end
        failure = world.FAILURES[p["fail_kind"]](p["fail_at"]) if p["fail_at"] >= 0 else None
        failures = [world.FAILURES[p["fail_kind"]](st["fail_at"]) if st.get("fail_at", -1) >= 0 else None for st in p["stages"]]
        ends = [(p["fail_at"], failure) if 0 <= p["fail_at"] <= n else (n, "end")]
        for st, ys, f in zip(p["stages"], C.ys, failures):
            if ys is None or st["y"] in ("const", "window"):
                continue
            ends.append((st["fail_at"], f) if 0 <= st["fail_at"] <= len(ys) else (len(ys), "end"))
            if 0 <= st["odd"] < len(ys):
                ends.append((st["odd"], "odd"))
        E = min(k for k, what in ends)
        how = [what for k, what in ends if k == E]
        queues = [st["queue"] for st in p["stages"] if st["op"] == "threaded"]
        lead = None if any(q <= 0 for q in queues) else sum(q + 2 for q in queues)
        got, copies, state = [], [], dict(ended=None, built=False, n=0, late=None)

        def on_pull(what, k):
            if not state["built"]:
                state["late"] = state["late"] or ("frame %d of %s taken while the chain was being built" % (k, what))
            elif lead is not None and k > state["n"] + lead:
                state["late"] = state["late"] or ("frame %d of %s taken when %d frames had been delivered" % (k, what, state["n"]))

        def main():
            if p["src"] == "list":
                src = list(C.frames)
            else:
                src = Source(sim, C.frames, p["sd"], p["fail_at"], failure, lambda k: on_pull("the source", k))
                if p["src"] == "gen":
                    src = as_generator(src)
                elif p["src"] == "refill":
                    src = Refill(src, C.frames)
            it = iter(C.build(sim, src, failures, lambda i, k: on_pull("the second video of stage %d" % i, k)))
            state["built"] = True
            while True:
                for k, a, b in p["libs"]:
                    if k == state["n"]:
                        conf.set_fftlib(a)
                        conf.set_rfft2lib(b)
                        sim.count("probe:fft_library_changed")
                if p["stop_after"] >= 0 and state["n"] >= p["stop_after"]:
                    state["ended"] = "stopped"
                    break
                try:
                    x = next(it)
                except StopIteration:
                    state["ended"] = "end"
                    break
                except Exception as e:
                    state["ended"] = e
                    break
                k = state["n"]
                if k >= E:
                    r.bad("extra-item", "item %d delivered, expected the end at %d" % (k, E))
                    break
                exp = C.expected(k)
                if exp is None:
                    sim.count("probe:undecided")
                else:
                    msg = C.compare(x, exp)
                    if msg:
                        r.bad("wrong-frame", "frame %d: %s" % (k, msg))
                        break
                got.append(x)
                copies.append([np.array(a) for a in x])
                state["n"] += 1
                sim.event("consume", k=k)
                d = world.delay(p["cd"], k)
                if d:
                    sim.sleep(d, "analysis")
            if state["ended"] is not None and state["ended"] != "stopped":
                for _ in range(2):
                    try:
                        next(it)
                        r.bad("restarts-after-end", "an item was delivered after the end of the video")
                    except StopIteration:
                        pass
                    except Exception as e:
                        r.bad("fails-after-end", "%s: %s after the video had ended" % (type(e).__name__, e))
            it = None

        fft, rfft = conf.CDDMConfig["fftlib"], conf.CDDMConfig["rfft2lib"]
        alloc = AllocFaults(sim, p["alloc"])
        try:
            with alloc, np.errstate(all="ignore"):
                sim.run(("consumer", main))
        finally:
            conf.CDDMConfig.fftlib, conf.CDDMConfig.rfft2lib = fft, rfft
        r.take(sim)
        for name, tb in sim.thread_exceptions:
            if name == "consumer":
                raise sched.HarnessError(tb)
        ended = state["ended"]
        memory = sim.counters.get("fault:allocation", 0)
        if sim.failure is not None and ended is None:
            r.bad("no-progress", "%s; delivered %d of %d" % (sim.failure, state["n"], E))
        if state["late"]:
            r.bad("reads-ahead", state["late"])
        if not r.violations and ended != "stopped":
            if memory and isinstance(ended, MemoryError) and not any(ended is h for h in how):
                pass
            elif state["n"] < E:
                r.bad("lost-frames", "ended after %d of %d frames: %r" % (state["n"], E, ended))
            elif ended == "end":
                if "end" not in how:
                    r.bad("failure-hidden", "ended at frame %d as if complete, expected %r" % (E, how))
            elif isinstance(ended, ValueError) and "odd" in how:
                r.count("fault:camera_missing")
            elif not any(not isinstance(h, str) and world.same_error(ended, h) for h in how):
                r.bad("wrong-exception", "%s: %s, expected %r" % (type(ended).__name__, ended, how))
        # what became of the arrays
        inp = [bool(st.get("inplace") or st.get("overwrite")) and s.shared for st, s in zip(p["stages"], C.states)]
        if not r.violations:
            touched = (state["n"] + 1 if not queues else n) if any(inp) else 0
            for k in range(n):
                if k < touched and p["src"] != "refill":
                    continue
                for a, b in zip(C.frames[k], C.copies[k]):
                    if a.dtype != b.dtype or not np.array_equal(a, b):
                        r.bad("source-modified", "frame %d of the source was changed (%d delivered)" % (k, state["n"]))
                        break
            for i, (ys, yc) in enumerate(zip(C.ys, C.ycopies)):
                if ys is not None and any(not np.array_equal(a, b) for f, g in zip(ys, yc) for a, b in zip(f, g)):
                    r.bad("second-modified", "the second video of stage %d was changed" % i)
            stable = not C.states[-1].shared or (p["src"] != "refill" and not p["same"])
            if stable:
                for k, (x, y) in enumerate(zip(got, copies)):
                    if any(not np.array_equal(a, b, equal_nan=True) for a, b in zip(x, y)):
                        r.bad("delivered-changed", "frame %d changed after it was delivered" % k)
                        break
            if p["stages"] and all(st["op"] == "threaded" or st.get("inplace") for st in p["stages"]) and any(inp) and p["src"] != "refill":
                for k, x in enumerate(got):
                    if any(not np.shares_memory(a, b) for a, b in zip(x, C.frames[k])):
                        r.bad("not-in-place", "frame %d was not changed in place" % k)
                        break
                r.count("probe:in_place")
        if sim.counters.get("fault:source_exception"):
            r.count("fault:source_or_second_failed")
        if p["src"] == "refill":
            r.count("probe:buffers_refilled")
        if ended == "stopped":
            r.count("probe:consumer_stopped")
        for st in p["stages"]:
            r.count("probe:stage_" + st["op"])
        if ended == "end" and E < n:
            r.count("fault:second_video_short")
        r.key = world.digest(sim.digest(), [st["op"] for st in p["stages"]], state["n"], n, p["src"])
        r.nontrivial = state["n"] > 0
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), state["n"], repr(ended), [v["kind"] for v in r.violations])
        r.trace = ["%d %s %s %r" % e for e in sim.log]
        return r


CHECK = C18()
