"""Shared execution of streaming correlations (C05-C08, C14, C15)."""
import io, contextlib
import numpy as np
from .. import world, sched, ref
from ..runner import Result, InvalidPlan
from .c01 import Source, as_generator

MODULES = ("cddm.core", "cddm.multitau", "cddm.video")


# -------------------------------------------------------------------- plans

def gen_times(rng, N, cross, nfast, half, kind):
    if kind == "none":
        return None, None
    if kind == "regular":
        t = list(range(5, 5 + N))
        return t, (list(t) if cross else None)
    step = rng.choice([1, 2, 3])
    t, cur = [], rng.randint(0, 3)
    for _ in range(N):
        t.append(cur)
        cur += rng.randint(1, step)
    if not cross:
        return t, None
    if kind == "shifted":
        d = rng.randint(-2, 2)
        return t, [x + d for x in t]
    t2 = []
    for x in t:
        y = x + rng.choice([-1, 0, 0, 1, 2])
        t2.append(y if not t2 or y > t2[-1] else t2[-1] + 1)
    return t, t2


def triggered_times(rng, N, p):
    """Random triggering in periods of 2p, one frame per camera and period."""
    t1, t2 = [], []
    for k in range(N):
        a = rng.randrange(2 * p)
        b = rng.randrange(2 * p)
        t1.append(2 * p * k + a)
        t2.append(2 * p * k + b)
    return t1, t2


def default_chunk(count, n):
    """Chunk length used when none is asked for."""
    half = count
    while half // 2 >= n and half > 128:
        half //= 2
    return half


def gen_plan(rng, fn=None, big=False, large=False):
    fn = fn or rng.choice(["iccorr", "iacorr", "iccorr_multi", "iacorr_multi"])
    cross, multi = "cc" in fn, fn.endswith("multi")
    n = rng.choice([2, 3, 4, 5, 6, 8])
    half = n + rng.choice([0, 0, 0, 1, 2, 3, 5, 8])
    k = rng.choice([0, 1, 1, 2, 2, 3])
    N = half * 2 ** k
    if N > (160 if big else 72):
        k = 1
        N = half * 2
    size = rng.random() if large else 1.0
    if size < 0.02:          # many frames and delays
        n = rng.choice([5, 8, 16, 17, 31, 32])
        half = n + rng.choice([0, 1, 16, 60, 97])
        k = rng.choice([0, 1, 2, 3, 4, 5])
        while k and (half * 2 ** k > 1024 or n * (half * 2 ** k) ** 2 > 6e6):
            k -= 1
        N = half * 2 ** k
    extra = rng.choice([0, 0, 0, 0, 1, 2, half - 1]) if k else 0
    if not k:
        extra = rng.choice([0, 0, rng.randint(0, half - 1)])
    count = N + extra
    nochunk = large and rng.random() < 0.05
    if nochunk:
        if rng.random() < 0.4:
            count = rng.choice([127, 128, 129, 130, 200, 256, 257, 260, 300])
        half = default_chunk(count, n)
        N = half
        while 2 * N <= count:
            N *= 2
    method = rng.choice(["corr", "corr", "fft", "diff", None])
    norms = ([2, 6] if cross else [2]) if method == "diff" else [1, 2, 3, 5, 6, 7]
    cplx = method != "diff" and rng.random() < 0.3
    shape = rng.choice([[1], [3], [4], [2, 3], [1, 4], [3, 2], [2, 2, 2]])
    if 0.02 < size < 0.04:
        shape = rng.choice([[16, 17], [7, 40], [300], [2, 5, 20]])
    P = int(np.prod(shape))
    mask = None
    if rng.random() < 0.3 and P > 1:
        mask = [rng.random() < 0.6 for _ in range(P)]
        mask[rng.randrange(P)] = True
    Q = P if mask is None else sum(mask)
    td = rng.choice([None, None, None] + [d for d in range(1, Q + 1) if Q % d == 0])
    period = 1
    if multi and rng.random() < 0.3:
        period = rng.choice([2, 3])
    kind = rng.choice(["none", "none", "regular", "irregular", "irregular", "shifted"])
    t1, t2 = gen_times(rng, count, cross, n * period, half, kind)
    if multi and cross and rng.random() < 0.25:
        p = rng.choice([2, 3])
        period = 2 * p
        t1, t2 = triggered_times(rng, count, p)
    T1 = t1 if t1 is not None else list(range(count))
    T2 = (t2 if t2 is not None else T1) if cross else T1
    if not ref.spacing_ok(T1[:N], T2[:N], half, n * period):
        t1 = t2 = None
        period = 1
    return dict(fn=fn, n=n, half=half, N=N, count=count, give_count=t1 is None or rng.random() < 0.5, period=period,
                method=method, norm=rng.choice(norms + [None]), complex=cplx, mode=rng.choice(["full", "full", "full", "chunk"]),
                auto_bg=rng.random() < 0.25, stats=rng.random() < 0.7, mask=mask, shape=shape, td=td,
                dtype=rng.choice(["complex128", "complex128", "float64", "complex64", "uint8"]), t1=t1, t2=t2,
                binning=None, nlevel=None, src=rng.choice(["iter", "gen", "list", "refill"]), qs=rng.choice([None, None, None, 0, 1, 3]),
                interval=rng.choice([1, 1, 2, 3]), viewer=True, wrap1=rng.random() < 0.5, surplus=rng.choice([0, 0, 1, 3]),
                data=rng.randrange(1 << 30), sd=world.gen_delays(rng, count) if rng.random() < 0.3 else [], vd=[],
                verbose=rng.choice([0, 0, 1, 2]), fail_at=-1, fail_kind="SourceError", jumps={}, sched=world.gen_sched(rng, 2),
                dc=rng.choice([0.0, 0.0, 1.0, 50.0]), nochunk=nochunk,
                same=[sorted(rng.sample(range(count), 2)) for _ in range(rng.choice([1, 2, 5]))] if count > 1 and rng.random() < 0.2 else [])


def validate(plan):
    """Shrunk plans must still be legal inputs."""
    n, half, N, count = plan["n"], plan["half"], plan["N"], plan["count"]
    if n < 1 or half < n or count < half or N < half or N > count or N % half or (N // half) & (N // half - 1) or 2 * N <= count:
        raise InvalidPlan("lengths")
    if plan.get("nochunk") and half != default_chunk(count, n):
        raise InvalidPlan("default chunk")
    P = int(np.prod(plan["shape"])) if plan["shape"] else 0
    if not plan["shape"] or P < 1 or min(plan["shape"]) < 1:
        raise InvalidPlan("shape")
    if plan["mask"] is not None and (len(plan["mask"]) != P or not any(plan["mask"])):
        raise InvalidPlan("mask")
    Q = P if plan["mask"] is None else sum(plan["mask"])
    if plan["td"] is not None and (plan["td"] < 1 or Q % plan["td"]):
        raise InvalidPlan("thread_divisor")
    cross = "cc" in plan["fn"]
    for t in (plan["t1"], plan["t2"]):
        if t is not None and len(t) < count:
            raise InvalidPlan("times")
    if cross and (plan["t1"] is None) != (plan["t2"] is None):
        raise InvalidPlan("times")
    T1 = plan["t1"] or list(range(count))
    T2 = (plan["t2"] or T1) if cross else T1
    if any(b <= a for T in (T1, T2) for a, b in zip(T, T[1:])):
        raise InvalidPlan("times must increase")
    if plan["period"] < 1 or not ref.spacing_ok(T1[:N], T2[:N], half, n * plan["period"]):
        raise InvalidPlan("spacing")
    if plan["t1"] is None and not plan["give_count"] and plan["src"] != "list":
        raise InvalidPlan("count unknown")
    if plan["interval"] < 1:
        raise InvalidPlan("interval")
    if plan["method"] == "diff" and (plan["complex"] or plan["norm"] not in ((2, 6, None) if cross else (2, None))):
        raise InvalidPlan("diff")
    if plan["norm"] not in (1, 2, 3, 5, 6, 7, None):
        raise InvalidPlan("norm")


def make_data(plan, ncam, count):
    rs = np.random.RandomState(plan["data"])
    shape = tuple(plan["shape"])
    out = []
    for k in range(count):
        fr = []
        for c in range(ncam):
            if plan["dtype"] == "uint8":
                x = rs.randint(0, 255, size=shape).astype("uint8")
            elif plan["dtype"] == "float64":
                x = rs.randn(*shape) + plan["dc"]
            else:
                x = (rs.randn(*shape) + 1j * rs.randn(*shape) + plan["dc"]).astype(plan["dtype"])
            fr.append(x)
        out.append(fr)
    return out


class Refill(object):
    """A source that delivers the same arrays again and again with new contents."""
    def __init__(self, src, frames):
        self.src, self.buf = src, [np.empty_like(x) for x in frames[0]] if frames else []

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.src)
        for b, y in zip(self.buf, x):
            b[...] = y
        return x.__class__(self.buf)


class Viewer(object):
    """Records what a viewer is given, at the moment it is given."""
    def __init__(self, run, delays=(), fail_at=-1, failure=None, hold=False):
        self.run, self.delays, self.fail_at, self.failure = run, delays, fail_at, failure
        self.calls = []          # ("set", consumed, copies...) / ("plot", consumed)
        self.k = 0
        self.hold = hold

    def set_data(self, data, background=None, variance=None):
        k = self.k
        self.k += 1
        self.calls.append(("set", self.run.consumed, copy_of(data), copy_of(background), copy_of(variance)))
        if k == self.fail_at:
            self.run.sim.count("fault:viewer_exception")
            raise self.failure
        d = world.delay(self.delays, k)
        if d:
            self.run.sim.sleep(d, "viewer")

    def plot(self):
        self.calls.append(("plot", self.run.consumed))


def copy_of(x):
    if x is None:
        return None
    if isinstance(x, (tuple, list)):
        return tuple(copy_of(y) for y in x)
    return np.array(x)


DEFAULTS = [("method", "corr"), ("thread_divisor", None), ("auto_background", False), ("mode", "full"), ("stats", True), ("complex", False),
            ("mask", None), ("viewer_interval", 1), ("level_size", 16), ("period", 1), ("binning", None), ("nlevel", None)]


class StreamRun(object):
    """One simulated streaming computation and everything it did."""

    def __init__(self, plan, seed, decisions, alloc=None, trace=(), deliver=None):
        validate(plan)
        self.plan, self.r = plan, Result()
        self.cross, self.multi = "cc" in plan["fn"], plan["fn"].endswith("multi")
        ncam = 2 if self.cross else 1
        # `deliver` frames come from the source (default: everything plus some surplus)
        self.deliver = plan["count"] + plan["surplus"] if deliver is None else deliver
        self.frames = make_data(plan, ncam, max(self.deliver, 1))[:self.deliver]
        for i, j in plan.get("same", ()):        # the very same arrays delivered again (a camera that repeats a frame)
            if max(i, j) < len(self.frames):
                self.frames[j] = self.frames[i]
        cont = tuple
        self.items = [cont(f) if (self.cross or plan["wrap1"]) else f[0] for f in self.frames]
        self.copies = [[x.copy() for x in f] for f in self.frames]
        self.failure = world.FAILURES[plan["fail_kind"]](plan["fail_at"]) if plan["fail_at"] >= 0 else None
        self.sim = world.make_sim(plan, seed, decisions, trace or world.TRACE_VIDEO, fair_after=40000, max_steps=200000)
        self.pulls = self.consumed = 0
        self.viewer = None
        self.result = self.error = None
        self.finished = self.rounding = False
        self.stdout = io.StringIO()

    def source(self):
        plan = self.plan
        if plan["src"] == "list" and self.failure is None:
            # sized: count may be left out; surplus frames would then be counted
            return self.items
        def on_pull(k):
            self.pulls = max(self.pulls, k + 1)
        s = Source(self.sim, self.items, plan["sd"], plan["fail_at"], self.failure, on_pull)
        if plan["src"] == "gen":
            return as_generator(s)
        if plan["src"] == "refill" and plan["qs"] is None and (self.cross or plan["wrap1"]):
            return Refill(s, self.items)
        return s

    def tap(self, it):
        for x in it:
            self.consumed += 1
            yield x

    def kwargs(self, viewer=None):
        plan = self.plan
        kw = dict(method=plan["method"], thread_divisor=plan["td"], auto_background=plan["auto_bg"],
                  mode=plan["mode"], stats=plan["stats"], complex=plan["complex"],
                  mask=None if plan["mask"] is None else np.array(plan["mask"]).reshape(plan["shape"]))
        if plan["norm"] is not None:
            kw["norm"] = plan["norm"]
        if not plan.get("nochunk"):
            kw["chunk_size"] = plan["half"]
        if plan["give_count"]:
            kw["count"] = plan["count"]
        if viewer is not None:
            kw.update(viewer=viewer, viewer_interval=plan["interval"])
        if self.multi:
            kw.update(level_size=plan["n"], period=plan["period"], binning=plan["binning"], nlevel=plan["nlevel"])
        else:
            kw["n"] = plan["n"]
        if plan["t1"] is not None:
            T = [None if t is None else np.array(t) for t in (plan["t1"], plan["t2"])]
            if self.cross:
                kw.update(t1=T[0], t2=T[1])
            else:
                kw["t"] = T[0]
        if plan["data"] % 2:            # leave out what equals its documented default
            for k, v in DEFAULTS:
                if k in kw and (kw[k] is None if v is None else type(kw[k]) is type(v) and kw[k] == v):
                    del kw[k]
        return kw

    def call(self, video, viewer=None):
        import cddm.core, cddm.multitau
        f = getattr(cddm.multitau if self.multi else cddm.core, self.plan["fn"])
        return f(video, **self.kwargs(viewer))

    def body(self, viewer=None, around=None):
        """The computation, as the calling sim task does it."""
        from cddm import video as V
        plan = self.plan
        self.viewer = viewer
        np.random.seed(plan["data"] % (1 << 31))
        v = self.source()
        sized = v is self.items
        if plan["qs"] is not None:
            v = V.threaded(v, plan["qs"])
            sized = False
        if not sized:
            v = self.tap(v)
        try:
            if around is not None:
                with around:
                    self.result = self.call(v, viewer)
            else:
                self.result = self.call(v, viewer)
            self.finished = True
        except sched.SimKill:
            raise
        except BaseException as e:
            self.error = e

    def run(self, viewer="default", around=None, after=None):
        import cddm.conf
        plan, sim = self.plan, self.sim
        if viewer == "default":
            viewer = Viewer(self, plan["vd"]) if plan["viewer"] else None

        def main():
            with contextlib.redirect_stdout(self.stdout):
                self.body(viewer, around)
                self.verbose_after = cddm.conf.CDDMConfig.verbose
            if after is not None:
                after()

        cddm.conf.CDDMConfig.verbose = plan["verbose"]
        self.verbose_after = None
        try:
            sim.run(("main", main))
        finally:
            cddm.conf.CDDMConfig.verbose = 0
        self.r.take(sim)
        for name, tb in sim.thread_exceptions:
            if name == "main":
                raise sched.HarnessError(tb)
        if sim.failure is not None:
            self.r.bad("no-progress", str(sim.failure))
        return self

    # ---------------------------------------------------------- expectations
    def flat(self, c, upto):
        """(frames, pixels) complex data of camera c, masked, as the definition sees them."""
        plan = self.plan
        F = np.array([x[c].reshape(-1) for x in self.copies[:upto]]).astype(complex)
        return F if plan["mask"] is None else F[:, np.array(plan["mask"])]

    def prepare(self):
        plan, N = self.plan, self.plan["N"]
        self.F = [self.flat(c, N) for c in range(2 if self.cross else 1)]
        if plan["auto_bg"]:
            self.F = [f - f[:plan["half"]].mean(0) for f in self.F]
        t1 = plan["t1"][:N] if plan["t1"] is not None else list(range(N))
        t2 = (plan["t2"][:N] if plan["t2"] is not None else t1) if self.cross else t1
        self.T = t1, t2
        self.norm = plan["norm"]
        method = plan["method"] or "corr"
        if self.norm is None:
            self.norm = 7 if method != "diff" else (6 if self.cross else 2)
        self.method = method
        m = max(1.0, max(np.abs(f).max() for f in self.F), max(np.abs(self.flat(c, N)).max() for c in range(len(self.F))))
        self.scale = m * m * N * 4

    def expect_lin(self, M):
        """Definition of the linear part over the first M frames."""
        plan = self.plan
        allowed = ref.chunks_allowed(M, plan["half"], False) if plan["mode"] == "chunk" else None
        F1 = self.F[0][:M]
        F2 = self.F[1][:M] if self.cross else None
        return ref.correlate(F1, F2, self.T[0][:M], self.T[1][:M], plan["n"] * plan["period"], self.norm, self.method,
                             not self.cross, plan["complex"], allowed=allowed)

    def split(self, data):
        """(lin, multi, bg, var) of a returned result or of what a viewer got."""
        if self.plan["stats"]:
            d, bg, var = data
        else:
            d, bg, var = data, None, None
        lin, multi = d if self.multi else (d, None)
        return lin, multi, bg, var

    def compare(self, got, exp, what, lead=()):
        """Compare one correlation record with the definition; names of what differs."""
        plan, r = self.plan, self.r
        names = ("corr", "count", "sq", "m1", "m2") if self.method != "diff" else ("corr", "count", "m1", "m2")
        e = list(exp)
        if self.method == "diff":
            e = [exp[0], exp[1], exp[3], exp[4]]
        if len(got) != len(names):
            r.bad("wrong-result", "%s: %d items, expected %d" % (what, len(got), len(names)))
            return False
        ok = True
        for name, g, x in zip(names, got, e):
            if x is None:
                if g is not None:
                    r.bad("wrong-result", "%s: %s given although not requested" % (what, name))
                    ok = False
                continue
            if g is None:
                r.bad("wrong-result", "%s: %s missing" % (what, name))
                ok = False
                continue
            if name == "count":
                msg = None if np.array_equal(np.asarray(g), x) else "%r, expected %r" % (np.asarray(g).tolist(), np.asarray(x).tolist())
            else:
                msg = ref.close(g, ref.unflatten(x, plan["shape"], plan["mask"], lead), self.scale)
            if msg:
                r.bad("wrong-" + ("count" if name == "count" else "sum" if name in ("sq", "m1", "m2") else "corr"), "%s: %s: %s" % (what, name, msg))
                ok = False
        return ok

    def finish(self, *extra):
        r, sim = self.r, self.sim
        plan = self.plan
        for k, (f, g) in enumerate(zip(self.frames, self.copies)):
            if any(a.dtype != b.dtype or not np.array_equal(a, b) for a, b in zip(f, g)):
                r.bad("frames-modified", "frame %d of the source was changed by the computation" % k)
                break
        if plan.get("same"):
            r.count("fault:frame_delivered_again")
        # (FFTW's rounding depends on where in memory the arrays are)
        res = world.digest(*[repr(np.shape(x)) if self.rounding else np.asarray(x).tobytes() for x in leaves(self.result)]) if self.finished else repr(self.error)
        r.key = world.digest(sim.digest(), plan["fn"], plan["n"], plan["half"], plan["N"], plan["method"], plan["norm"], plan["mode"], plan["complex"], *extra)
        r.nontrivial = self.finished or self.error is not None
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), res, self.consumed, [v["kind"] for v in r.violations])
        r.trace = ["%d %s %s %r" % e for e in sim.log][:200]
        if max([0.0] + plan["sd"]) >= 0.1:
            r.count("fault:camera_stall")
        if max([0.0] + plan["vd"]) >= 0.1:
            r.count("fault:viewer_stall")
        if plan["src"] == "refill":
            r.count("probe:buffers_refilled")
        if plan["qs"] is not None:
            r.count("probe:prefetch_thread")
        if plan["N"] < plan["count"]:
            r.count("probe:stream_cropped")
        if self.sim.jumps_fired:
            r.count("fault:clock_jump", self.sim.jumps_fired)
        r.counters.pop("clock_jump", None)
        return r


def leaves(x):
    if x is None:
        return []
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in leaves(y)]
    return [x]
