"""C17: a whole live pipeline equals the same steps on stored frames."""
import numpy as np
from .. import world, sched, ref
from ..runner import InvalidPlan
from . import stages, stream, live
from .c01 import Source, as_generator
from .c07 import check_stats
from .c06 import Run as MultiRun
from .c18 import Chain, gen_chain, calm_fftw, LIBS
from .c19 import baseline, grid, select, spread, joined
from .stream import Refill, Viewer, gen_plan

TAILS = (None, None, "threaded", "play", "play", "play_threaded", "play_threaded")


class C17(object):
    RUNS = {"quick": 5000, "thorough": 80000}
    HANG_S = 120.0
    FIXED = ("fn", "td", "mask", "method", "norm", "complex", "data", "n", "half", "N", "count", "mode", "period", "binning", "chain", "fail_kind", "nlevel")
    RULE = ("random pipeline: simulated camera (generator, iterator, list, refilled buffer) -> 0 to 4 stages (crop, mask, background, window, normalisation, Fourier transform with cropping, threaded) "
            "with 0 to 2 live figures in between -> threaded, play or play_threaded -> iccorr, iacorr, iccorr_multi or iacorr_multi with a viewer -> normalisation, log averaging or merging, k selection, x camera, display, viewer stalls, clock jumps, "
            "camera failure or early end, FFT library, seeded schedule; non-trivial: a result was returned or the expected failure arrived")
    DISTINCT = "hash of context switches and of (stages, player, function, n, chunk, frames, method, norm, mode, complex), per run"
    REAL = ["cddm.video", "cddm.fft", "cddm.core", "cddm.multitau", "cddm._core_nb (compiled kernels)", "cddm.norm, cddm.map", "queue.Queue", "numpy.fft, scipy.fftpack, pyfftw"]
    STUB = ["camera (frame source)", "cv2 (display)", "clock and sleep", "threading.Lock/RLock, Thread.start/join (scheduler-owned)", "viewer"]
    ASSUMPTIONS = ["values that rounding decides (normalisation by almost nothing) are not judged", "buffers refilled by the camera are not read ahead"]

    def setup(self):
        world.setup(stream.MODULES + ("cddm.fft",))
        calm_fftw()

    def gen(self, rng):
        p = gen_plan(rng)
        ncam = 2 if "cc" in p["fn"] else 1
        total = p["count"] + p["surplus"]
        refill = rng.random() < 0.25
        src = "refill" if refill else rng.choice(["gen", "iter", "list"])
        c = gen_chain(rng, total, maxlen=4, refill=refill, ncam=ncam, clean=True)
        s = stages.State(c["shape"], c["dtype"], True)
        shows, shared = [], [True]
        shapes = [s]
        for st in c["stages"]:
            s = stages.after(s, st)
            shapes.append(s)
        for k in range(rng.choice([0, 0, 1, 1, 2])):
            at = rng.randrange(len(shapes))
            if len(shapes[at].shape) != 2 or 0 in shapes[at].shape:
                continue
            kinds = ["video"] + (["fft", "diff"] if shapes[at].dtype.kind != "c" and ncam == 2 else [])
            kind = rng.choice(kinds)
            st = dict(kind=kind, id=rng.randrange(ncam), title=None, at=at)
            if kind == "video":
                st["norm"] = ""
            elif kind == "fft":
                st.update(clip=None, mode="abs")
            else:
                st.update(normalize=False, dt=None)
            shows.append(st)
        tail = rng.choice(TAILS)
        if refill and s.shared and tail in ("threaded", "play_threaded"):
            tail = "play"
        c.update(n=total, src=src, same=[], data=p["data"])
        P = int(np.prod(s.shape))
        mask = None
        if rng.random() < 0.3 and P > 1:
            mask = [rng.random() < 0.6 for _ in range(P)]
            mask[rng.randrange(P)] = True
        Q = P if mask is None else sum(mask)
        fault = rng.choice(["none"] * 5 + ["fail", "short"])
        p.update(chain=c, shape=list(s.shape), mask=mask, td=rng.choice([None, None] + [d for d in range(1, Q + 1) if Q % d == 0]), shows=shows, tail=tail, src=src, qs=None,
                 queue=rng.choice([0, 1, 2, 5]), fps=rng.choice([10.0, 100.0, 1000.0, None]), max_delay=rng.choice([0.001, 0.1]), same=[], wrap1=True, fault=fault,
                 pos=rng.randint(0, p["N"] - 1), dtype="float64", give_count=True, lib=[rng.choice(LIBS), rng.choice(LIBS)],
                 show=live.short_delays(rng, total, 0.4), wait=live.short_delays(rng, total, 0.1), jumps=world.gen_jumps(rng, 0.2), inmem=False,
                 sd=world.gen_delays(rng, total) if rng.random() < 0.5 else [], vd=world.gen_delays(rng, 8) if rng.random() < 0.2 else [],
                 fail_kind=rng.choice(world.ORDINARY))
        if p["fn"].endswith("multi"):
            b = rng.choice([None, None, 0, 1])
            p["binning"] = 0 if p["method"] == "diff" and b == 1 else b
            p["nlevel"] = None
        if fault == "fail" and src == "list":
            p["fault"] = "none"
        p["post"] = None
        if not p["complex"] and p["stats"] and s.shape[0] != 2 and rng.random() < 0.7:
            b = p["norm"] if p["norm"] is not None else 3
            norms = [x for x in (1, 2, 5, 6, 9, 10) if (x & 1 or b & 2) and (x & 12 == 0 or b & 4)] if p["method"] != "diff" else [2]
            p["post"] = dict(norm=rng.choice(norms), mode=rng.choice(["corr", "corr", "diff"]), scale=rng.random() < 0.4, size=rng.choice([1, 2, 3, 4]),
                             select=[rng.choice([0, 30.1, -44.7, 90]), rng.choice([10.3, 61.7, 180])] if len(s.shape) == 2 and rng.random() < 0.6 else None,
                             k=rng.choice([None, None, 1, [0, 2]]))
        if tail == "play_threaded":     # its display loop polls while the camera stalls
            p["sd"] = live.short_delays(rng, total, 0.4)
        return p

    def execute(self, plan, seed, decisions=None):
        import cddm.conf as conf
        from cddm import video as V
        S = Pipeline(plan, seed, decisions)
        if not plan["give_count"] or plan["binning"] == 1 and plan["method"] == "diff":
            raise InvalidPlan("count")
        fft, rfft = conf.CDDMConfig["fftlib"], conf.CDDMConfig["rfft2lib"]
        try:
            conf.set_fftlib(plan["lib"][0])
            conf.set_rfft2lib(plan["lib"][1])
            V._FIGURES.clear()
            S.run()
        finally:
            V._FIGURES.clear()
            conf.CDDMConfig.fftlib, conf.CDDMConfig.rfft2lib = fft, rfft
        r = S.r
        extra = [st["op"] for st in plan["chain"]["stages"]], plan["tail"], [st["kind"] for st in plan["shows"]]
        if plan["fault"] == "fail":
            if S.finished:
                r.bad("failure-hidden", "the camera failed at frame %d of %d, a result was returned" % (plan["pos"], plan["N"]))
            elif not world.same_error(S.error, S.failure):
                r.bad("wrong-exception", "%s: %s, expected %r" % (type(S.error).__name__, S.error, S.failure))
            return S.finish("fail", *extra)
        if plan["fault"] == "short":
            r.count("fault:stream_short")
            if S.finished:
                r.bad("short-accepted", "%d frames delivered, %d needed, a result was returned" % (plan["pos"], plan["N"]))
            elif not isinstance(S.error, Exception):
                r.bad("wrong-exception", repr(S.error))
            return S.finish("short", *extra)
        if S.error is not None:
            r.bad("unexpected-exception", "%s: %s" % (type(S.error).__name__, S.error))
            return S.finish("err", *extra)
        if S.finished:
            if not S.expect():
                r.count("probe:undecided")
                return S.finish("undecided", *extra)
            S.prepare()
            lin, multi, bg, var = S.split(S.result)
            ok = S.compare(lin, S.expect_lin(plan["N"]), "result")
            if ok and plan["stats"]:
                check_stats(S, bg, var, plan["N"], "result")
            if ok and S.multi and not r.violations:
                S.levels(multi)
            r.count("probe:end_to_end")
            if ok and not r.violations and plan.get("post"):
                S.post(plan["post"], lin, multi, bg, var)
        return S.finish("ok", *extra)


class Pipeline(MultiRun):
    def __init__(self, plan, seed, decisions):
        if plan["binning"] == 2 or plan.get("inmem") or plan["qs"] is not None or plan["same"] or not plan["wrap1"]:
            raise InvalidPlan("not here")
        ncam = 2 if "cc" in plan["fn"] else 1
        total = plan["count"] + plan["surplus"]
        if plan["tail"] == "play_threaded" and max([0.0] + plan["sd"]) > 0.5:
            raise InvalidPlan("polls too long")
        if plan["chain"]["ncam"] != ncam or plan["chain"]["n"] != total:
            raise InvalidPlan("chain")
        self.C = Chain(plan["chain"])
        if list(self.C.states[-1].shape) != list(plan["shape"]):
            raise InvalidPlan("shape")
        short = plan["fault"] == "short"
        if plan["fault"] != "none" and not 0 <= plan["pos"] < plan["N"] or plan["fault"] == "fail" and plan["src"] == "list":
            raise InvalidPlan("fault")
        MultiRun.__init__(self, dict(plan, fail_at=plan["pos"] if plan["fault"] == "fail" else -1), seed, decisions)
        self.frames = self.items = self.C.frames[:plan["pos"]] if short else self.C.frames
        world.DISPLAY.reset(plan["show"], plan["wait"])

    def body(self, viewer=None, around=None):
        from cddm import video as V
        plan, C, sim = self.plan, self.C, self.sim
        self.viewer = viewer
        np.random.seed(plan["data"] % (1 << 31))
        try:
            if plan["src"] == "list":
                v = list(self.items)
            else:
                def on_pull(k):
                    self.pulls = max(self.pulls, k + 1)
                v = Source(sim, self.items, plan["sd"], plan["fail_at"], self.failure, on_pull)
                if plan["src"] == "gen":
                    v = as_generator(v)
                elif plan["src"] == "refill":
                    v = Refill(v, self.items)
            none = [None] * len(C.ys)
            v = C.build(sim, v, none, lambda i, k: None, between=lambda i, v: live.build_stages(v, [st for st in plan["shows"] if st["at"] == i]))
            if plan["tail"] == "threaded":
                v = V.threaded(v, plan["queue"])
            elif plan["tail"] == "play":
                v = V.play(v, fps=plan["fps"] or 100.0, max_delay=plan["max_delay"])
            elif plan["tail"] == "play_threaded":
                v = V.play_threaded(v, fps=plan["fps"])
            with np.errstate(all="ignore"):
                self.result = self.call(self.tap(v), viewer)
            self.finished = True
        except sched.SimKill:
            raise
        except BaseException as e:
            self.error = e

    def expect(self):
        """Frames that reach the correlator, by the definition of each step."""
        self.copies = []
        for k in range(self.plan["N"]):
            x = self.C.expected(k)
            if x is None:
                return False
            self.copies.append([a for a, err in x])
            for a, err in x:
                if not np.isfinite(a).all() or not err <= 1e-9 * np.abs(a).max():
                    return False
        m = [np.abs(a).max() for x in self.copies for a in x]
        return max(m) < 1e6 * min(m)

    def post(self, P, lin, multi, bg, var):
        """Normalisation, log averaging or merging and k selection of the result."""
        from cddm import norm, multitau as M, map as kmap
        plan, r = self.plan, self.r
        data = [lin, multi] if self.multi else [lin]
        parts = [x for x in (data if not self.multi or len(multi[1]) else [lin])]
        if plan["complex"] or not plan["stats"] or list(self.C.states[-1].shape)[0] == 2 or any(not (np.asarray(x[1]) > 0).all() for x in parts):
            return
        kw = dict(norm=P["norm"], mode=P["mode"], scale=P["scale"])
        before = [stream.copy_of(x) for x in (data, bg, var)]
        with np.errstate(all="ignore"), world.quiet():
            got = M.normalize_multi((lin, multi), bg, var, **kw) if self.multi else (norm.normalize(lin, bg, var, **kw),)
        with np.errstate(all="ignore"):
            exp = [baseline(x, bg, var, P["norm"]) for x in data]
            if exp[0] is None:
                return
            v = (var[0] + var[1]) / 2 if isinstance(var, tuple) else var
            if P["mode"] == "diff":
                exp = [2 * (v[..., None] - x) for x in exp]
            if P["scale"]:
                exp = [x / v[..., None] for x in exp]
        size = [max([1.0] + [np.nanmax(np.abs(np.asarray(y) / np.min(x[1]))) for y in x[::2] if y is not None and np.size(y)] + [np.nanmax(np.abs(b)) ** 2 for b in stream.leaves(bg)]) for x in data]
        big = max(size) / (np.nanmin(v) if P["scale"] else 1.0)
        if not 0 < big < np.inf:           # no variance to within rounding
            return
        for j, (g, x) in enumerate(zip(got, exp)):
            msg = ref.close(g, x, 10 * big)
            if msg:
                r.bad("wrong-normalised", "%s, norm %d: %s" % (("fast", "slow")[j], P["norm"], msg))
                return
        r.count("probe:post_normalised")
        shape = tuple(self.C.states[-1].shape)
        flat = [np.asarray(x).reshape(x.shape[:x.ndim - 1 - len(shape)] + (int(np.prod(shape)), x.shape[-1])) for x in exp]
        y = []
        with world.quiet():
            if self.multi:
                n = flat[1].shape[-1]
                if n % 2 or n < 2 or flat[0].shape[-1] % n:
                    return
                t, a = M.log_merge(*got)
            else:
                t, a = M.log_average(got[0], P["size"])
        for k in range(flat[0].shape[0]):
            if self.multi:
                period = flat[0].shape[-1] // n
                t0, b = joined(spread(flat[0][k], n) + [(2 * period * 2 ** j * np.arange(n), x[k]) for j, x in enumerate(flat[1])])
            else:
                t0, b = joined(spread(flat[0][k], 2 * P["size"]))
            y.append(b)
        y = np.array(y).reshape(shape + (-1,))
        msg = ref.close(t, t0) or ref.close(a, y, 10 * big)
        if msg:
            r.bad("wrong-averaged", msg)
            return
        r.count("probe:post_averaged")
        if P["select"] is not None and len(shape) == 2:
            self.select(P, a, y, big, shape)
        for x, b in zip((data, bg, var), before):
            for c, d in zip(stream.leaves(x), stream.leaves(b)):
                if not np.array_equal(c, d, equal_nan=True):
                    r.bad("input-modified", "normalisation or averaging changed the data it was given")
                    return

    def select(self, P, a, y, big, shape):
        from cddm import map as kmap
        import warnings
        plan, r = self.plan, self.r
        angle, sector = P["select"]
        mask = np.array(plan["mask"]).reshape(shape) if plan["mask"] is not None else None
        q = dict(ksize=list(shape), frame=None, mask=plan["mask"], complex=False)
        K, A = grid(q)
        ks = range(int(K.max()) + 2) if P["k"] is None else [P["k"]] if isinstance(P["k"], int) else P["k"]
        exp = []
        for k in ks:
            s = select(q, K, A, k, angle, sector, 1)
            if s is None:
                return
            if s[2].any():
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    exp.append((K[s[2]].mean(), np.nanmean(y[s[0]], 0)))
        with warnings.catch_warnings(), world.quiet():
            warnings.simplefilter("ignore")
            got = kmap.k_select(a, angle, sector, k=P["k"], mask=mask)
        if isinstance(P["k"], int):
            got = [] if got is None else [got]
        if len(got) != len(exp):
            r.bad("wrong-selection", "%d wave vectors selected, expected %d" % (len(got), len(exp)))
            return
        for g, x in zip(got, exp):
            msg = ref.close(g[0], x[0], max(1.0, x[0])) or ref.close(g[1], x[1], 10 * big)
            if msg:
                r.bad("wrong-selection", "k %r: %s" % (x[0], msg))
                return
        r.count("probe:post_selected", len(exp))

    def finish(self, *extra):
        p = self.plan
        touched = any(st.get("inplace") or st.get("overwrite") for st in p["chain"]["stages"])
        self.frames, self.copies = ([], []) if touched else (self.C.frames, [list(x) for x in self.C.copies])
        world.DISPLAY.reset()
        r = self.r
        self.rounding = "pyfftw" in p["lib"]
        if max([0.0] + p["show"] + p["wait"]) >= 0.1 and p["shows"]:
            r.count("fault:display_stall")
        r.count("probe:tail_%s" % p["tail"])
        for st in p["shows"]:
            r.count("probe:figure_%s" % st["kind"])
        return MultiRun.finish(self, *extra)


CHECK = C17()
