"""C06: multi-level output equals the correlation of the recursively halved stream."""
import contextlib
import numpy as np
from .. import world, ref
from ..runner import InvalidPlan
from . import stream
from .stream import MODULES, StreamRun, gen_plan
from .c05 import STUBS

PROBE = 3.0      # height of the one-hot probes of camera 2 (camera 1: 1)


class C06(object):
    RUNS = {"quick": 4000, "thorough": 60000}
    HANG_S = 120.0
    FIXED = ("fail_at", "fn", "shape", "mask", "td", "method", "norm", "complex", "data", "dtype", "fail_kind", "n", "half", "N", "count", "mode", "period", "binning")
    RULE = ("random multi-level computation, streaming or in memory (delays n, chunk, length, levels, binning, method, norm, mode, times, mask, divisor, dtype, auto background, "
            "random numbers of the selection) x seeded schedule; non-trivial: a result was returned")
    DISTINCT = "hash of context switches and of (function, n, chunk, frames, levels, binning, method, norm, mode, complex), per run"
    REAL = ["cddm.multitau (iccorr_multi, iacorr_multi, ccorr_multi, acorr_multi)", "cddm.core", "cddm._core_nb (compiled kernels)", "cddm.video.threaded"]
    STUB = STUBS

    def setup(self):
        world.setup(MODULES)

    def gen(self, rng):
        p = gen_plan(rng, fn=rng.choice(["iccorr_multi", "iacorr_multi"]), big=True, large=True)
        p["jumps"] = world.gen_jumps(rng, 0.1)
        p["viewer"] = rng.random() < 0.3
        b = rng.choice([1, 1, 0, 2, None])
        if p["method"] == "diff" and b == 1:
            b = 0
        p["binning"] = b
        top = 0
        while p["N"] // 2 ** (top + 1) >= p["n"]:
            top += 1
        p["nlevel"] = rng.choice([None, None, None, rng.randint(0, top + 1)])
        if b == 2 and p["N"] > 300:
            b = p["binning"] = 0
        if b == 2:
            # pixels 0..N-1 carry one-hot probes that tell which frames were picked
            if p["half"] < 3:
                p["auto_bg"] = False
            p["shape"] = [p["N"] + rng.choice([1, 3])]
            p["mask"] = p["td"] = None
            p["same"] = []
            if p["dtype"] == "uint8":
                p["dtype"] = "float64"
        if p["src"] == "list":
            p["surplus"] = 0
        p["inmem"] = p["n"] > 4 and p["period"] == 1 and rng.random() < 0.35
        p["align"] = rng.random() < 0.3
        return p

    def execute(self, plan, seed, decisions=None):
        if plan["binning"] == 1 and plan["method"] == "diff":
            raise InvalidPlan("binning")
        choose = plan["binning"] == 2
        if choose and (len(plan["shape"]) != 1 or plan["shape"][0] < plan["N"] or plan["auto_bg"] and plan["half"] < 3 or plan["mask"] is not None or plan["dtype"] == "uint8" or plan.get("same")):
            raise InvalidPlan("probes")
        if plan["nlevel"] is not None and plan["nlevel"] < 0:
            raise InvalidPlan("nlevel")
        S = Run(plan, seed, decisions)
        S.run()
        r = S.r
        if S.error is not None:
            r.bad("unexpected-exception", "%s: %s" % (type(S.error).__name__, S.error))
            return S.finish("err")
        if S.finished:
            S.prepare()
            lin, multi, bg, var = (*S.result, None, None) if plan["inmem"] else S.split(S.result)
            if plan["inmem"]:
                S.plan = dict(plan, mode="full")
            S.compare(lin, S.expect_lin(plan["N"]), "linear part")
            S.levels(multi)
        return S.finish(plan["nlevel"], plan["binning"], plan["inmem"])


class Run(StreamRun):
    def __init__(self, plan, seed, decisions):
        StreamRun.__init__(self, plan, seed, decisions)
        if plan["binning"] == 2:
            N = plan["N"]
            for c in range(2 if self.cross else 1):
                for k, fr in enumerate(self.frames):
                    fr[c][:N] = 0
                    if k < N:
                        fr[c][k] = PROBE if c else 1.0
                for k, fr in enumerate(self.copies):
                    fr[c][...] = self.frames[k][c]

    def call(self, video, viewer=None):
        plan = self.plan
        if not plan["inmem"]:
            return StreamRun.call(self, video, viewer)
        import cddm.multitau as M
        N = plan["N"]
        kw = self.kwargs()
        for k in ("auto_background", "mode", "stats", "chunk_size", "count", "period"):
            kw.pop(k, None)
        for k in ("t1", "t2", "t"):
            if k in kw:
                kw[k] = kw[k][:N]
        kw["align"] = plan["align"]
        ncam = 2 if self.cross else 1
        for fr in video:           # keep the consumption through the same source
            pass
        arr = [np.array([x[c] for x in self.frames[:N]]) for c in range(ncam)]
        if plan["auto_bg"]:
            arr = [a - a[:plan["half"]].astype(complex).mean(0) for a in arr]
        else:
            arr = [a.astype("complex128") if plan["dtype"] in ("uint8", "complex64", "float64") else a for a in arr]
        f = M.ccorr_multi if self.cross else M.acorr_multi
        return f(*arr, **kw)

    # ------------------------------------------------------------ the levels
    def levels(self, multi):
        plan, r = self.plan, self.r
        n, N, half = plan["n"], plan["N"], plan["half"]
        top = 0
        while N // 2 ** (top + 1) >= n:
            top += 1
        want = top if plan["nlevel"] is None else plan["nlevel"] if plan["inmem"] else min(plan["nlevel"], top)
        got = len(multi[1])
        if got != want:
            r.bad("wrong-levels", "%d levels, expected %d" % (got, want))
            return
        binning = plan["binning"]
        if binning is None:
            binning = 0 if self.method == "diff" else 1
        F = list(self.F)
        S = [np.abs(f) ** 2 for f in F]
        picks = list(range(N))
        for j in range(1, want + 1):
            if binning == 2:
                picks = self.find_picks(multi, j, picks)
                if picks is None:
                    return
                if j == 1:
                    r.count("probe:random_selections", len(picks))
                    if len(picks) >= 30 and not plan["inmem"] and N >= 4 * half and len(set(k % 2 for k in picks)) == 1:
                        r.bad("not-random", "all %d selected frames are the %s of their pair" % (len(picks), "first" if picks[0] % 2 == 0 else "second"))
                        return
                F = [f[picks] for f in self.F]
                S = [np.abs(f) ** 2 for f in F]
            elif binning == 1:
                F, S = [ref.halve(f, 1) for f in F], [ref.halve(s, 1) for s in S]
            else:
                F, S = [f[::2] for f in F], [s[::2] for s in S]
            M = len(F[0])
            t = np.arange(M)
            allowed = ref.chunks_allowed(M, half, False) if plan["mode"] == "chunk" else None
            exp = ref.correlate(F[0], F[1] if self.cross else None, t, t, n, self.norm, self.method, not self.cross, plan["complex"],
                                S[0], S[1] if self.cross else None, allowed=allowed)
            lev = [None if x is None else x[j - 1] for x in multi]
            if not self.compare(lev, exp, "level %d of %d" % (j, want)):
                return
            r.count("probe:levels_checked")

    def find_picks(self, multi, j, prev):
        """Frames of the stream that level j holds, from the probe pixels."""
        n, N = self.plan["n"], self.plan["N"]
        c = np.asarray(multi[0][j - 1])
        if c.ndim != 2 or c.shape[0] != self.plan["shape"][0]:
            self.r.bad("wrong-corr", "level %d: shape %r" % (j, c.shape))
            return None
        x = np.abs(c[:N, 1 if self.method == "diff" and not self.cross else 0])
        exp = {"corr": PROBE, "fft": PROBE}.get(self.method, (PROBE - 1) ** 2) if self.cross else 1.0
        rest = np.zeros(N)          # what a frame that was not picked adds
        if self.plan["auto_bg"] and (self.cross or self.method != "diff"):
            # the mean of the first chunk was subtracted from its own probes
            m, M = 1.0 / self.plan["half"], len(prev) // 2
            rest[:self.plan["half"]] = M * m * m * exp
            x = x - rest
            exp = np.where(rest > 0, 1 - 2 * m, 1.0) * exp
        exp = np.broadcast_to(exp, (N,))
        got = [int(k) for k in np.flatnonzero(x > 0.5 * exp)]
        single = self.method == "diff" and not self.cross and len(prev) // 2 < 2
        if single:                  # a single element leaves no trace in a difference
            return got if got else [prev[0]]
        if self.cross and any(abs(x[k] - exp[k]) > (0.05 if ref.SINGLE else 1e-6) for k in got):
            self.r.bad("wrong-selection", "level %d: the cameras hold different frames (probe values %r)" % (j, sorted(set(np.round(x, 3)))))
            return None
        pairs = [(prev[2 * k], prev[2 * k + 1]) for k in range(len(prev) // 2)]
        if len(got) != len(pairs) or any(g not in p for g, p in zip(got, pairs)):
            self.r.bad("wrong-selection", "level %d holds frames %r of %r: not one of each pair" % (j, got, prev))
            return None
        return got


CHECK = C06()
