"""C15: what a live viewer is given, and that it does not matter."""
import numpy as np
from .. import world
from .stream import MODULES, StreamRun, Viewer, gen_plan, leaves
from .c05 import STUBS
from .c07 import check_stats


class C15(object):
    RUNS = {"quick": 3000, "thorough": 50000}
    HANG_S = 120.0
    FIXED = ("fail_at", "fn", "shape", "mask", "td", "method", "norm", "complex", "data", "dtype", "fail_kind", "n", "half", "N", "count", "mode", "period")
    RULE = ("random streaming computation (as C05) with a recording viewer of random interval and delays, and the same computation without it; non-trivial: a result was returned")
    DISTINCT = "hash of context switches and of (function, n, chunk, frames, method, norm, mode, complex, interval), per run"
    REAL = ["cddm.core.iccorr/iacorr", "cddm.multitau.iccorr_multi/iacorr_multi", "cddm._core_nb (compiled kernels)", "cddm.video.threaded"]
    STUB = STUBS

    def setup(self):
        world.setup(MODULES)

    def gen(self, rng):
        p = gen_plan(rng, large=True)
        p.update(viewer=True, vd=world.gen_delays(rng, 8), interval=rng.choice([1, 2, 2, 3, 4, 5, 9]))
        if p["fn"].endswith("multi") and rng.random() < 0.3:
            p["binning"] = 0 if p["method"] == "diff" else rng.choice([0, 1, 2])
        p["jumps"] = world.gen_jumps(rng, 0.2)
        if p["src"] == "list":
            p["surplus"] = 0
        return p

    def execute(self, plan, seed, decisions=None):
        S = StreamRun(plan, seed, decisions)
        A = StreamRun(plan, seed, decisions)
        A.sim = S.sim
        S.run(after=lambda: A.body(None))
        r = S.r
        if S.error is not None:
            r.bad("unexpected-exception", "%s: %s" % (type(S.error).__name__, S.error))
            return S.finish("err")
        if not S.finished:
            return S.finish()
        S.prepare()
        half, N, k = plan["half"], plan["N"], plan["interval"]
        nchunks = N // half
        calls = S.viewer.calls
        kinds = [c[0] for c in calls]
        want = (nchunks + 1 + k - 1) // k          # results: one per chunk, and the final one
        if kinds != ["set", "plot"] * want:
            r.bad("wrong-updates", "%d chunks, interval %d: viewer got %r, expected %d times set_data and plot" % (nchunks, k, kinds, want))
            return S.finish("kinds")
        sized = plan["src"] == "list" and plan["qs"] is None
        for j in range(want):
            i = j * k
            final = i >= nchunks
            M = min(i + 1, nchunks) * half
            c = calls[2 * j]
            for what, seen in (("set_data", c[1]), ("plot", calls[2 * j + 1][1])):
                if not sized and (seen not in (N, N + 1) if final else seen != M):
                    r.bad("late-update", "update %d (%s): %d frames taken from the source, result is of %d" % (j, what, seen, M))
                    return S.finish("late")
            d = c[2][0] if S.multi else c[2]
            if not S.compare(d, S.expect_lin(M), "update %d" % j):
                return S.finish("data")
            if plan["stats"]:
                if not check_stats(S, c[3], c[4], M, "update %d" % j):
                    return S.finish("stats")
            elif c[3] is not None or c[4] is not None:
                r.bad("wrong-updates", "update %d: background or variance given without stats" % j)
            if final:
                a, b = leaves(c[2]), leaves(S.split(S.result)[0:2] if S.multi else S.split(S.result)[0])
                if len(a) != len(b) or any(not np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)):
                    r.bad("wrong-updates", "the last update differs from the result")
            r.count("probe:updates_checked")
        if A.error is not None:
            r.bad("unexpected-exception", "without viewer: %s: %s" % (type(A.error).__name__, A.error))
        elif A.finished:
            a, b = leaves(S.result), leaves(A.result)
            if len(a) != len(b) or any(not np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)):
                r.bad("viewer-changes-result", "results with and without viewer differ")
        return S.finish(k)


CHECK = C15()
