"""C05: linear part of the streaming correlators equals the defining double sum."""
import numpy as np
from .. import world
from .stream import MODULES, StreamRun, gen_plan

STUBS = ["camera (frame source)", "viewer", "clock and sleep", "threading.Lock/RLock, Thread.start/join (scheduler-owned)"]


class C05(object):
    RUNS = {"quick": 4000, "thorough": 60000}
    HANG_S = 120.0
    FIXED = ("fail_at", "fn", "shape", "mask", "td", "method", "norm", "complex", "data", "dtype", "fail_kind", "n", "half", "N", "count", "mode", "period")
    RULE = ("random streaming computation (function, delays n, chunk, length, method, norm, mode, times, mask, divisor, dtype, auto background, source kind incl. refilled buffers, "
            "prefetch thread, camera stalls, clock jumps) x seeded schedule; non-trivial: a result was returned")
    DISTINCT = "hash of context switches and of (function, n, chunk, frames, method, norm, mode, complex), per run"
    REAL = ["cddm.core.iccorr/iacorr, ccorr/acorr", "cddm.multitau.iccorr_multi/iacorr_multi", "cddm._core_nb (compiled kernels)", "cddm.video.threaded"]
    STUB = STUBS

    def setup(self):
        world.setup(MODULES)

    def gen(self, rng):
        p = gen_plan(rng, large=True)
        p["vd"] = world.gen_delays(rng, 8) if rng.random() < 0.2 else []
        p["jumps"] = world.gen_jumps(rng, 0.2)
        if p["src"] == "list":
            p["surplus"] = 0
        return p

    def execute(self, plan, seed, decisions=None):
        S = StreamRun(plan, seed, decisions).run()
        r = S.r
        if S.error is not None:
            r.bad("unexpected-exception", "%s: %s" % (type(S.error).__name__, S.error))
            return S.finish("err")
        if S.finished:
            S.prepare()
            half, N = plan["half"], plan["N"]
            lin, multi, bg, var = S.split(S.result)
            S.compare(lin, S.expect_lin(N), "final")
            sets = [c for c in S.viewer.calls if c[0] == "set"] if S.viewer else []
            nchunks = N // half
            idx = [i * plan["interval"] for i in range(len(sets))]
            for j, c in enumerate(sets):
                i = idx[j]
                if i >= nchunks:
                    break
                if nchunks > 4 and i not in (0, 1, nchunks - 1) and (plan["data"] + i) % 3:
                    continue
                d = c[2][0] if S.multi else c[2]
                if not S.compare(d, S.expect_lin((i + 1) * half), "after chunk %d" % i):
                    break
                r.count("probe:snapshots_checked")
        return S.finish()


CHECK = C05()
