"""C07: running background and variance are those of the frames processed."""
import numpy as np
from .. import world, ref
from .stream import MODULES, StreamRun, gen_plan
from .c05 import STUBS


def check_stats(S, bg, var, M, what):
    """bg/var of all cameras over the first M processed frames."""
    ok = True
    plan, r = S.plan, S.r
    bgs, vrs = (bg, var) if S.cross else ((bg,), (var,))
    if not isinstance(bgs, tuple) or not isinstance(vrs, tuple) or len(bgs) != len(S.F) or len(vrs) != len(S.F):
        r.bad("wrong-stats", "%s: not one background and variance per camera" % what)
        return False
    for c, F in enumerate(S.F):
        m, v = ref.stats(F[:M])
        for name, g, x in (("background", bgs[c], m), ("variance", vrs[c], v)):
            x = ref.unflatten(x[:, None], plan["shape"], plan["mask"])[..., 0]
            msg = ref.close(g, x, max(1.0, S.scale / (4 * plan["N"])))
            if msg:
                r.bad("wrong-" + name, "%s, camera %d, over %d frames: %s" % (what, c + 1, M, msg))
                ok = False
    return ok


class C07(object):
    RUNS = {"quick": 4000, "thorough": 60000}
    HANG_S = 120.0
    FIXED = ("fail_at", "fn", "shape", "mask", "td", "method", "norm", "complex", "data", "dtype", "fail_kind", "n", "half", "N", "count", "mode", "period")
    RULE = ("random streaming computation with statistics (as C05, half of them with automatic background), background and variance of every intermediate and the final result "
            "compared; non-trivial: a result was returned")
    DISTINCT = "hash of context switches and of (function, n, chunk, frames, method, norm, mode, complex), per run"
    REAL = ["cddm.core.iccorr/iacorr", "cddm.multitau.iccorr_multi/iacorr_multi", "cddm._core_nb (compiled kernels)", "cddm.video.threaded"]
    STUB = STUBS

    def setup(self):
        world.setup(MODULES)

    def gen(self, rng):
        p = gen_plan(rng, large=True)
        p.update(stats=True, viewer=True, auto_bg=rng.random() < 0.5, vd=[], interval=rng.choice([1, 1, 1, 2]))
        if p["fn"].endswith("multi") and rng.random() < 0.3:
            p["binning"] = 0 if p["method"] == "diff" else rng.choice([0, 1, 2])
        p["jumps"] = world.gen_jumps(rng, 0.1)
        if p["src"] == "list":
            p["surplus"] = 0
        return p

    def execute(self, plan, seed, decisions=None):
        S = StreamRun(plan, seed, decisions).run()
        r = S.r
        if S.error is not None:
            r.bad("unexpected-exception", "%s: %s" % (type(S.error).__name__, S.error))
            return S.finish("err")
        if S.finished:
            S.prepare()
            half, N = plan["half"], plan["N"]
            nchunks = N // half
            ok = True
            for j, c in enumerate([c for c in S.viewer.calls if c[0] == "set"]):
                M = min((j * plan["interval"] + 1), nchunks) * half
                if not check_stats(S, c[3], c[4], M, "update %d" % j):
                    ok = False
                    break
                r.count("probe:snapshots_checked")
            lin, multi, bg, var = S.split(S.result)
            if ok:
                check_stats(S, bg, var, N, "final result")
            if plan["auto_bg"]:
                S.compare(lin, S.expect_lin(N), "final result of subtracted frames")
                r.count("probe:auto_background")
        return S.finish(plan["auto_bg"])


CHECK = C07()
