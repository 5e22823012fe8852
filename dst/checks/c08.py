"""C08: a short or failing stream is an error, an over-long one is cropped."""
import contextlib
import numpy as np
from .. import world, sched
from ..runner import InvalidPlan
from .stream import MODULES, StreamRun, Viewer, gen_plan, leaves
from .c05 import STUBS



class AllocFaults(object):
    """The k-th array allocation (numpy.empty / numpy.zeros) by the simulated
    computation fails."""
    def __init__(self, sim, k):
        self.sim, self.k, self.n = sim, k, 0
        self.armed = k >= 0

    def __enter__(self):
        self.real = np.empty, np.zeros
        def wrap(f):
            def g(*a, **kw):
                if self.armed and sched.current_task() is not None:
                    self.n += 1
                    if self.n > self.k:
                        self.armed = False
                        self.sim.count("fault:allocation")
                        raise MemoryError("no memory for allocation %d" % self.n)
                return f(*a, **kw)
            return g
        np.empty, np.zeros = wrap(np.empty), wrap(np.zeros)

    def __exit__(self, *a):
        np.empty, np.zeros = self.real


class C08(object):
    RUNS = {"quick": 5000, "thorough": 80000}
    HANG_S = 120.0
    FIXED = ("fn", "shape", "mask", "td", "method", "norm", "complex", "data", "dtype", "fail_kind", "n", "half", "N", "count", "mode", "period", "fault", "next")
    RULE = ("random streaming computation with one fault (stream ends early, source raises, viewer raises while fed, allocation fails, surplus frames, or none) "
            "followed by a second random computation in the same thread; non-trivial: every run")
    DISTINCT = "hash of context switches and of (function, n, chunk, frames, method, norm, mode, complex, fault, position), per run"
    REAL = ["cddm.core.iccorr/iacorr", "cddm.multitau.iccorr_multi/iacorr_multi", "cddm.print_tools", "cddm._core_nb (compiled kernels)", "cddm.video.threaded"]
    STUB = STUBS + ["numpy.empty/zeros (raise MemoryError at a chosen call)"]

    def setup(self):
        world.setup(MODULES)

    def gen(self, rng):
        p = gen_plan(rng)
        p["give_count"] = p["give_count"] or p["t1"] is None
        N = p["N"]
        f = rng.choice(["short", "short", "raise", "raise", "raise", "viewer", "viewer", "plot", "alloc", "surplus", "none"])
        p.update(fault=f, deliver=None, pos=-1, alloc=-1, verbose=rng.choice([0, 1, 2, -1, -2]))
        edge = [0, 1, p["half"] - 1, p["half"], p["half"] + 1, N - 1, N]
        pos = max(0, rng.choice(edge + [rng.randint(0, N)] * 4))
        if f == "short":
            p["deliver"] = min(pos, N - 1)
            p["src"] = rng.choice(["iter", "gen", "refill"])
        elif f == "raise":
            p["fail_at"] = min(pos, p["count"] + 2)
            p["fail_kind"] = rng.choice(["SourceError", "OSError", "ValueError", "MemoryError", "StopAsync", "KeyboardInterrupt"])
            p["surplus"] = 3
            if p["src"] == "list":
                p["src"] = "gen"
            if p["fail_kind"] == "KeyboardInterrupt":
                p["qs"] = None           # in a prefetch thread it is nobody's Ctrl-C
        elif f in ("viewer", "plot"):
            p["viewer"] = True
            p["pos"] = rng.choice([0, 0, 1, 2, 4])
            p["fail_kind"] = rng.choice(["SourceError", "OSError", "ValueError", "KeyboardInterrupt"])
        elif f == "alloc":
            p["alloc"] = rng.choice([rng.randint(0, 12), rng.randint(0, 60)])
            p["qs"] = None
        elif f == "surplus":
            p["src"] = rng.choice(["iter", "gen", "refill"])
            p["surplus"] = rng.choice([1, 2, 10])
        if p["src"] == "list":
            p["surplus"] = 0
        p["jumps"] = world.gen_jumps(rng, 0.1)
        q = gen_plan(rng)
        q.update(sd=[], jumps={}, surplus=0, viewer=False)
        p["next"] = q
        return p

    def execute(self, plan, seed, decisions=None):
        if plan["fault"] == "short" and not 0 <= (plan["deliver"] if plan["deliver"] is not None else -1) < plan["N"]:
            raise InvalidPlan("short")
        if plan["src"] == "list" and (plan["fault"] in ("short", "raise") or plan["surplus"]):
            raise InvalidPlan("source")
        S = Faulty(plan, seed, decisions)
        r = S.r
        failure = S.failure
        Q = StreamRun(plan["next"], seed, decisions)
        Q.sim = S.sim
        import cddm.conf

        def after():
            with contextlib.redirect_stdout(Q.stdout):
                Q.body(None)
            Q.verbose_after = cddm.conf.CDDMConfig.verbose
        viewer = None
        if plan["viewer"]:
            viewer = Viewer(S, [], plan["pos"] if plan["fault"] == "viewer" else -1, failure)
            if plan["fault"] == "plot":
                viewer = PlotFails(S, [], -1, failure)
                viewer.fail_plot = plan["pos"]
        faults = AllocFaults(S.sim, plan["alloc"])
        S.run(viewer, around=faults, after=after)
        fired = S.sim.counters
        N = plan["N"]
        hit_source = fired.get("fault:source_exception", 0) and S.reached_failure()
        hit_viewer = fired.get("fault:viewer_exception", 0)
        hit_alloc = fired.get("fault:allocation", 0)
        if S.r.violations:
            return S.finish(plan["fault"])
        if plan["fault"] == "short":
            r.count("fault:short_stream")
            if S.error is None:
                r.bad("short-stream-accepted", "%d of %d frames delivered, yet a result was returned" % (plan["deliver"], N))
            elif isinstance(S.error, (SystemExit, KeyboardInterrupt)):
                r.bad("wrong-exception", repr(S.error))
        elif hit_viewer or hit_source:
            if S.error is None:
                r.bad("failure-swallowed", "%s raised %r, yet a result was returned" % ("viewer" if hit_viewer else "source", failure))
            elif not world.same_error(S.error, failure):
                r.bad("wrong-exception", "raised %r instead of %r" % (S.error, failure))
        elif hit_alloc and S.error is not None:
            if not isinstance(S.error, MemoryError):
                r.bad("wrong-exception", "raised %r when memory ran out" % (S.error,))
        elif S.error is not None:
            r.bad("unexpected-exception", "%s: %s" % (type(S.error).__name__, S.error))
        if S.finished and not r.violations:
            S.prepare()
            lin, multi, bg, var = S.split(S.result)
            S.compare(lin, S.expect_lin(N), "result (fault %s)" % plan["fault"])
        sized = plan["src"] == "list" and plan["qs"] is None
        if not sized and S.consumed > N + 1:
            r.bad("over-consumption", "%d frames taken, %d needed" % (S.consumed, N))
        if not sized and plan["qs"] is None and S.pulls > N + 1:
            r.bad("over-consumption", "%d reads of the source, %d needed" % (S.pulls, N))
        # what comes afterwards
        if S.verbose_after != plan["verbose"]:
            r.bad("verbosity-changed", "verbosity %r before, %r after (%s)" % (plan["verbose"], S.verbose_after, plan["fault"]))
        if not r.violations:
            if Q.error is not None:
                r.bad("next-computation-failed", "%s: %s" % (type(Q.error).__name__, Q.error))
            elif Q.finished:
                Q.prepare()
                lin, multi, bg, var = Q.split(Q.result)
                Q.r = r
                Q.compare(lin, Q.expect_lin(Q.plan["N"]), "next computation")
                said = [x for x in Q.stdout.getvalue().replace("\r", "\n").split("\n") if x.strip() and not x.startswith("WARNING")]
                if bool(said) != (plan["verbose"] >= 1):
                    r.bad("verbosity-changed", "verbosity %d, but the next computation printed %r" % (plan["verbose"], said[:2]))
                r.count("probe:next_computation_checked")
        r.nontrivial = True
        return S.finish(plan["fault"], plan["fail_at"], plan["deliver"], plan["pos"], plan["alloc"])


class PlotFails(Viewer):
    fail_plot = -1

    def plot(self):
        Viewer.plot(self)
        if self.k - 1 == self.fail_plot:
            self.run.sim.count("fault:viewer_exception")
            raise self.failure


class Faulty(StreamRun):
    def __init__(self, plan, seed, decisions):
        StreamRun.__init__(self, plan, seed, decisions, deliver=plan["deliver"])
        if self.failure is None and plan["fault"] in ("viewer", "plot"):
            self.failure = world.FAILURES[plan["fail_kind"]](plan["pos"])

    def source(self):
        keep = self.failure
        if self.plan["fault"] in ("viewer", "plot"):
            self.failure = None
        try:
            return StreamRun.source(self)
        finally:
            self.failure = keep

    def reached_failure(self):
        """Was the failing frame needed (or the one surplus read)?"""
        # a prefetch thread may run into the failure behind the frames that are needed
        return self.plan["qs"] is None or self.error is not None or self.plan["fail_at"] <= self.plan["N"] - 1


CHECK = C08()
