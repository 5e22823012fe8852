"""C09: concurrent computations do not influence each other."""
import contextlib, io
import numpy as np
from .. import world, sched
from ..runner import Result
from .jobs import MODULES, Job, gen_job, same

TRACE = ("cddm/multitau.py", "cddm/core.py", "cddm/print_tools.py", "cddm/video.py", "cddm/fft.py", "cddm/norm.py", "cddm/map.py")


class C09(object):
    RUNS = {"quick": 3000, "thorough": 50000}
    HANG_S = 120.0
    FIXED = ("jobs", "verbose")
    RULE = ("two to four random jobs (streaming or in-memory correlation, normalisation, log averaging, merging and k selection of the results, processing pipeline with or without prefetch thread and playback, loading) run at once in "
            "threads that are preempted at lines of the package; non-trivial: at least one context switch")
    DISTINCT = "hash of context switches and of the jobs, per run"
    REAL = ["cddm.core, cddm.multitau, cddm.norm, cddm.print_tools, cddm.video, cddm.fft (kernels run without being interrupted)"]
    STUB = ["frame sources", "clock and sleep", "threading.Lock/RLock, Thread.start/join (scheduler-owned)"]

    def setup(self):
        world.setup(MODULES)

    def gen(self, rng):
        k = rng.choice([2, 2, 3, 4])
        s = world.gen_sched(rng, k)
        return dict(jobs=[gen_job(rng) for _ in range(k)], verbose=rng.choice([0, 0, 1, 2, -1]), sched=s, jumps=world.gen_jumps(rng, 0.2))

    def execute(self, plan, seed, decisions=None):
        import cddm.conf
        r = Result()
        sim = world.make_sim(plan, seed, decisions, TRACE, fair_after=60000, max_steps=400000)
        jobs = [Job(j, sim) for j in plan["jobs"]]
        alone = []
        out = [None] * len(jobs)
        text = io.StringIO()

        def work(k):
            def f():
                try:
                    out[k] = ("ok", jobs[k].run())
                except Exception as e:
                    out[k] = ("error", e)
            return f

        def main():
            import threading
            ts = [threading.Thread(target=work(k)) for k in range(len(jobs))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()

        cddm.conf.CDDMConfig.verbose = plan["verbose"]
        try:
            with contextlib.redirect_stdout(text):
                sim.run(("main", main))
            after = cddm.conf.CDDMConfig.verbose
        finally:
            cddm.conf.CDDMConfig.verbose = 0
        r.take(sim)
        for name, tb in sim.thread_exceptions:
            raise sched.HarnessError(tb)
        if sim.failure is not None:
            r.bad("no-progress", str(sim.failure))
        # each job alone, in its own simulation without preemption
        for k, j in enumerate(plan["jobs"]):
            if r.violations:
                break
            solo = world.make_sim({"sched": {"kind": "random", "p_line": 0, "p_sync": 0, "p_timer": 0}}, 0, {}, ())
            J = Job(j, solo)
            res = []
            def alone_main():
                with contextlib.redirect_stdout(io.StringIO()):
                    res.append(J.run())
            solo.run(("main", alone_main))
            for name, tb in solo.thread_exceptions:
                r.bad("fails-alone", tb[-600:])
            if r.violations:
                break
            kind, val = out[k]
            if kind == "error":
                r.bad("fails-concurrently", "job %d (%s): %s: %s" % (k, j["kind"], type(val).__name__, val))
            elif not same(val, res[0]):
                r.bad("differs-concurrently", "job %d (%s): result differs from that of the same job run alone" % (k, j["kind"]))
            else:
                msg = jobs[k].check(val)
                if msg:
                    r.bad("wrong-result", "job %d (%s): %s" % (k, j["kind"], msg))
            r.count("probe:job_" + j["kind"])
        if not r.violations:
            if after != plan["verbose"]:
                r.bad("verbosity-changed", "verbosity %r before, %r after" % (plan["verbose"], after))
            said = [x for x in text.getvalue().replace("\r", "\n").split("\n") if x.strip() and not x.startswith("WARNING")]
            if said and plan["verbose"] < 1:
                r.bad("verbosity-changed", "verbosity %d, but printed %r" % (plan["verbose"], said[:3]))
            n = sum(text.getvalue().count(x) for x in ("Computing cross-correlation", "Computing auto-correlation"))
            want = sum(j["kind"] in ("stream", "multi_mem") or j["kind"] == "post" and j["multi"] for j in plan["jobs"])
            if plan["verbose"] >= 1 and n != want:
                r.bad("messages-lost", "%d computations, %d announced at verbosity %d" % (want, n, plan["verbose"]))
        r.nontrivial = sim.switches > 0
        r.key = world.digest(sim.digest(), [j["kind"] for j in plan["jobs"]], [j["data"] for j in plan["jobs"]])
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), [v["kind"] for v in r.violations], text.getvalue() if plan["verbose"] < 2 else "")
        r.trace = ["%d %s %s %r" % e for e in sim.log][:200]
        r.counters.pop("clock_jump", None)
        if sim.jumps_fired:
            r.count("fault:clock_jump", sim.jumps_fired)
        return r


CHECK = C09()
