"""C14: message control is as the user left it, and messages change no result."""
import contextlib, io, re
import numpy as np
from .. import world, sched
from ..runner import Result
from .c08 import AllocFaults
from .jobs import MODULES, Job, gen_job, same


class Out(io.StringIO):
    """Standard output whose k-th write may fail."""
    def __init__(self, sim, k):
        io.StringIO.__init__(self)
        self.sim, self.k, self.n = sim, k, 0

    def write(self, s):
        self.n += 1
        if self.k >= 0 and self.n > self.k:
            self.k = -1
            self.sim.count("fault:stdout_write")
            raise OSError(28, "stdout: no space left")
        return io.StringIO.write(self, s)


def silent(text):
    """Nothing was written, warnings apart."""
    return not re.sub("WARNING[^\n]*\n?", "", text)


def messages(text):
    return [x for x in text.replace("\r", "\n").split("\n") if x.strip() and not x.startswith("WARNING")]


class C14(object):
    RUNS = {"quick": 2500, "thorough": 40000}
    HANG_S = 120.0
    FIXED = ("job",)
    RULE = ("random history of 3-9 operations: set_verbose, disable_prints, enable_prints, restoring a saved level, and computations of every kind in which the source, the viewer, "
            "an allocation or a write to standard output may fail, under a coarse or jumping clock; non-trivial: at least one computation ended")
    DISTINCT = "hash of the operations and their outcomes, per run"
    REAL = ["cddm.print_tools, cddm.conf, cddm.core, cddm.multitau, cddm.norm, cddm.video, cddm.fft"]
    STUB = ["frame sources", "viewer", "clock and sleep", "standard output (fails at a chosen write)", "numpy.empty/zeros (fail at a chosen call)", "threading (scheduler-owned)"]

    def setup(self):
        world.setup(MODULES)

    def gen(self, rng):
        ops = []
        for _ in range(rng.randint(3, 9)):
            x = rng.random()
            if x < 0.2:
                ops.append(dict(op="set", level=rng.choice([0, 1, 2, 2, 3, -1])))
            elif x < 0.32:
                ops.append(dict(op="disable"))
            elif x < 0.4:
                ops.append(dict(op="enable"))
            elif x < 0.5:
                ops.append(dict(op="restore"))
            else:
                j = gen_job(rng)
                if j["kind"] in ("stream", "multi_mem"):
                    j["p"]["sd"] = []
                f = rng.choice(["none", "none", "source", "viewer", "alloc", "stdout"])
                k = rng.choice([0, 0, 1, 2, 5, 11])
                ops.append(dict(op="job", job=j, fault=f, at=k))
        return dict(ops=ops, start=rng.choice([0, 1, 2]), coarse=rng.choice([0.0, 0.0, 0.015, 1e6]), jumps=world.gen_jumps(rng, 0.3), sched={"kind": "random", "p_line": 0.0, "p_sync": 0.1, "p_timer": 0.0})

    def execute(self, plan, seed, decisions=None):
        import cddm.conf as conf
        from cddm import print_tools as pt
        r = Result()
        sim = world.make_sim(plan, seed, decisions, (), fair_after=60000, max_steps=400000)
        sim.coarse = plan["coarse"]
        outcomes = []

        def check(level, what):
            now = conf.CDDMConfig.verbose
            if now != level:
                r.bad("verbosity-changed", "after %s: verbosity %r, expected %r" % (what, now, level))

        def main():
            # what every computation gives with printing off and no fault
            plain = []
            conf.set_verbose(0)
            for op in plan["ops"]:
                if op["op"] != "job":
                    plain.append(None)
                    continue
                text = io.StringIO()
                with contextlib.redirect_stdout(text):
                    J = Job(op["job"], sim)
                    plain.append(J.run())
                msg = J.check(plain[-1])
                if msg:
                    r.bad("wrong-result", msg)
                if not silent(text.getvalue()):
                    r.bad("printed-when-silent", "verbosity 0: %r" % text.getvalue()[:80])
            level = plan["start"]
            conf.set_verbose(level)
            saved = []
            for k, op in enumerate(plan["ops"]):
                if r.violations:
                    return
                what = "operation %d (%s)" % (k, op["op"])
                if op["op"] == "set":
                    got = conf.set_verbose(op["level"])
                    if got != level:
                        r.bad("wrong-level", "%s returned %r, previous level was %r" % (what, got, level))
                    level = max(0, op["level"])
                elif op["op"] == "disable":
                    got = pt.disable_prints()
                    if got != level:
                        r.bad("wrong-level", "%s returned %r, previous level was %r" % (what, got, level))
                    saved.append(got)
                    level = -abs(level)
                elif op["op"] == "enable":
                    pt.enable_prints()
                    level = abs(level)
                elif op["op"] == "restore":
                    if not saved:
                        continue
                    level = saved.pop()
                    pt.enable_prints(level)
                else:
                    self.job(op, k, level, plain[k], sim, r, outcomes)
                    what = "operation %d (%s, fault %s)" % (k, op["job"]["kind"], op["fault"])
                check(level, what)

        conf.CDDMConfig.verbose = 0
        try:
            sim.run(("main", main))
        finally:
            conf.CDDMConfig.verbose = 0
        r.take(sim)
        for name, tb in sim.thread_exceptions:
            if name == "main":
                if "/cddm/" in tb:
                    r.bad("unexpected-exception", tb[-800:])
                else:
                    raise sched.HarnessError(tb)
        if sim.failure is not None:
            r.bad("no-progress", str(sim.failure))
        r.nontrivial = bool(outcomes)
        r.key = world.digest([o["op"] for o in plan["ops"]], outcomes)
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), outcomes, [v["kind"] for v in r.violations])
        r.trace = [str(o) for o in outcomes]
        r.counters.pop("clock_jump", None)
        if sim.jumps_fired:
            r.count("fault:clock_jump", sim.jumps_fired)
        if plan["coarse"]:
            r.count("fault:coarse_clock")
        return r

    def job(self, op, k, level, plain, sim, r, outcomes):
        f, at = op["fault"], op["at"]
        stream = op["job"]["kind"] == "stream"
        J = Job(op["job"], sim, fail_at=at if f == "source" else -1, viewer_fail=at if f == "viewer" and stream else -1)
        out = Out(sim, at if f == "stdout" else -1)
        faults = AllocFaults(sim, at if f == "alloc" else -1)
        before = dict(sim.counters)
        err = got = None
        with contextlib.redirect_stdout(out):
            try:
                with faults:
                    got = J.run()
            except Exception as e:
                err = e
        fired = [x for x in sim.counters if x.startswith("fault:") and sim.counters[x] != before.get(x)]
        what = "operation %d (%s, fault %s at %d)" % (k, op["job"]["kind"], f, at)
        said = messages(out.getvalue())
        outcomes.append((op["job"]["kind"], f, type(err).__name__ if err else "ok", min(2, max(0, level)), op["job"]["data"]))
        bad_norm = op["job"]["kind"] in ("norm", "post") and f == "source"      # a mask that does not fit
        if err is not None and not fired and not bad_norm:
            r.bad("unexpected-exception", "%s at verbosity %d: %s: %s" % (what, level, type(err).__name__, err))
            return
        if err is None and not same(got, plain):
            r.bad("verbosity-changes-result", "%s at verbosity %d: result differs from that at verbosity 0" % (what, level))
        if level < 1 and not silent(out.getvalue()):
            r.bad("printed-when-silent", "%s at verbosity %d printed %r" % (what, level, out.getvalue()[:80]))
        if level >= 1 and err is None and not said and op["job"]["kind"] != "pipeline":
            r.bad("messages-lost", "%s at verbosity %d printed nothing" % (what, level))
        if level == 1 and any("frame rate" in x or x.startswith("   *") for x in said):
            r.bad("wrong-level", "%s: level 2 messages at verbosity 1: %r" % (what, said[:4]))
        if level == 2 and err is None and op["job"]["kind"] in ("stream", "multi_mem", "mem", "load") and not any("frame rate" in x for x in said):
            r.bad("messages-lost", "%s: no frame rate at verbosity 2" % what)


CHECK = C14()
