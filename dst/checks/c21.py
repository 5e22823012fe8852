"""C21: precision, fastmath and parallel options change results by rounding only."""
import os, importlib, tempfile, atexit, hashlib
from .. import configs
from ..runner import Result, InvalidPlan

NAMES = tuple(sorted(configs.CONFIGS))


class C21(object):
    RUNS = {"quick": 6000, "thorough": 60000}
    HANG_S = 150.0
    RULE = ("a random plan of one of the checks of the correlators (C05, C06, C07, C20), computations that fail or run at the same time (C08, C09, C14), pipelines and video chains (C17, C18), normalisation and display of results (C19), simulated experiments and particle videos (C16, C10), "
            "executed by the package as imported under one of three sets of options: single precision; parallel target and fastmath; single precision, parallel target, fastmath and FFT "
            "libraries from cddm.ini. Same oracles, with the tolerance of the precision; non-trivial: as in that check")
    DISTINCT = "the distinct measure of the check the plan comes from, per configuration"
    REAL = ["cddm.conf (environment, cddm.ini), everything the checks C05 to C10, C14 and C16 to C20 run, compiled with the options in force"]
    STUB = ["numba's thread pool (kernels are executed in pieces by simulated workers; loops over prange by simulated threads, uncompiled)", "as in the check the plan comes from"]
    ASSUMPTIONS = ["with the parallel target random numbers drawn by camera noise models are not repeatable (documented)",
                   "fastmath tells the compiler that there are no nan values: display of recordings with delays or pixels without data is not judged with it",
                   "positions of particles at pixel boundaries are judged in double precision only", "single precision tolerates 1e-4 of the scale of the values"]

    def __init__(self):
        self.subs = {}
        self.client = None

    @property
    def FIXED(self):
        out = {"config", "sub"}
        for s in self.subs.values():
            out |= set(getattr(s, "FIXED", ()))
        return tuple(out)

    def setup(self):
        for c in configs.SUBS:
            self.subs[c] = importlib.import_module("dst.checks." + c).CHECK
        self.client = configs.Client()
        atexit.register(self.client.stop)
        self.client.start(tempfile.mkdtemp(prefix="dst-conf-", dir=os.environ.get("DST_SCRATCH")))

    def teardown(self):
        self.client.stop()

    def gen(self, rng):
        config = rng.choice(NAMES)
        sub = rng.choice([c for c in configs.SUBS if config == "parallel" or c != "c10"])
        plan = self.subs[sub].gen(rng)
        if sub == "c16" and configs.EXPECT[config][1]:
            for e in plan["exp"]:
                if e["kind"] == "noisy":
                    e["kind"] = "video"
        if sub == "c19" and configs.EXPECT[config][2]:
            plan["zeros"] = 0
            if plan["live"]:
                plan["live"] = None
                plan["events"].insert(0, ["set", 0, 0])
            if plan["mask"] is not None:
                plan["compressed"] = True
        return dict(config=config, sub=sub, plan=plan)

    def execute(self, plan, seed, decisions=None):
        config, sub = plan["config"], plan["sub"]
        r = Result()
        f = self.client.ask(config, dict(op="force"))["force"]
        single, parallel, fast, libs = configs.EXPECT[config]
        want = dict(single=single, double=not single, parallel=parallel, serial=not parallel, fastmath=fast)
        for k, v in want.items():
            if f[k] != v:
                r.bad("option-ignored", "configuration %s: %s is %r" % (config, k, f[k]))
        if libs and tuple(f["libs"]) != libs:
            r.bad("option-ignored", "configuration %s: FFT libraries %r" % (config, f["libs"]))
        if r.violations:
            r.digest = r.key = "option"
            return r
        a = self.client.ask(config, dict(op="run", sub=sub, plan=plan["plan"], seed=seed, decisions=decisions))
        if "invalid" in a:
            raise InvalidPlan(a["invalid"])
        if "err" in a:
            raise RuntimeError("%s under %s: %s" % (sub, config, a["err"]))
        if "died" in a:
            os.abort()            # as the run did
        r.__dict__.update(a["result"])
        for v in r.violations:
            v["kind"] = "%s-%s" % (v["kind"], config)
            v["detail"] = "%s under %r: %s" % (sub.upper(), config, v["detail"])
        r.count("probe:%s" % config)
        r.count("probe:plan_of_%s" % sub)
        r.key = "%s/%s/%s" % (config, sub, r.key)
        r.digest = "%s/%s" % (config, r.digest)
        return r


CHECK = C21()
