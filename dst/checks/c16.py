"""C16: seeding makes simulated experiments repeatable."""
import contextlib, io
import numpy as np
from .. import world, sched
from ..runner import Result, InvalidPlan
from .stream import leaves

MODULES = ("cddm.sim", "cddm.video", "cddm.core", "cddm.multitau")
TRACE = ("cddm/sim.py", "cddm/video.py")
KINDS = ("walk", "particles", "video", "video", "noisy", "noisy", "random_video", "times", "binning", "binning")


def gen_experiment(rng, kind=None):
    kind = kind or rng.choice(KINDS)
    return dict(kind=kind, shape=rng.choice([[8, 12], [16, 16]]), particles=rng.randint(1, 6), count=rng.choice([1, 2, 3, 6, 10]), n=rng.choice([1, 2, 4, 8]), dual=rng.random() < 0.6,
                times=rng.choice(["create_random_time", "create_random_times1", "create_random_times2"]), sigma=rng.choice([None, 1]), noise=rng.choice(["gaussian", "poisson"]),
                delta=rng.choice([0.5, 2.0]), callable=rng.random() < 0.3, readout=rng.choice([0.0, 3.0]), level_size=rng.choice([5, 8]), stream=rng.random() < 0.6, periods=rng.choice([4, 8, 16]), chunk=rng.choice([None, 1, 1, 2]), data=rng.randrange(1 << 30))


def floats(*values):
    """The package's floating point type, or values of it."""
    from cddm.conf import FDTYPE
    return np.array(values, FDTYPE) if values else FDTYPE


class Experiment(object):
    """Builds one of the package's random experiments; read() gives it item by item."""
    def __init__(self, p):
        self.p = p

    def items(self):
        return getattr(self, "do_" + self.p["kind"])()

    def extra(self):
        p = self.p
        if not p["callable"]:
            return dict(delta=p["delta"])
        return dict(delta=lambda x: np.full((len(x), 1), p["delta"]) + 0 * x)

    def do_walk(self):
        from cddm import sim as S
        p = self.p
        x0 = np.random.RandomState(p["data"]).rand(p["particles"], 2) * np.array(p["shape"])
        return S.brownian_walk(x0, count=p["count"], shape=tuple(p["shape"]), velocity=(0.1, 0.0), **self.extra())

    def do_particles(self):
        from cddm import sim as S
        p = self.p
        return S.brownian_particles(count=p["count"], shape=tuple(p["shape"]), num_particles=p["particles"], **self.extra())

    def times(self):
        from cddm import sim as S
        p = self.p
        T = getattr(S, p["times"])(p["count"], p["n"])
        if p["times"] == "create_random_time":
            return T, (T + p["data"] % 3 if p["dual"] else None)
        return T[0], (T[1] if p["dual"] else None)

    def do_video(self):
        from cddm import sim as S
        p = self.p
        t1, t2 = self.times()
        return S.simple_brownian_video(t1, t2, shape=tuple(p["shape"]), num_particles=p["particles"], sigma=p["sigma"], background=20, **self.extra())

    def do_noisy(self):
        from cddm import sim as S
        p = self.p
        for frames in self.do_video():
            yield tuple(S.adc(f.astype(floats()), noise_model=p["noise"], readout_noise=p["readout"], saturation=200, bit_depth="12bit") for f in frames)

    def do_random_video(self):
        from cddm import video as V
        p = self.p
        return V.random_video(shape=tuple(p["shape"]), count=p["count"], dual=p["dual"])

    def do_times(self):
        t1, t2 = self.times()
        yield t1
        if t2 is not None:
            yield t2

    def do_binning(self):
        from cddm import multitau as M
        p = self.p
        rs = np.random.RandomState(p["data"])
        n = p["level_size"]
        N = n * p.get("periods", 4)
        F = [rs.randn(N, 3) + 1j * rs.randn(N, 3) for _ in range(2 if p["dual"] else 1)]
        chunk = n * p["chunk"] if p.get("chunk") else None
        with contextlib.redirect_stdout(io.StringIO()):
            if p["stream"]:
                if p["dual"]:
                    res = M.iccorr_multi(zip(*F), count=N, level_size=n, chunk_size=chunk, binning=2)
                else:
                    res = M.iacorr_multi(iter(F[0]), count=N, level_size=n, chunk_size=chunk, binning=2)
            else:
                res = M.ccorr_multi(F[0], F[1], level_size=n, binning=2) if p["dual"] else M.acorr_multi(F[0], level_size=n, binning=2)
        for x in leaves(res):
            yield x

    def has_entropy(self):
        p = self.p
        k = p["kind"]
        if k == "walk":
            return p["count"] > 1
        if k in ("particles", "random_video"):
            return True
        if k == "binning":
            return False             # a few coin flips only
        if k == "noisy":
            return True
        if k == "times":
            return p["n"] ** p["count"] >= 2 ** 16
        return p["particles"] * 6 >= 12 and p["count"] >= 2


def flat(x):
    return [np.array(y) for y in leaves(x)]


class C16(object):
    RUNS = {"quick": 4000, "thorough": 60000}
    HANG_S = 60.0
    FIXED = ("seed", "data")
    RULE = ("one or two random experiments, seeded and read three times: at once; frame by frame after arbitrary earlier random draws, delays and other work in the same and in "
            "other threads under a random schedule; and a prefix of it; non-trivial: the experiment yields something")
    DISTINCT = "hash of experiment, seed, reading pattern and context switches, per run"
    REAL = ["cddm.sim, cddm._sim_nb, cddm.video.random_video, cddm.multitau (random-selection binning); numpy's and numba's generators"]
    STUB = ["clock and sleep", "threading.Lock/RLock, Thread.start/join (scheduler-owned)"]
    ASSUMPTIONS = ["other threads draw no random numbers from numpy's global generator while the experiment is read"]

    def setup(self):
        world.setup(MODULES)

    def gen(self, rng):
        seed = rng.choice([0, 1, rng.randrange(1 << 31), (1 << 32) - 1])
        seed2 = rng.randrange(1 << 31) if rng.random() < 0.5 else seed ^ (1 << rng.randrange(32))       # one bit apart
        return dict(exp=[gen_experiment(rng) for _ in range(rng.choice([1, 1, 2]))], seed=seed, seed2=seed2,
                    prior=[rng.randrange(6) for _ in range(rng.randint(0, 4))], work=[rng.choice(["none", "sleep", "fft", "correlate", "numba_other_thread"]) for _ in range(rng.randint(1, 4))],
                    other=rng.random() < 0.5, prefix=rng.randint(0, 6), again=rng.random() < 0.5, sched=world.gen_sched(rng, 2), jumps=world.gen_jumps(rng, 0.2))

    def execute(self, plan, seed, decisions=None):
        from cddm import sim as S, core
        r = Result()
        if not plan["exp"]:
            raise InvalidPlan("nothing")
        sim = world.make_sim(plan, seed, decisions, TRACE, fair_after=40000, max_steps=200000)
        res = {}

        def experiments():
            return [Experiment(p) for p in plan["exp"]]

        def at_once(s):
            S.seed(s)
            return [[flat(x) for x in e.items()] for e in experiments()]

        def stepwise():
            for k in plan["prior"]:
                if k == 0:
                    np.random.rand(3)
                elif k == 1:
                    np.random.randn(1)
                elif k == 2:
                    S.make_step(np.zeros(5, floats()), *floats(1.0, 0.0))
                elif k == 3:
                    S.seed(12345)
                elif k == 4:
                    S.make_step(np.zeros(1, floats()), *floats(1.0, 0.0))
                else:
                    next(iter(S.brownian_particles(count=2, num_particles=3)))
                sim.count("fault:earlier_draws")
            S.seed(plan["seed"])
            out = []
            j = 0
            for e in experiments():
                got = []
                it = iter(e.items())
                while True:
                    w = plan["work"][j % len(plan["work"])]
                    j += 1
                    if w == "sleep":
                        sim.sleep(0.05, "work")
                    elif w == "fft":
                        np.fft.fft2(np.ones((4, 4)))
                    elif w == "correlate":
                        core.acorr(np.ones((6, 2)) + 0j, n=3, method="corr", norm=1)
                    elif w == "numba_other_thread":
                        import threading
                        t = threading.Thread(target=lambda: S.make_step(np.zeros(4, floats()), *floats(1.0, 0.0)))
                        t.start()
                        t.join()
                        sim.count("fault:draws_in_other_threads")
                    try:
                        x = next(it)
                    except StopIteration:
                        break
                    got.append(flat(x))
                    sim.event("item", k=len(got))
                out.append(got)
            return out

        def prefix():
            S.seed(plan["seed"])
            e = experiments()[0]
            out = []
            for x in e.items():
                if len(out) >= plan["prefix"]:
                    break
                out.append(flat(x))
            return out

        def other():
            for _ in range(5):
                core.acorr(np.ones((6, 2)) + 0j, n=3, method="corr", norm=1)
                S.make_step(np.zeros(3, floats()), *floats(1.0, 0.0))
                sim.sleep(0.01, "other")

        def main():
            import threading
            t = None
            if plan["other"]:
                t = threading.Thread(target=other)
                t.start()
            if plan["again"]:
                res["step"] = stepwise()
                res["once"] = at_once(plan["seed"])
            else:
                res["once"] = at_once(plan["seed"])
                res["step"] = stepwise()
            res["prefix"] = prefix()
            if plan["seed2"] != plan["seed"]:
                res["else"] = at_once(plan["seed2"])
            if t is not None:
                t.join()

        def fresh():
            res["thread"] = at_once(plan["seed"])

        sim.run(("main", main))
        r.take(sim)
        for name, tb in sim.thread_exceptions:
            if "/cddm/" in tb.replace("/verif/dst", ""):
                r.bad("failed", tb[-700:])
            else:
                raise sched.HarnessError(tb)
        if sim.failure is not None:
            r.bad("no-progress", str(sim.failure))
        if not r.violations:
            solo = world.make_sim({"sched": {"kind": "random", "p_line": 0, "p_sync": 0, "p_timer": 0}}, 0, {}, ())
            solo.run(("fresh", fresh))
            for name, tb in solo.thread_exceptions:
                raise sched.HarnessError(tb)
            kinds = [p["kind"] for p in plan["exp"]]
            for what in ("step", "thread"):
                if not equal(res["once"], res[what]):
                    r.bad("not-repeatable", "%r read %s differs from reading it at once after the same seed" % (kinds, "in steps" if what == "step" else "in another thread seeded alike"))
            n = min(plan["prefix"], len(res["once"][0]))
            if not equal(res["once"][0][:n], res["prefix"]):
                r.bad("prefix-differs", "%r: the first %d items differ when only they are read" % (kinds[0], n))
            if "else" in res:
                for e, a, b in zip(experiments(), res["once"], res["else"]):
                    if e.has_entropy() and equal(a, b):
                        r.bad("seed-ignored", "%r: seeds %d and %d give the same output" % (e.p["kind"], plan["seed"], plan["seed2"]))
            for k in kinds:
                r.count("probe:" + k)
        r.nontrivial = any(res.get("once", []))
        r.key = world.digest(sim.digest(), plan["exp"], plan["seed"], plan["work"], plan["prior"])
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), r.violations, [x.tobytes() for e in res.get("once", []) for y in e for x in y])
        r.trace = ["%d %s %s %r" % e for e in sim.log][:200]
        r.counters.pop("clock_jump", None)
        if sim.jumps_fired:
            r.count("fault:clock_jump", sim.jumps_fired)
        return r


def equal(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)


CHECK = C16()
