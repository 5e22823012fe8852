"""C10: random triggering schedules are valid and cameras stay paired."""
import math
import numpy as np
from .. import world, sched
from ..runner import Result, InvalidPlan
from .c01 import Source, as_generator

MODULES = ("cddm.sim", "cddm.video")
TRACE = ("cddm/sim.py", "cddm/video.py")


class Dice(object):
    """numpy's randint with outcomes chosen by the simulator: the smallest or
    largest possible ones, a mixture of them, or ordinary seeded ones."""
    def __init__(self, mode, seed):
        self.mode, self.rs = mode, np.random.RandomState(seed)
        self.calls = 0

    def __enter__(self):
        self.real = np.random.randint
        np.random.seed(self.rs.randint(1 << 30))
        if self.mode != "seeded":
            np.random.randint = self.draw
        return self

    def __exit__(self, *a):
        np.random.randint = self.real

    def draw(self, low, high=None, size=None, dtype=int):
        self.calls += 1
        self.real(low, high, size, dtype)          # the errors numpy would raise
        if high is None:
            low, high = 0, low
        if np.ndim(low) or np.ndim(high):
            return self.real(low, high, size, dtype)
        full = self.rs.randint(low, high, size=size)
        if self.mode == "low":
            k = np.zeros_like(full) + low
        elif self.mode == "high":
            k = np.zeros_like(full) + high - 1
        else:
            pick = self.rs.randint(3, size=size)
            k = np.where(pick == 0, low, np.where(pick == 1, high - 1, full))
        return k.astype(dtype) if size is not None else int(k)


class C10(object):
    RUNS = {"quick": 6000, "thorough": 100000}
    HANG_S = 60.0
    FIXED = ("kind", "data", "dtype")
    RULE = ("random schedule generator call with random numbers chosen by the simulator (seeded, smallest, largest, mixed), or a particle video / trigger driven by such a "
            "schedule or by any increasing times, with source delays, failures and early ends; non-trivial: at least one trigger")
    DISTINCT = "hash of context switches, plan, and trigger times, per run"
    REAL = ["cddm.sim (schedules, brownian motion, particle drawing, pairing, trigger)", "cddm.video.threaded (some runs)"]
    STUB = ["numpy.random.randint (in three of four runs of schedules)", "particle positions (a list, or ballistic motion of the real generator)", "clock, locks, threads (scheduler-owned)"]

    def setup(self):
        world.setup(MODULES)

    def gen(self, rng):
        kind = rng.choice(["schedule", "schedule", "video", "video", "simple", "trigger"])
        n = rng.choice([1, 2, 3, 4, 8, 32])
        p = dict(kind=kind, fn=rng.choice(["create_random_time", "create_random_times1", "create_random_times2"]), n=n, dt_min=rng.randint(1, n), default_dt=rng.random() < 0.3,
                 nframes=rng.choice([0, 1, 2, 3, 5, 8, 20, 60]), dice=rng.choice(["seeded", "low", "high", "mixed"]), data=rng.randrange(1 << 30),
                 sched=world.gen_sched(rng, 2), jumps={})
        if kind == "schedule":
            if rng.random() < 0.15:
                p.update(n=rng.choice([1, 2, 3, 4]), nframes=600, dice="seeded", dt_min=1)
            return p
        p.update(sd=world.gen_delays(rng, 10), fail_at=-1, fail_kind="SourceError", qs=rng.choice([None, None, 0, 1, 2]), stop=rng.choice([-1, -1, -1, rng.randint(0, 4)]))
        if kind == "trigger":
            p.update(N=rng.randint(0, 30), idx=[rng.randint(0, 32) for _ in range(rng.choice([0, 1, 2, 5, 9]))])
            if rng.random() < 0.3:
                p["fail_at"] = rng.randint(0, p["N"])
            return p
        p["n"] = rng.choice([1, 2, 3, 5])
        p["dt_min"] = rng.randint(1, p["n"])
        p["nframes"] = rng.choice([1, 1, 2, 3, 5, 8])
        p["dual"] = rng.random() < 0.75
        p["own"] = None
        if rng.random() < 0.4:
            # any increasing times
            T = []
            for _ in range(2):
                t, c = [], rng.randint(0, 5)
                for _ in range(p["nframes"]):
                    t.append(c)
                    c += rng.randint(1, 5)
                T.append(t)
            p["own"] = T
        p.update(shape=rng.choice([[8, 12], [16, 16], [9, 5], [6, 20]]), particles=rng.randint(1, 5), intensity=rng.choice([1, 5, 10]), background=rng.choice([0, 0, 7]),
                 sigma=rng.choice([None, None, 1, 0.5, 3, "each"]), dtype=rng.choice(["uint8", "uint16"]), offset=rng.choice([None, None, [1, -2], [0.5, 13.25], [-30, 5]]),
                 rotation=rng.choice([None, None, 0.0, math.pi / 2, math.pi, 0.3, -1.1]), short=rng.choice([0, 0, 0, 0, 1, 3, 10]), tlist=rng.random() < 0.5,
                 velocity=[rng.choice([0.0, 0.25, 1.0, -0.75, 7.5]), rng.choice([0.0, 0.5, -1.25])])
        if kind == "video" and rng.random() < 0.25:
            p["fail_at"] = rng.randint(0, 2 * p["n"] * p["nframes"])
        return p

    # ------------------------------------------------------------ schedules
    def schedule(self, plan, r):
        from cddm import sim as S
        n, N, fn = plan["n"], plan["nframes"], plan["fn"]
        dt = 1 if plan["default_dt"] else plan["dt_min"]
        if n < 1 or N < 0 or not 1 <= plan["dt_min"] <= n:
            raise InvalidPlan("schedule")
        with Dice(plan["dice"], plan["data"]):
            if fn == "create_random_time":
                T = [S.create_random_time(N, n) if plan["default_dt"] else S.create_random_time(N, n, dt)]
            else:
                T = list(getattr(S, fn)(N, n))
        what = "%s(%d, %d)" % (fn, N, n) if fn != "create_random_time" else "%s(%d, %d, %d)" % (fn, N, n, dt)
        if fn != "create_random_time" and len(T) != 2:
            r.bad("schedule", "%s: %d sequences" % (what, len(T)))
            return None
        for t in T:
            t = np.asarray(t)
            if t.shape != (N,) or t.dtype.kind not in "iu":
                r.bad("schedule", "%s: shape %r, type %s" % (what, t.shape, t.dtype))
                return None
        k = np.arange(N)
        bad = None
        if fn == "create_random_time":
            t = np.asarray(T[0])
            if np.any((t < k * n) | (t >= (k + 1) * n)):
                bad = "a trigger outside its period"
            elif np.any(np.diff(t) < dt):
                bad = "triggers %d apart, at least %d required" % (np.diff(t).min(), dt)
            offs = [set(t - k * n)]
            full = [set(range(n))] if dt == 1 else None
        else:
            o1, o2 = (np.asarray(t) - 2 * n * k for t in T)
            if np.any((o1 < 0) | (o1 >= n)):
                bad = "camera 1 offsets %r" % sorted(set(o1.tolist()))
            second = fn.endswith("2")
            ok = (o2 == 0) | (o2 == n)
            if second:
                ok |= o2 == o1
            if not np.all(ok):
                bad = "camera 2 offsets %r" % sorted(set(o2.tolist()))
            offs = [set(o1), set(o2)]
            full = [set(range(n)), {0, n} | (set(range(n)) if second and n <= 2 else set())]
            if second and N >= 600 and not np.any((o1 == o2) & (o2 % n != 0)) and n > 1:
                bad = "the cameras are never triggered at the same time"
        if bad:
            r.bad("schedule", "%s: %s: %r" % (what, bad, [np.asarray(t).tolist()[:40] for t in T]))
        elif N >= 600 and full is not None:
            r.count("probe:all_offsets_seen")
            for o, f in zip(offs, full):
                if not f <= o:
                    r.bad("schedule-not-random", "%s: offsets %r never occur in %d periods" % (what, sorted(f - o), N))
        if plan["dice"] != "seeded":
            r.count("fault:extreme_random_numbers")
        return [[int(x) for x in t] for t in T]

    # ------------------------------------------------------------------ run
    def execute(self, plan, seed, decisions=None):
        r = Result()
        sim = world.make_sim(plan, seed, decisions, TRACE, fair_after=40000, max_steps=200000)
        T = None
        if plan["kind"] != "trigger":
            T = self.schedule(plan, r)
        out = []
        if plan["kind"] != "schedule" and not r.violations:
            (self.trigger if plan["kind"] == "trigger" else self.video)(plan, r, sim, T, out)
            r.take(sim)
        r.nontrivial = plan["kind"] == "trigger" or plan["nframes"] > 0
        r.key = world.digest(sim.digest(), sorted((k, v) for k, v in plan.items() if k not in ("sched", "data")), T)
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), T, [[x.tobytes() for x in f] if isinstance(f, tuple) else f for f in out], r.violations)
        r.trace = ["%d %s %s %r" % e for e in sim.log][:200]
        return r

    def consume(self, plan, r, sim, make, items):
        """Drive a generator built on the given source items; what it gave and how it ended."""
        from cddm import video as V
        failure = world.FAILURES[plan["fail_kind"]](plan["fail_at"]) if plan["fail_at"] >= 0 else None
        got, state = [], dict(pulls=0, end=None, at=[])

        def main():
            def on_pull(k):
                state["pulls"] = max(state["pulls"], k + 1)
            src = Source(sim, items, plan["sd"], plan["fail_at"], failure, on_pull)
            v = make(src if plan["qs"] is None else V.threaded(src, plan["qs"]))
            try:
                for x in v:
                    got.append(x)
                    state["at"].append(state["pulls"])
                    sim.event("got", k=len(got))
                    if len(got) == plan["stop"]:
                        state["end"] = "stopped"
                        v.close()
                        return
                state["end"] = "end"
            except Exception as e:
                state["end"] = e
        sim.run(("main", main))
        for name, tb in sim.thread_exceptions:
            if name == "main":
                raise sched.HarnessError(tb)
        if sim.failure is not None:
            r.bad("no-progress", str(sim.failure))
        return got, state, failure

    def judge_end(self, plan, r, got, state, failure, n_ok, needed):
        """n_ok: items that can be complete; needed: source items up to the last one wanted."""
        end = state["end"]
        if end == "stopped":
            return
        fails = failure is not None and plan["fail_at"] < needed
        if isinstance(end, Exception):
            if failure is None or not world.same_error(end, failure):
                r.bad("failed", "%s: %s" % (type(end).__name__, end))
            elif len(got) != n_ok:
                r.bad("lost", "%d before the failure of the source, expected %d" % (len(got), n_ok))
            return
        if fails:
            r.bad("failure-hidden", "the source failed at %d, the consumer saw a normal end" % plan["fail_at"])
        if len(got) != n_ok:
            r.bad("lost", "%d given, expected %d" % (len(got), n_ok))

    def trigger(self, plan, r, sim, T, out):
        from cddm import sim as S
        items = list(range(100, 100 + plan["N"]))
        idx = plan["idx"]
        if any(i < 0 for i in idx):
            raise InvalidPlan("index")
        got, state, failure = self.consume(plan, r, sim, lambda v: S.data_trigger(v, idx), items)
        out.extend(got)
        upto = plan["N"] if failure is None else min(plan["N"], plan["fail_at"])
        want = [100 + i for i in sorted(set(idx)) if i < upto]
        if got != want[:len(got)]:
            r.bad("wrong-elements", "indices %r: %r, expected %r" % (idx, got, want))
        last = max(idx) + 1 if idx else 0
        needed = min(last, plan["N"] + 1)
        self.judge_end(plan, r, got, state, failure, len(want), needed)
        if plan["qs"] is None and not r.violations:
            if idx and max(idx) < upto and state["pulls"] > last + 1:
                r.bad("does-not-stop", "%d elements read, last index %d" % (state["pulls"], max(idx)))

    def video(self, plan, r, sim, T, out):
        from cddm import sim as S
        N, shape = plan["nframes"], tuple(plan["shape"])
        if plan["own"] is not None:
            T = [list(t) for t in plan["own"]]
            if any(len(t) != N or any(b <= a for a, b in zip(t, t[1:])) or min(t) < 0 for t in T):
                raise InvalidPlan("times")
        if N < 1 or len(shape) != 2 or min(shape) < 2 or plan["particles"] < 1:
            raise InvalidPlan("video")
        if plan["dual"] and len(T) == 1:
            T = [T[0], [x + (plan["data"] % 2) for x in T[0]]]
        t1 = T[0]
        t2 = T[1] if plan["dual"] else None
        steps = max(t1[-1], t2[-1] if t2 else 0) + 1
        rs = np.random.RandomState(plan["data"])
        P = plan["particles"]
        pos = (rs.randint(0, 4 * np.array(shape), size=(steps, P, 2)) + 0.0) / 4 + 0.125 * rs.rand()
        if plan["kind"] == "simple":
            x0 = pos[0]
            pos = np.mod(x0[None] + np.arange(steps)[:, None, None] * np.array(plan["velocity"]), np.array(shape, float))
        intensity = plan["intensity"]
        sigma = rs.choice([0.5, 1.0, 2.0], size=P) if plan["sigma"] == "each" else plan["sigma"]
        kw = dict(shape=shape, background=plan["background"], intensity=intensity, sigma=sigma, dtype=plan["dtype"], offset=plan["offset"], rotation=plan["rotation"])
        t_arg = [t if plan["tlist"] or t is None else np.array(t) for t in (t1, t2)]
        avail = steps
        if plan["kind"] == "simple":
            if plan["fail_at"] >= 0:
                raise InvalidPlan("simple")
            def make(_):
                return S.simple_brownian_video(t_arg[0], t_arg[1], delta=0, x0=x0, num_particles=P, velocity=plan["velocity"], **kw)
            got, state, failure = self.consume(dict(plan, qs=None), r, sim, make, [])
        else:
            avail = max(0, steps - plan["short"])
            items = [pos[k].copy() for k in range(avail)]
            got, state, failure = self.consume(plan, r, sim, lambda v: S.particles_video(v, t_arg[0], t2=t_arg[1], **kw), items)
            if not all(np.array_equal(a, b) for a, b in zip(items, pos)):
                r.bad("input-modified", "particle coordinates were changed")
        out.extend(got)
        upto = avail if failure is None else min(avail, plan["fail_at"])
        done = [max(a, b) for a, b in zip(t1, t2)] if t2 else list(t1)
        n_ok = sum(d < upto for d in done)
        if len(got) > n_ok:
            r.bad("too-many", "%d frames, expected %d" % (len(got), n_ok))
            return
        for k, f in enumerate(got):
            if not isinstance(f, tuple) or len(f) != (2 if t2 else 1):
                r.bad("wrong-frame", "frame %d: %r" % (k, type(f)))
                return
            for c, im in enumerate(f):
                data = pos[(t1 if c == 0 else t2)[k]]
                if c == 0:
                    data = transform(data, shape, plan["offset"], plan["rotation"])
                msg = compare(im, data, shape, plan["dtype"], plan["background"], intensity, sigma, data_is_exact=plan["rotation"] in (None, 0.0))
                if msg:
                    r.bad("wrong-frame", "frame %d of camera %d (times %r, %r): %s" % (k, c + 1, t1, t2, msg))
                    return
            if plan["kind"] == "video" and plan["qs"] is None and state["at"][k] > done[k] + 1:
                r.bad("read-ahead", "frame %d complete at step %d, given after %d steps" % (k, done[k], state["at"][k]))
                return
        self.judge_end(plan, r, got, state, failure, n_ok, min(steps, avail + 1) if plan["kind"] == "video" else 0)
        if t2 and any(b <= a for a, b in zip(done, t1[1:])) | (plan["own"] is not None):
            r.count("probe:overlapping_triggers")


def transform(data, shape, offset, rotation):
    """Rotation about the centre of the frame, then the offset, then periodic."""
    x = np.array(data, float)
    c = np.array(shape, float) / 2
    if rotation is not None:
        co, si = math.cos(rotation), math.sin(rotation)
        d = x - c
        x = np.stack([co * d[:, 0] - si * d[:, 1], si * d[:, 0] + co * d[:, 1]], 1) + c
    if offset is not None:
        x = x + np.array(offset, float)
    return np.mod(x, np.array(shape, float))


def compare(im, data, shape, dtype, background, intensity, sigma, data_is_exact):
    """None, or how the image differs from the periodic image of the particles."""
    im = np.asarray(im)
    if im.shape != shape or im.dtype != np.dtype(dtype):
        return "shape %r type %s" % (im.shape, im.dtype)
    P = len(data)
    amp = np.broadcast_to(intensity, (P,))
    want = np.full(shape, background, float)
    slack = np.zeros(shape)
    near = np.abs(data - np.round(data)) < 1e-6
    if not data_is_exact and near.any():
        return None
    if sigma is None:
        for (h, w), a in zip(data, amp):
            want[int(h) % shape[0], int(w) % shape[1]] += a
    else:
        sg = np.broadcast_to(np.asarray(sigma, float), (P,))
        size = int(round(3 * float(sg.max())))
        for (h, w), a, s in zip(data, amp, sg):
            ii = np.arange(int(h) - size, int(h) + size + 1)
            jj = np.arange(int(w) - size, int(w) + size + 1)
            v = a * np.exp(-0.5 * ((ii[:, None] - h + 0.5) ** 2 + (jj[None, :] - w + 0.5) ** 2) / s ** 2)
            np.add.at(want, (ii[:, None] % shape[0], jj[None, :] % shape[1]), np.floor(v))
            np.add.at(slack, (ii[:, None] % shape[0], jj[None, :] % shape[1]), (np.abs(v - np.round(v)) < 1e-7) * 1.0)
    top = np.iinfo(dtype).max
    if want.max() + slack.max() > top:
        return None
    d = np.abs(im.astype(float) - want)
    if np.any(d > slack):
        k = np.unravel_index(int(np.argmax(d - slack)), shape)
        return "pixel %r is %d, expected %d" % (tuple(int(x) for x in k), im[k], want[k])
    return None


CHECK = C10()
