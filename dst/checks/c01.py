"""C01: video.threaded under every schedule."""
import random
import numpy as np
from .. import world, sched
from ..runner import Result, InvalidPlan


class Source(object):
    """Plain iterator (not a generator) that can fail at a chosen frame."""
    def __init__(self, sim, frames, delays, fail_at, failure, on_pull):
        self.sim, self.frames, self.delays = sim, frames, delays
        self.k, self.fail_at, self.failure, self.on_pull = 0, fail_at, failure, on_pull

    def __iter__(self):
        return self

    def __next__(self):
        k = self.k
        self.on_pull(k)
        d = world.delay(self.delays, k)
        if d:
            self.sim.sleep(d, "camera")
        else:
            self.sim.yield_point("sync", "camera")
        if k == self.fail_at:
            self.sim.count("fault:source_exception")
            self.sim.event("fail", k=k)
            raise self.failure
        if k >= len(self.frames):
            self.sim.event("end", k=k)
            raise StopIteration
        self.k += 1
        self.sim.event("produce", k=k)
        return self.frames[k]


def as_generator(src):
    for x in src:
        yield x


def make_frames(n, ncam, salt=0):
    return [tuple(np.full((2, 2), 1000 * salt + 10 * k + c, dtype="int64") for c in range(ncam)) for k in range(n)]


def gen_long(rng, p):
    from .live import gen_long
    return gen_long(rng, p)


class C01(object):
    RUNS = {"quick": 16000, "thorough": 60000}
    HANG_S = 60.0
    RULE = ("random plan (source length 0-24, queue size, delays, stalls, failure point/kind, consumer stop, source kind) x seeded schedule; "
            "non-trivial: at least one context switch happened while a frame was in flight")
    DISTINCT = "hash of the sequence of context switches (from, to, code location), per run"
    REAL = ["cddm.video.threaded", "queue.Queue", "threading.Condition/Event/Semaphore", "OS threads (one at a time)"]
    STUB = ["threading.Lock/RLock (scheduler-owned)", "threading.Thread.start/join", "clock and sleep", "camera (frame source)"]
    ASSUMPTIONS = ["preemption is explored at line or bytecode granularity inside cddm/video.py and at every lock/clock/thread operation"]

    def setup(self):
        world.setup(("cddm.video",))

    def gen(self, rng):
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 24])
        qs = rng.choice([0, 0, -1, 1, 1, 2, 3, 8, 40])
        fail = rng.choice([-1, -1, -1, rng.randint(0, n)])
        p = dict(n=n, qs=qs, ncam=rng.choice([1, 2]), src=rng.choice(["iter", "gen", "list"]) if fail < 0 else rng.choice(["iter", "gen"]),
                    fail_at=fail, fail_kind=rng.choice(sorted(world.FAILURES)), stop_after=rng.choice([-1, -1, -1, rng.randint(0, n + 1)]),
                    sd=world.gen_delays(rng, n), cd=world.gen_delays(rng, n), sched=world.gen_sched(rng, 2),
                    item=rng.choice(["tuple", "tuple", "tuple", "array", "list"]), opcodes=rng.random() < 0.15, jumps=world.gen_jumps(rng, 0.2), default_qs=rng.random() < 0.1)
        if rng.random() < 0.03:
            gen_long(rng, p)
            p["qs"] = rng.choice([0, -1, 1, 7, 64, 200])
        return p

    def execute(self, plan, seed, decisions=None):
        from cddm.video import threaded
        r = Result()
        n, qs = plan["n"], plan["qs"]
        frames = make_frames(n, plan["ncam"])
        if plan["item"] != "tuple":         # videos of bare arrays, of lists
            frames = [f[0] if plan["item"] == "array" else list(f) for f in frames]
        failure = world.FAILURES[plan["fail_kind"]](plan["fail_at"]) if plan["fail_at"] >= 0 else None
        sim = world.make_sim(plan, seed, decisions, world.TRACE_VIDEO, fair_after=6000, max_steps=20000 + 500 * n)
        got, state = [], dict(outside=False, ended=None, late=[], reads=0)
        unbounded = qs <= 0 or plan["default_qs"]

        def on_pull(k):
            state["reads"] = k
            if not unbounded and state["outside"] and k + 1 > len(got) + qs + 1:
                state["late"].append((k, len(got)))

        def main():
            src = Source(sim, frames, plan["sd"], plan["fail_at"], failure, on_pull)
            if plan["src"] == "list":
                src = list(frames)
            elif plan["src"] == "gen":
                src = as_generator(src)
            it = iter(threaded(src) if plan["default_qs"] else threaded(src, qs))
            try:
                while True:
                    if plan["stop_after"] >= 0 and len(got) >= plan["stop_after"]:
                        state["ended"] = "stopped"
                        break
                    try:
                        state["outside"] = False
                        x = next(it)
                    except StopIteration:
                        state["ended"] = "end"
                        break
                    except (Exception, KeyboardInterrupt, SystemExit) as e:
                        state["ended"] = e
                        break
                    got.append(x)
                    state["outside"] = True
                    sim.event("consume", k=len(got) - 1)
                    d = world.delay(plan["cd"], len(got))
                    if d:
                        sim.sleep(d, "analysis")
                if state["ended"] == "end":
                    for _ in range(2):
                        try:
                            next(it)
                            r.bad("restarts-after-end", "an item was delivered after the end of the video")
                        except StopIteration:
                            pass
            finally:
                it = None

        sim.run(("consumer", main))
        r.take(sim)
        exp = n if plan["fail_at"] < 0 else min(n, plan["fail_at"])
        if plan["fail_at"] > n:
            failure = None
        ended = state["ended"]
        if sim.failure is not None and ended is None:
            r.bad("no-progress", "%s; delivered %d of %d" % (sim.failure, len(got), exp))
        for k, x in enumerate(got):
            if k >= exp or x is None:
                r.bad("extra-item", "item %d delivered is %r, the source has %d frames" % (k, x, exp))
                break
            if x is not frames[k] and not (type(x) is type(frames[k]) and len(x) == len(frames[k]) and all(np.array_equal(a, b) for a, b in zip(x, frames[k]))):
                r.bad("wrong-frame", "position %d got %r expected %r" % (k, x, frames[k]))
                break
        if ended == "end":
            if len(got) < exp:
                r.bad("lost-frames", "ended after %d of %d frames" % (len(got), exp))
            if failure is not None:
                r.bad("failure-hidden", "source raised %r at frame %d, the video ended as if complete" % (failure, plan["fail_at"]))
        elif isinstance(ended, BaseException):
            if not world.same_error(ended, failure):
                r.bad("unexpected-exception", repr(ended))
            elif len(got) < exp:
                r.bad("lost-frames", "exception after %d of the %d frames before it" % (len(got), exp))
        elif ended == "stopped":
            r.count("probe:consumer_stopped_early")
        if state["late"]:
            r.bad("queue-bound", "frame %d read while only %d delivered, queue size %d" % (state["late"][0] + (qs,)))
        for name, tb in sim.thread_exceptions:
            if name == "consumer":
                raise sched.HarnessError(tb)
        if not unbounded and n > qs + 1:
            r.count("probe:queue_can_fill")
        if plan["fail_at"] == 0:
            r.count("probe:fails_at_first")
        if n == 0:
            r.count("probe:empty_source")
        r.key = sim.digest()
        r.nontrivial = sim.switches > 1
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), len(got), str(ended), [v["kind"] for v in r.violations])
        r.trace = ["%d %s %s %r" % e for e in sim.log]
        return r


CHECK = C01()
