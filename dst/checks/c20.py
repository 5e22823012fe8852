"""C20: accumulating results over many recordings is order-independent addition."""
import numpy as np
from .. import world, sched, ref
from ..runner import Result, InvalidPlan

MODULES = ("cddm.core", "cddm.multitau", "cddm.video")
TRACE = ("cddm/core.py",)
BAD = ("pixels", "mismatch", "one_time", "time_length", "squares_shape", "squares_length", "method", "norm", "items", "axis", "late_shape", "late_dtype",
       "late_readonly", "count_dtype", "late_length")


def gen_times(rng, N):
    t, cur = [], rng.randint(0, 4)
    for _ in range(N):
        t.append(cur)
        cur += rng.randint(1, 3)
    return t


class C20(object):
    RUNS = {"quick": 5000, "thorough": 100000}
    HANG_S = 60.0
    FIXED = ("data",)
    RULE = ("one to three accumulators (ccorr or acorr, random method, normalisation, mode, axis, alignment, number of delays, preallocated views or earlier results) that take "
            "random recordings of random lengths and times in an interleaved order, in one thread or in one thread each preempted at lines of core.py; calls with arguments "
            "that do not fit are mixed in; non-trivial: at least two recordings")
    DISTINCT = "hash of the operation history and of context switches, per run"
    REAL = ["cddm.core.ccorr, acorr and everything they call (kernels run without being interrupted)"]
    STUB = ["clock", "threading.Lock/RLock, Thread.start/join (scheduler-owned)"]
    ASSUMPTIONS = ["every call for one accumulator uses the same method, mode and normalisation flag"]

    def setup(self):
        world.setup(MODULES)

    def gen(self, rng):
        accs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            cross = rng.random() < 0.6
            method = rng.choice(["corr", "fft", "diff", None])
            norms = ([2, 6] if cross else [2]) if method == "diff" else [1, 2, 3, 5, 6, 7]
            shape = rng.choice([[], [1], [3], [2, 3], [3, 1]])
            ops = []
            for _ in range(rng.choice([1, 2, 3, 4, 6])):
                N = rng.choice([1, 2, 3, 5, 8, 13])
                times = rng.random() < 0.4
                t1 = gen_times(rng, N) if times else None
                t2 = gen_times(rng, N) if times and cross else None
                if times and cross and rng.random() < 0.4:
                    t2 = list(t1)
                ops.append(dict(N=N, t1=t1, t2=t2, squares=rng.random() < 0.2, align=rng.random() < 0.4, layout=rng.choice(["C", "C", "F", "strided"]),
                                n=rng.choice([None, None, None, "same", 1, 3, 20]), bad=rng.choice(BAD) if rng.random() < 0.3 else None, data=rng.randrange(1 << 30),
                                dtype=rng.choice(["complex128", "complex128", "complex64", "float64", "uint8"])))
            accs.append(dict(cross=cross, method=method, norm=rng.choice(norms + [None]), complex=method != "diff" and rng.random() < 0.3, shape=shape,
                             n=rng.choice([1, 2, 3, 5, 8, 16]), axis=rng.randint(0, len(shape)) if rng.random() < 0.3 else 0, neg_axis=rng.random() < 0.3,
                             start=rng.choice(["none", "none", "zeros", "view", "values"]), ops=ops))
        return dict(accs=accs, threads=rng.random() < 0.4, order=rng.randrange(1 << 30), sched=world.gen_sched(rng, 3))

    # ------------------------------------------------------------------ run
    def execute(self, plan, seed, decisions=None):
        import random
        r = Result()
        if not plan["accs"] or not any(a["ops"] for a in plan["accs"]):
            raise InvalidPlan("nothing to do")
        sim = world.make_sim(plan, seed, decisions, TRACE, fair_after=60000, max_steps=300000)
        accs = [Acc(a, r, sim) for a in plan["accs"]]
        order = [k for k, a in enumerate(plan["accs"]) for _ in a["ops"]]
        random.Random(plan["order"]).shuffle(order)

        def main():
            if plan["threads"]:
                import threading
                ts = [threading.Thread(target=a.all) for a in accs]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            else:
                for k in order:
                    accs[k].next()
                    for j, a in enumerate(accs):
                        if j != k:
                            a.verify("after a call for another accumulator")

        sim.run(("main", main))
        r.take(sim)
        for name, tb in sim.thread_exceptions:
            raise sched.HarnessError(tb)
        if sim.failure is not None:
            r.bad("no-progress", str(sim.failure))
        for a in accs:
            a.verify("at the end")
        r.nontrivial = len(order) > 1
        r.key = world.digest(sim.digest(), plan["accs"], order)
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), r.violations, [x.tobytes() for a in accs for x in a.arrays()])
        r.trace = ["%d %s %s %r" % e for e in sim.log][:200]
        return r


class Acc(object):
    """One accumulation: what was added, and what the accumulators must hold."""

    def __init__(self, plan, r, sim):
        self.p, self.r, self.sim = plan, r, sim
        p = plan
        self.k = 0
        self.method = p["method"] or "corr"          # with n given, None means corr
        n = p["n"]
        if n < 1 or (p["complex"] and self.method == "diff"):
            raise InvalidPlan("n")
        self.norm = p["norm"] if p["norm"] is not None else (7 if self.method != "diff" else 6 if p["cross"] else 2)
        if self.norm not in (([2, 6] if p["cross"] else [2]) if self.method == "diff" else (1, 2, 3, 5, 6, 7)):
            raise InvalidPlan("norm")
        if not 0 <= p["axis"] <= len(p["shape"]):
            raise InvalidPlan("axis")
        self.Q = int(np.prod(p["shape"])) if p["shape"] else 1
        self.L = n * 2 - 1 if p["complex"] and p["cross"] else n
        self.exp = None                               # reference sums (pixels, delays)
        self.aout = None
        self.guards = []
        self.scale = 1.0
        if p["start"] != "none":
            self.allocate()

    def names(self):
        return ("corr", "count", "m1", "m2") if self.method == "diff" else ("corr", "count", "sq", "m1", "m2")

    def layout(self, e):
        """Items of a result tuple, from (corr, count, sq, m1, m2)."""
        if self.method != "diff":
            return list(e)
        return [e[0], e[1], e[3], e[4]]

    def allocate(self):
        from cddm import conf
        p = self.p
        full = tuple(p["shape"]) + (self.L,)
        cplx = p["complex"]
        kinds = dict(corr="D" if cplx else "d", count="i", sq="d", m1="D", m2="D")
        have = dict(corr=True, count=True, sq=self.method != "diff" and self.norm & 2, m1=self.norm & 4, m2=self.norm & 4 and p["cross"])
        if self.method == "diff" and not p["cross"]:
            have.update(m1=False, m2=False)
        rs = np.random.RandomState(7)
        out = []
        for name in self.names():
            if not have[name]:
                out.append(None)
                continue
            dt = {"D": conf.CDTYPE, "d": conf.FDTYPE, "i": conf.IDTYPE}[kinds[name]]
            shp = (self.L,) if name == "count" else full
            if p["start"] == "view":
                big = np.full(tuple(s + 2 for s in shp), 3, dt)
                a = big[tuple(slice(1, -1) for _ in shp)]
                a[...] = 0
                self.guards.append((big, name))
            else:
                a = np.zeros(shp, dt)
            if p["start"] == "values":
                a += np.arange(a.size).reshape(a.shape).astype(dt)
            out.append(a)
        self.aout = tuple(out)
        self.exp = [None if a is None else a.reshape((-1, self.L)).copy() if nm != "count" else a.copy() for a, nm in zip(out, self.names())]
        if p["start"] == "values":
            self.scale += self.Q * self.L

    def arrays(self):
        return [x for x in (self.aout or ()) if x is not None]

    def data(self, op, cams, shape=None, N=None):
        rs = np.random.RandomState(op["data"] % (1 << 32))
        p = self.p
        N = op["N"] if N is None else N
        shape = tuple(p["shape"]) if shape is None else tuple(shape)
        out = []
        for _ in range(cams):
            if op["dtype"] == "uint8":
                x = rs.randint(0, 200, size=(N,) + shape).astype("uint8")
            elif op["dtype"] == "float64":
                x = rs.randn(*((N,) + shape))
            else:
                x = (rs.randn(*((N,) + shape)) + 1j * rs.randn(*((N,) + shape)) + 1).astype(op["dtype"])
            x = np.moveaxis(x, 0, p["axis"])
            if op["layout"] == "F":
                x = np.asfortranarray(x)
            elif op["layout"] == "strided":
                y = np.zeros(tuple(2 * s for s in x.shape), x.dtype)
                y[tuple(slice(None, None, 2) for _ in x.shape)] = x
                x = y[tuple(slice(None, None, 2) for _ in x.shape)]
            else:
                x = np.ascontiguousarray(x)
            out.append(x)
        return out

    def flat(self, x):
        return np.moveaxis(np.asarray(x), self.p["axis"], 0).reshape((-1, self.Q)).astype(complex)

    def all(self):
        while self.k < len(self.p["ops"]):
            self.next()

    def next(self):
        op = self.p["ops"][self.k]
        self.k += 1
        p = self.p
        if op["N"] < 1 or any(t is not None and (len(t) != op["N"] or any(b <= a for a, b in zip(t, t[1:]))) for t in (op["t1"], op["t2"])):
            raise InvalidPlan("op")
        if p["cross"] and (op["t1"] is None) != (op["t2"] is None):
            raise InvalidPlan("times")
        cams = 2 if p["cross"] else 1
        F = self.data(op, cams)
        if op["bad"] is not None and (self.aout is None or not self.bad_call(op, F)):
            op = dict(op, bad=None)
        if op["bad"] is not None:
            return
        before = [x.copy() for x in F]
        kw = self.kwargs(op)
        sq = None
        if op["squares"] and self.norm & 2 and self.method != "diff":
            sq = [np.abs(x.astype(complex)) ** 2 for x in F]
            kw.update(dict(zip(("f1s", "f2s"), sq)) if p["cross"] else {"fs": sq[0]})
        res = self.call(F, op, kw)
        for a, b in zip(F, before):
            if not np.array_equal(a, b):
                self.r.bad("input-modified", "the recording was modified")
        t1 = op["t1"] or list(range(op["N"]))
        t2 = op["t2"] or t1
        fl = [self.flat(x) for x in F]
        e = ref.correlate(fl[0], fl[1] if p["cross"] else None, t1, t2, p["n"], self.norm, self.method, not p["cross"], p["complex"])
        e = self.layout(e)
        if self.exp is None:
            self.exp = e
        else:
            self.exp = [y if x is None else x if y is None else x + y for x, y in zip(self.exp, e)]
        self.scale += max(1.0, max(np.abs(f).max() for f in fl)) ** 2 * op["N"]
        if len(res) != len(self.names()):
            self.r.bad("wrong-accumulation", "%d items returned, expected %d" % (len(res), len(self.names())))
            return
        if self.aout is not None:
            for nm, a, b in zip(self.names(), self.aout, res):
                if (a is None) != (b is None) or (a is not None and not np.shares_memory(a, b)):
                    self.r.bad("not-accumulated", "%s: what is returned is not the array passed as output" % nm)
        else:
            self.aout = tuple(res)
        self.sim.event("added", acc=id(self) and self.p["n"], N=op["N"])
        self.verify("after recording %d (%d frames)" % (self.k, op["N"]))

    def kwargs(self, op):
        p = self.p
        kw = dict(norm=p["norm"], method=p["method"], complex=p["complex"], align=op["align"], axis=p["axis"] - (len(p["shape"]) + 1 if p["neg_axis"] else 0))
        if self.aout is not None:
            kw["aout"] = self.aout
            if p["method"] is None:
                kw["method"] = self.method
            if op["n"] is not None:
                kw["n"] = p["n"] if op["n"] == "same" else op["n"]       # the output takes precedence
        else:
            kw["n"] = p["n"]
        return kw

    def call(self, F, op, kw):
        from cddm import core
        if self.p["cross"]:
            return core.ccorr(F[0], F[1], op["t1"], op["t2"], **kw)
        return core.acorr(F[0], op["t1"], **kw)

    # ------------------------------------------------------------ bad calls
    def bad_call(self, op, F):
        """A call that must be rejected; False if this kind does not apply here."""
        p, bad = self.p, op["bad"]
        kw = self.kwargs(op)
        op = dict(op)
        F = list(F)
        cross = p["cross"]
        late = [i for i, a in enumerate(self.aout) if a is not None and i > 1]
        if bad == "pixels":
            if not p["shape"]:
                return False
            shape = list(p["shape"])
            shape[-1] += 1
            F = self.data(op, len(F), shape)
        elif bad == "mismatch":
            if not cross:
                return False
            F[1] = self.data(op, 1, N=op["N"] + 1)[0]
            op.update(t1=None, t2=None)
        elif bad == "one_time":
            if not cross:
                return False
            op.update(t1=list(range(op["N"])), t2=None)
        elif bad == "time_length":
            op["t1"] = list(range(op["N"] + 1))
            op["t2"] = list(range(op["N"] + 1)) if cross else None
        elif bad in ("squares_shape", "squares_length"):
            if not (self.norm & 2) or self.method == "diff" or (bad == "squares_shape" and not p["shape"]):
                return False
            if bad == "squares_shape":
                x = self.data(op, 1, list(p["shape"][:-1]) + [p["shape"][-1] + 1])[0]
            else:
                x = self.data(op, 1, N=op["N"] + 1)[0]
            kw["f2s" if cross else "fs"] = np.abs(x.astype(complex)) ** 2
        elif bad == "method":
            kw["method"] = "nonsense"
        elif bad == "norm":
            kw["norm"] = 9
        elif bad == "items":
            kw["aout"] = self.aout[:-1]
        elif bad == "axis":
            kw["axis"] = len(p["shape"]) + 2
        elif bad == "count_dtype":
            kw["aout"] = self.aout[:1] + (self.aout[1].astype(float),) + self.aout[2:]
        elif bad.startswith("late"):
            if not late:
                return False
            i = late[op["data"] % len(late)]
            a = self.aout[i]
            if bad == "late_shape":
                x = np.zeros((2,) + a.shape, a.dtype)
            elif bad == "late_length":
                x = np.zeros(a.shape[:-1] + (a.shape[-1] + 2,), a.dtype)
            elif bad == "late_dtype":
                x = a.astype(int)
            else:
                x = a.view()
                x.flags.writeable = False
            kw["aout"] = self.aout[:i] + (x,) + self.aout[i + 1:]
        try:
            self.call(F, op, kw)
        except Exception as e:
            self.r.count("fault:" + bad)
        else:
            self.r.bad("bad-call-accepted", "a call with %s was accepted" % bad)
        self.verify("after a rejected call (%s)" % bad, "changed-by-rejected-call")
        return True

    # ------------------------------------------------------------- verdict
    def verify(self, when, kind="wrong-accumulation"):
        if self.aout is None or self.r.violations:
            return
        for nm, a, e in zip(self.names(), self.aout, self.exp):
            if e is None or a is None:
                if (e is None) != (a is None):
                    self.r.bad(kind, "%s %s: %s" % (nm, when, "missing" if a is None else "given although not requested"))
                continue
            if nm == "count":
                msg = None if np.array_equal(a, e) else "%r, expected %r" % (a.tolist(), np.asarray(e).tolist())
            else:
                msg = ref.close(a, np.asarray(e).reshape(tuple(self.p["shape"]) + (self.L,)), self.scale * 10)
            if msg:
                self.r.bad(kind, "%s %s: %s" % (nm, when, msg))
        for big, nm in self.guards:
            m = np.ones(big.shape, bool)
            m[tuple(slice(1, -1) for _ in big.shape)] = False
            if not np.all(big[m] == 3):
                self.r.bad("out-of-bounds", "%s: memory around the output was written, %s" % (nm, when))


CHECK = C20()
