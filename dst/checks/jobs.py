"""Small units of work of every part of the package, used by C09 and C14.

A job is described by a JSON plan; Job(plan, sim).run() does the work inside a
sim task and returns the list of arrays it produced; check(got) compares them
with the definition where the job has one."""
import numpy as np
from .. import world, ref
from ..runner import InvalidPlan
from . import stream
from .stream import StreamRun, Viewer, gen_plan, leaves
from .c01 import Source, as_generator
from .c06 import Run as MultiRun

MODULES = stream.MODULES + ("cddm.norm", "cddm.fft")
KINDS = ("stream", "stream", "multi_mem", "mem", "norm", "post", "pipeline", "load")


def gen_job(rng, kinds=KINDS):
    kind = rng.choice(kinds)
    j = dict(kind=kind, data=rng.randrange(1 << 30))
    if kind in ("stream", "multi_mem"):
        p = gen_plan(rng, fn=rng.choice(["iccorr_multi", "iacorr_multi"]) if kind == "multi_mem" else None)
        p.update(sd=[0.01] if rng.random() < 0.2 else [], vd=[], jumps={}, surplus=0, viewer=rng.random() < 0.5, inmem=kind == "multi_mem", align=rng.random() < 0.5)
        if kind == "multi_mem":
            p["n"] = max(p["n"], 5)
            p["half"] = max(p["half"], 5)
            p["N"] = p["count"] = p["half"] * 2
            p["t1"] = p["t2"] = None
            p["give_count"], p["period"], p["mode"], p["auto_bg"] = True, 1, "full", False
        j["p"] = p
    elif kind in ("mem", "norm"):
        N, n = (16, rng.choice([6, 8])) if kind == "norm" else (rng.choice([4, 9, 16]), rng.choice([2, 3, 4]))
        j.update(cross=rng.random() < 0.5, N=N, n=n, norm=rng.choice([1, 2, 3, 5, 6, 7]), method=rng.choice(["corr", "fft"]),
                 complex=kind == "mem" and rng.random() < 0.3, align=rng.random() < 0.3, times=rng.random() < 0.3, scale=rng.random() < 0.4, mode=rng.choice(["corr", "diff"]))
    elif kind == "post":
        j.update(cross=rng.random() < 0.5, N=32, n=rng.choice([8, 16]), multi=rng.random() < 0.5, norm=rng.choice([1, 2, 3, 5, 6, 7]), method=rng.choice(["corr", "fft"]), scale=rng.random() < 0.4,
                 size=rng.choice([2, 4]), select=rng.random() < 0.5, angle=rng.choice([0, 30, -45, 90]), sector=rng.choice([40.1, 100.3, 179.9]))
    else:
        j.update(tail=rng.choice([None, None, "play", "play_threaded"]), count=rng.randint(1, 6), qs=rng.choice([None, 0, 2]), stages=[rng.choice(["subtract", "multiply", "add", "normalize_video"]) for _ in range(rng.randint(0, 3))],
                 fft=rng.choice([None, "rfft2", "fft2"]), nfft=rng.random() < 0.5, inplace=rng.random() < 0.3, sd=[0.01] if rng.random() < 0.3 else [])
    return j


class Job(object):
    def __init__(self, plan, sim, fail_at=-1, fail_kind="SourceError", viewer_fail=-1):
        self.plan, self.sim = plan, sim
        self.fail_at, self.failure = fail_at, world.FAILURES[fail_kind](fail_at) if fail_at >= 0 or viewer_fail >= 0 else None
        self.viewer_fail = viewer_fail
        self.S = None

    def run(self):
        return getattr(self, "do_" + self.plan["kind"])()

    # ----------------------------------------------------------------- kinds
    def do_stream(self):
        p = dict(self.plan["p"])
        if self.fail_at >= 0:
            p["src"] = "gen" if p["src"] == "list" else p["src"]
            p["fail_at"] = self.fail_at
        S = self.S = (MultiRun if p["inmem"] else StreamRun)(p, 0, {})
        S.sim, S.failure = self.sim, self.failure if self.fail_at >= 0 else None
        S.body(Viewer(S, [], self.viewer_fail, self.failure) if p["viewer"] or self.viewer_fail >= 0 else None)
        if S.error is not None:
            raise S.error
        return leaves(S.result)

    do_multi_mem = do_stream

    def arrays(self):
        p = self.plan
        rs = np.random.RandomState(p["data"])
        F = [rs.randn(p["N"], 3) + 1j * rs.randn(p["N"], 3) + 2 for _ in range(2 if p["cross"] else 1)]
        t = np.arange(p["N"]) if not p["times"] else np.cumsum(rs.randint(1, 4, size=p["N"]))
        return F, t

    def do_mem(self):
        from cddm import core
        p = self.plan
        F, t = self.arrays()
        kw = dict(n=p["n"], norm=p["norm"], method=p["method"], complex=p["complex"], align=p["align"])
        t = t if p["times"] else None
        if p["cross"]:
            return leaves(core.ccorr(F[0], F[1], t, t, **kw))
        return leaves(core.acorr(F[0], t, **kw))

    def do_norm(self):
        from cddm import core, norm
        p = self.plan
        F, t = self.arrays()
        kw = dict(n=p["n"], norm=7, method=p["method"])
        if p["cross"]:
            d = core.ccorr(F[0], F[1], **kw)
            bg, var = core.stats(*F)
        else:
            d = core.acorr(F[0], **kw)
            bg, var = core.stats(F[0])
        if self.fail_at >= 0:
            raise_at(self, core, d, bg, var)
        return leaves(norm.normalize(d, bg, var, norm=p["norm"], mode=p["mode"], scale=p["scale"]))

    def do_post(self):
        """Correlation, normalisation, log averaging or merging, k selection."""
        from cddm import core, norm, multitau as M, map as kmap
        p = self.plan
        F = self.planes()
        bg, var = core.stats(*F)
        if p["multi"]:
            f = M.ccorr_multi if p["cross"] else M.acorr_multi
            d = f(*F, level_size=8, norm=7, method=p["method"])
        else:
            f = core.ccorr if p["cross"] else core.acorr
            d = f(*F, n=p["n"], norm=7, method=p["method"])
        if self.fail_at >= 0:
            raise_at(self, core, d[0] if p["multi"] else d, bg, var)
        if p["multi"]:
            x = M.normalize_multi(d, bg, var, norm=p["norm"], scale=p["scale"])
            out = M.log_merge(*x)
        else:
            x = norm.normalize(d, bg, var, norm=p["norm"], scale=p["scale"])
            out = M.log_average(x, p["size"])
        self.made = d, bg, var
        out = list(out)
        if p["select"]:
            with np.errstate(all="ignore"):
                sel = kmap.k_select(out[1], p["angle"], p["sector"], shape=(6, 6))
            out += [np.asarray(y) for k in sel for y in k]
        return [np.array(y) for y in leaves(x)] + [np.array(y) for y in out]

    def planes(self):
        rs = np.random.RandomState(self.plan["data"])
        return [rs.randn(self.plan["N"], 6, 4) + 1j * rs.randn(self.plan["N"], 6, 4) + 2 for _ in range(2 if self.plan["cross"] else 1)]

    def check_post(self, got):
        from .c19 import baseline, grid, select, spread, joined
        p = self.plan
        d, bg, var = self.made
        exp = [baseline(x, bg, var, p["norm"]) for x in (d if p["multi"] else [d])]
        if any(x is None for x in exp):
            exp, _ = got[:len(exp)], None        # weighted: the package's own
        elif p["scale"]:
            v = (var[0] + var[1]) / 2 if p["cross"] else var
            exp = [x / v[..., None] for x in exp]
        lin = exp[0].reshape(24, -1)
        y, t = [], None
        for k in range(24):
            if p["multi"]:
                slow = exp[1].reshape(exp[1].shape[0], 24, -1)[:, k]
                n = slow.shape[-1]
                period = lin.shape[-1] // n
                t, a = joined(spread(lin[k], n) + [(2 * period * 2 ** j * np.arange(n), x) for j, x in enumerate(slow)])
            else:
                t, a = joined(spread(lin[k], 2 * p["size"]))
            y.append(a)
        y = np.array(y).reshape(6, 4, -1)
        exp = list(exp) + [t, y]
        if p["select"]:
            q = dict(ksize=[6, 4], frame=(6, 6), mask=None, complex=False)
            K, A = grid(q)
            for k in range(20):
                s = select(q, K, A, k, p["angle"], p["sector"], 1)
                if s is None:
                    exp = exp[:len(exp)]
                    got = None
                    break
                if s[2].any():
                    exp += [np.array(K[s[2]].mean()), y[s[0]].mean(0)]
        if got is None:
            return None
        if len(got) != len(exp):
            return "%d arrays, expected %d" % (len(got), len(exp))
        for k, (g, x) in enumerate(zip(got, exp)):
            m = np.nanmax(np.abs(x)) if np.size(x) else 1.0
            msg = ref.close(g, x, 10.0 * max(1.0, m))
            if msg:
                return "array %d: %s" % (k, msg)
        return None

    def frames(self):
        p = self.plan
        rs = np.random.RandomState(p["data"])
        return [tuple(rs.randint(1, 9, size=(4, 6)).astype(float) for c in range(2)) for _ in range(p["count"])]

    def video(self):
        from cddm import video as V
        p = self.plan
        v = Source(self.sim, self.frames(), p["sd"], self.fail_at, self.failure, lambda k: None)
        if p["qs"] is not None:
            v = V.threaded(v, p["qs"])
        if p["tail"] == "play":
            v = V.play(v, fps=1000.)
        elif p["tail"] == "play_threaded":
            v = V.play_threaded(v, fps=1000. if p["qs"] else None)
        return v

    def do_pipeline(self):
        from cddm import video as V, fft
        p = self.plan
        v = self.video()
        for k, name in enumerate(p["stages"]):
            ip = p["inplace"]
            if name == "normalize_video":
                v = V.normalize_video(v, inplace=ip)
            else:
                w = tuple(np.full((4, 6), 2.0 + k + c) for c in range(2))
                v = getattr(V, name)(v, ([w] * (p["count"] + 1)), inplace=ip)
        if p["fft"]:
            v = fft.rfft2_video(v, 1, 2) if p["fft"] == "rfft2" else fft.fft2_video(v, 1, 1)
            if p["nfft"]:
                v = fft.normalize_fft(v, inplace=p["inplace"])
        return [x.copy() for fr in v for x in fr]

    def do_load(self):
        from cddm import video as V
        return [np.array(x) for x in V.asarrays(self.video(), self.plan["count"])]

    # ---------------------------------------------------------------- oracle
    def check(self, got):
        """None, or what is wrong with the result."""
        p, kind = self.plan, self.plan["kind"]
        if kind in ("stream", "multi_mem"):
            S = self.S
            S.prepare()
            lin = (S.result if p["p"]["inmem"] else S.split(S.result))[0]
            n0 = len(S.r.violations)
            S.compare(lin, S.expect_lin(p["p"]["N"]), "linear part")
            return S.r.violations[n0]["detail"] if len(S.r.violations) > n0 else None
        if kind == "mem":
            F, t = self.arrays()
            exp = ref.correlate(F[0], F[1] if p["cross"] else None, t, t, p["n"], p["norm"], p["method"], not p["cross"], p["complex"])
            exp = [x for x in exp if x is not None]
            if len(exp) != len(got):
                return "%d items, expected %d" % (len(got), len(exp))
            for g, x in zip(got, exp):
                msg = ref.close(g, x, 100.0 * p["N"])
                if msg:
                    return msg
            return None
        if kind == "post":
            return self.check_post(got)
        if kind == "load":
            for c in range(2):
                if not np.array_equal(got[c], np.array([f[c] for f in self.frames()])):
                    return "camera %d differs from the frames delivered" % (c + 1)
            return None
        if kind == "pipeline":
            exp = []
            for fr in self.frames():
                for c, x in enumerate(fr):
                    for k, name in enumerate(p["stages"]):
                        w = 2.0 + k + c
                        x = x / x.mean() if name == "normalize_video" else x - w if name == "subtract" else x + w if name == "add" else x * w
                    if p["fft"]:
                        y = np.fft.fft2(x)
                        y = np.take(y, [0, 1, -1], 0)
                        y = y[:, :3] if p["fft"] == "rfft2" else np.take(y, [0, 1, -1], 1)
                        x = y / y[0, 0] if p["nfft"] else y
                    exp.append(x)
            if len(exp) != len(got):
                return "%d frames, expected %d" % (len(got), len(exp))
            for k, (g, x) in enumerate(zip(got, exp)):
                with np.errstate(all="ignore"):
                    big = max(1.0, np.nanmax(np.abs(x)))
                    bad = np.any(np.abs(g - x) > (1e-4 * big ** 2 if ref.SINGLE else 1e-9 * big)) if np.all(np.isfinite(x)) else False
                if g.shape != x.shape or bad:
                    return "frame %d differs from the numpy result" % k
        return None


def raise_at(job, core, d, bg, var):
    """A normalisation that fails half way: a mask that does not fit."""
    from cddm import norm
    p = job.plan
    norm.normalize(d, bg, var, norm=p["norm"], mode=p["mode"], scale=True, mask=np.ones((7, 5), bool))


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))
