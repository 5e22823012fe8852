"""C19: correlation viewers under histories of data updates and control events."""
import numpy as np
from .. import world, sched, ref
from ..runner import Result, InvalidPlan
from .c01 import Source
from .stream import copy_of, leaves

KINDS = ("data", "corr", "corr", "multi", "multi", "array", "corrarray", "multiarray")
MODES = ("real", "imag", "abs", "phase")


def single(x):
    """In single precision, what a correlation function would return."""
    if not ref.SINGLE or x is None:
        return x
    if isinstance(x, tuple):
        return tuple(single(y) for y in x)
    return x.astype({"f": "float32", "c": "complex64"}.get(x.dtype.kind, x.dtype))


class Closed(Exception):
    """The drawing area is gone."""


# ------------------------------------------------------------ the reference

def grid(p):
    """Wave vectors of the full k-plane the viewer works in: k (in units of the smaller step) and angle."""
    ki, kj = p["ksize"]
    shape = p["frame"]
    w = 2 * kj - 1
    if shape is not None and w == shape[1] + 1:
        w = shape[1]
    si = sj = 1.0
    if shape is not None:
        if shape[0] > shape[1]:
            sj = shape[0] / shape[1]
        else:
            si = shape[1] / shape[0]
    f = lambda i, n: i if i < (n + 1) // 2 else i - n
    K, A = np.zeros((ki, w)), np.zeros((ki, w))
    for i in range(ki):
        for j in range(w):
            y, x = f(i, ki) * si, f(j, w) * sj
            K[i, j] = np.hypot(x, y)
            A[i, j] = np.degrees(np.arctan2(-y, x))
    return K, A


def select(p, K, A, k, angle, sector, kstep):
    """(pixels of the half plane, which of them stand for their mirror image, full plane selection) or
    None if rounding decides."""
    ki, kj = p["ksize"]
    full = np.zeros(K.shape, bool)
    for (i, j), q in np.ndenumerate(K):
        if (i, j) == (0, 0):
            full[i, j] = k == 0
            continue
        a, b = q - (k - 0.5) * kstep, (k + 0.5) * kstep - q
        if min(a, b) < -1e-9:
            continue
        d = abs((A[i, j] - angle + 180) % 360 - 180)
        if d > sector / 2.0 + 1e-7:
            continue
        if min(a, b) < 1e-9 or d > sector / 2.0 - 1e-7:
            return None
        full[i, j] = True
    half, conj = np.zeros((ki, kj), bool), np.zeros((ki, kj), bool)
    for i in range(ki):
        for j in range(kj):
            direct = full[i, j]
            mirror = j > 0 and full[-i % ki, -j % K.shape[1]]
            half[i, j] = direct or mirror
            conj[i, j] = mirror
            if direct and mirror and p["complex"]:
                return None
    if p["mask"] is not None:
        m = np.array(p["mask"]).reshape(ki, kj)
        shown = full.copy()
        for i in range(ki):
            for j in range(K.shape[1]):
                a, b = (i, j) if j < kj else (-i % ki, -j % K.shape[1])
                shown[i, j] &= m[a, b]
        full = shown
        half, conj = half & m, conj & m
    return half, conj, full


def baseline(data, bg, var, norm):
    """Real valued normalisation from its definition, None where the package's own is used."""
    if norm & 3 == 3 or np.iscomplexobj(data[0]):
        return None
    sq, m1, m2 = (data[2], data[3], data[4]) if len(data) == 5 else (None, data[2], data[3])
    d, n = data[0], data[1]
    b1, b2 = bg if isinstance(bg, tuple) else (bg, bg)
    v = var if not isinstance(var, tuple) else (var[0] + var[1]) / 2
    b1, b2, v = b1[..., None], b2[..., None], v[..., None] if v is not None else None
    n = n.astype(float)
    while n.ndim < d.ndim:
        n = np.expand_dims(n, -2)
    m2 = m1 if m2 is None else m2
    dot = lambda x, y: (x * np.conj(y)).real
    if norm & 12 and m1 is not None:
        m1, m2 = np.asarray(m1, complex), np.asarray(m2, complex)
    if len(data) == 4:
        s = d / n
        if norm & 4:
            e = b2 - b1
            return None if m1 is None else -0.5 * ((d - 2 * dot(e, m2 - m1)) / n + dot(e, e)) + v
        return -0.5 * (s - dot(b2 - b1, b2 - b1)) + v
    if norm & 3 == 1:
        if norm & 4:
            return (d - dot(b1, m2) - dot(b2, m1)) / n + dot(b1, b2)
        if norm & 8:
            return (d - dot(m1, m2) / n) / n
        return d / n - dot(b1, b2)
    s = (d - 0.5 * sq) / n + v
    if norm & 4:
        return s + dot(m1 - m2, b1 - b2) / n - 0.5 * dot(b1 - b2, b1 - b2)
    if norm & 8:
        return s + 0.5 * dot(m1 - m2, m1 - m2) / n ** 2
    return s + 0.5 * dot(b1 - b2, b1 - b2)


def normalised(data, bg, var, norm, scale):
    x = baseline(data, bg, var, norm)
    if x is None:
        from cddm.norm import normalize
        return normalize(data, bg, var, norm=norm, scale=scale)
    if scale:
        v = var if not isinstance(var, tuple) else (var[0] + var[1]) / 2
        x = x / v[..., None]
    return x


def folded(x, multi):
    n = (x.shape[-1] + 1) // 2
    out = x[..., :n].copy()
    if not multi:
        out[..., 1:] = (out[..., 1:] + np.conj(x[..., :n - 1:-1])) / 2
    return out


def spread(x, size):
    """Levels of a linear curve, each smoothed by (1/4, 1/2, 1/4) and thinned out from the one before."""
    out, n = [], 0
    while True:
        y = np.full(size, np.nan, x.dtype)
        y[:len(x[:size])] = x[:size]
        out.append((2 ** len(out) * np.arange(size), y))
        n = n or len(x)
        if size * 2 ** (len(out) - 1) >= n:
            return out
        y = x.copy()
        y[1:-1] = 0.25 * x[:-2] + 0.5 * x[1:-1] + 0.25 * x[2:]
        x = y[::2]


def joined(levels, first=True):
    """One curve: all of the first level, later halves of the others."""
    t, y = [], []
    for k, (a, b) in enumerate(levels):
        h = 0 if k == 0 and first else len(a) // 2
        t.append(a[h:])
        y.append(b[h:])
    return np.concatenate(t), np.concatenate(y)


def repr_of(y, mode):
    return dict(real=np.real, imag=np.imag, abs=np.abs, phase=lambda z: np.arctan2(np.imag(z), np.real(z)))[mode](y)


class Session(object):
    def __init__(self, check, p, seed, decisions):
        self.check, self.p, self.r = check, p, Result()
        self.sim = world.make_sim(p, seed, decisions, (), fair_after=20000, max_steps=200000)
        self.kind = p["kind"]
        self.plane = self.kind in ("data", "corr", "multi")
        self.multi = self.kind in ("multi", "multiarray")
        self.v = None
        self.rs = np.random.RandomState(p["data"])
        self.given = self.snapshot = None
        self.cur = None                    # k, angle, sector, kstep in force
        self.draws = self.pauses = self.plots = self.compared = self.skipped = 0
        self.failed = False
        self.fail_left = 0
        self.pending = [list(e) for e in p["nested"]]
        self.depth = 0
        self.K, self.A = grid(p) if self.plane else (None, None)
        self.history = []
        self.live_error = None

    # ---- data
    def shape(self):
        p = self.p
        if p["mask"] is not None and p["compressed"]:
            return (sum(p["mask"]),)
        return tuple(p["ksize"]) + tuple(p["more"])

    def arr(self, shape, cplx=False, positive=False):
        x = self.rs.rand(*shape) if positive else self.rs.randn(*shape)
        if cplx:
            x = x + 1j * self.rs.randn(*shape)
        return self.blank(x, shape)

    def blank(self, x, shape):
        p = self.p
        if p["mask"] is not None and not p["compressed"]:
            m = np.array(p["mask"]).reshape(p["ksize"])
            d = len(shape) - 2 if shape[:2] == tuple(p["ksize"]) else None
            if d is None:                       # level first
                x[:, ~m] = np.nan
            else:
                x[~m] = np.nan
        return x

    def record(self, lead, n, zeros):
        p, s = self.p, self.shape()
        cplx = p["complex"]
        N = 2 * n - 1 if cplx and p["cross"] else n
        t = np.arange(N) if N == n else np.minimum(np.arange(N), N - np.arange(N))
        decay = np.exp(-t / (n * (0.2 + self.rs.rand())))
        cnt = self.rs.randint(3, 9, size=lead + (N,)).astype("int64")
        if zeros:
            cnt[..., -zeros:] = 0
        c = cnt if not lead else cnt.reshape(lead + (1,) * len(s) + (N,))
        d = c * (decay * (1 + self.arr(lead + s + (1,), positive=True)) + 0.05 * self.arr(lead + s + (N,), cplx))
        if cplx:
            d = d + 0.3j * c * decay
        d = self.blank(np.ascontiguousarray(d), lead + s + (N,))
        f = p["norm_data"]
        sq = c * (3 + self.arr(lead + s + (N,), positive=True)) if f & 2 or p["method"] == "diff" else None
        m1 = c * (1 + 0.2 * self.arr(lead + s + (N,), True)) if f & 4 else None
        m2 = c * (1 + 0.2 * self.arr(lead + s + (N,), True)) if f & 4 and p["cross"] else None
        if p["method"] == "diff":
            return (np.abs(d), cnt, m1, m2)
        return (d, cnt, sq, m1, m2)

    def make(self):
        """One data set as a correlation function would return it: (data, background, variance)."""
        p, s = self.p, self.shape()
        zeros = p["zeros"] if self.rs.rand() < 0.5 else 0
        if self.kind in ("data", "array"):
            return single(self.arr(s + (p["n"],), p["complex"])), None, None
        lin = self.record((), p["n"], zeros)
        bg = [0.3 * self.arr(s, True) for _ in range(2)]
        var = [1.5 + self.arr(s, positive=True) for _ in range(2)]
        d = (lin, self.record((p["nlev"],), p["n"], 0)) if self.multi else lin
        if p["cross"]:
            return single((d, tuple(bg), tuple(var)))
        return single((d, bg[0], var[0]))

    # ---- display
    def draw(self, *a, **k):
        if sched.current_task() is None or self.v is None or not self.inside:
            return
        self.draws += 1
        if self.draws in self.p["draw_fail"]:
            self.sim.count("fault:display")
            self.fail_left += 1
            raise Closed("wrapped C/C++ object has been deleted")

    def pause(self, interval):
        if sched.current_task() is None:
            return
        self.pauses += 1
        self.sim.sleep(interval, "pause")
        while self.pending and self.pending[0][0] <= self.pauses and self.depth < 2 and self.v.fig is not None:
            e = self.pending.pop(0)[1:]
            if e[0] in ("set", "update", "mask"):
                continue
            self.sim.count("probe:event_while_plotting")
            self.depth += 1
            try:
                if self.act(e):
                    self.after()
            except Closed:
                if e[0] != "plot":
                    self.after()             # the slider has moved, only the display is lost
                raise
            finally:
                self.depth -= 1

    # ---- settings
    def indices(self):
        v = self.v
        if v.fig is None:
            return tuple(0 for _ in self.p["axes"])
        return tuple(int(v.sliders[a].val) for a in self.p["axes"])

    def norm(self):
        st = self.v.check.get_status()
        n = 3 if st[2] else 2 if st[0] else 1
        return n | (4 if st[1] else 0) | (8 if st[3] else 0)

    def from_controls(self):
        v = self.v
        self.cur = (int(round(v.kindex.val)), float(v.angleindex.val), float(v.sectorindex.val), self.cur[3])

    # ---- what must be shown
    def average(self, x, lead=0):
        """Mean of x over the selected pixels, all leading axes but the levels."""
        p = self.p
        if self.plane:
            half, conj, full = self.sel
            if p["mask"] is not None and p["compressed"]:
                m = np.array(p["mask"]).reshape(p["ksize"])
                half, conj = half[m], conj[m]
            y = x[..., half, :]
            c = conj[half]
            y[..., c, :] = np.conj(y[..., c, :])
            return np.nanmean(y, axis=-2)
        s = [slice(None)] * len(self.shape())
        for a, i in zip(p["axes"], self.indices()):
            s[a] = i
        y = x[(slice(None),) * lead + tuple(s)]
        return y.reshape(y.shape[:lead] + (-1, y.shape[-1])).mean(axis=-2)

    def expected(self):
        p = self.p
        data, bg, var = self.snapshot
        mode = self.v.selectorindex.value_selected if self.v.fig is not None else self.v.mode
        if self.kind in ("data", "array"):
            t = self.t if self.t is not None else np.arange(data.shape[-1])
            self.raw = self.average(data)
            return t, repr_of(self.raw, mode)
        norm = self.norm()
        fold = p["fold"] if p["fold"] is not None else p["cross"]
        if self.multi:
            parts = [normalised(d, bg, var, norm, p["scale"]) for d in data]
        else:
            parts = [normalised(data, bg, var, norm, p["scale"])]
        if np.iscomplexobj(parts[0]) and fold:
            parts = [folded(x, self.multi) for x in parts]
        y = self.average(parts[0])
        if self.multi and p["semilogx"]:
            slow = self.average(parts[1], 1)
            n = slow.shape[-1]
            period = y.shape[-1] // n
            t, y = joined(spread(y, n) + [(2 * period * 2 ** k * np.arange(n), x) for k, x in enumerate(slow)])
            self.check_times(t)
        elif not self.multi and p["size"] is not None:
            t, y = joined(spread(y, 2 * p["size"]))
        else:
            t = np.arange(y.shape[-1])
        self.raw = y
        return t, repr_of(y, mode)

    def check_times(self, t):
        if np.any(np.diff(t) <= 0):
            self.r.bad("times", "delay times of the merged curve do not increase: %r" % (t,))

    def compare(self, where, got=None):
        """The curve shown, against the latest data and the controls."""
        v, r = self.v, self.r
        if self.plane:
            self.sel = select(self.p, self.K, self.A, *self.cur)
            if self.sel is None:
                self.skipped += 1
                return
        with np.errstate(all="ignore"):
            verbose = self.verbose()
            t, y = self.expected()
            self.restore(verbose)
        t = np.asarray(t, float)
        for what, (x0, y0) in (("plotted", (v.l.get_xdata(), v.l.get_ydata())) if got is None else ("returned", got),):
            x0, y0 = np.asarray(x0, float), np.asarray(y0, float)
            if x0.shape != t.shape or not np.allclose(x0, t, rtol=1e-9, atol=1e-9):
                r.bad("wrong-times", "%s: %s times %r, expected %r (%s)" % (where, what, x0[:20], t[:20], self.settings()))
                return
            f = np.isfinite(self.raw)            # elsewhere there are no data
            ok = y0.shape == y.shape and np.isfinite(y0[f]).all()
            if ok and f.any():
                tol = (1e-3 if ref.SINGLE else 1e-7) * max(1.0, np.abs(y[f]).max())
                e = np.abs(y[f] - y0[f])
                if self.mode() == "phase":
                    e = np.minimum(e, np.abs(e - 2 * np.pi))
                    tol = 0.05 if ref.SINGLE else 1e-4
                ok = e.max() <= tol
            if not ok:
                r.bad("wrong-curve", "%s: %s curve %r, expected %r (%s)" % (where, what, y0[:20], y[:20], self.settings()))
                return
        self.compared += 1
        if self.plane:
            half, conj, full = self.sel
            self.sim.count("probe:selection_%s" % ("empty" if not full.any() else "nonempty"))

    def mode(self):
        return self.v.selectorindex.value_selected

    def settings(self):
        s = "mode %s" % self.mode()
        if self.plane:
            s += ", k %d angle %.3f sector %.3f step %r" % self.cur
        else:
            s += ", indices %r" % (self.indices(),)
        if self.kind not in ("data", "array"):
            s += ", norm %d" % self.norm()
        return s

    def verbose(self):
        import cddm.conf
        x = cddm.conf.CDDMConfig.verbose
        cddm.conf.CDDMConfig.verbose = 0
        return x

    def restore(self, x):
        import cddm.conf
        cddm.conf.CDDMConfig.verbose = x

    # ---- events
    def act(self, e):
        """Performs an event; True if it plots."""
        op, a, b = e
        v = self.v
        self.history.append((op, self.pauses))
        self.sim.count("probe:op_" + op)
        if op == "plot":
            self.inside += 1
            try:
                v.plot()
            finally:
                self.inside -= 1
            return True
        self.inside += 1
        try:
            plotted = self.control(op, a, b)
        finally:
            self.inside -= 1
        return plotted

    def control(self, op, a, b):
        v = self.v
        ev = self.check
        if op in ("k", "angle", "sector") and self.plane:
            w = dict(k=v.kindex, angle=v.angleindex, sector=v.sectorindex)[op]
            before = (v.kindex.val, v.angleindex.val, v.sectorindex.val)
            self.touch(w, a, b)
            if before == (v.kindex.val, v.angleindex.val, v.sectorindex.val):
                return None                      # not moved: nothing has to happen
        elif op in ("k", "angle", "sector"):
            if not self.p["axes"]:
                return None
            ax = self.p["axes"][("k", "angle", "sector").index(op) % len(self.p["axes"])]
            w = v.sliders[ax]
            before = w.val
            self.touch(w, a, b)
            if before == w.val:
                return None
        elif op == "mode":
            i = int(a * 4) % 4
            if b < 0.15:
                ev.pick(v, i)
            else:
                v.selectorindex.set_active(i)
        elif op == "norm":
            if self.kind in ("data", "array"):
                return None
            v.check.set_active(int(a * 4) % 4)
        return True

    def touch(self, w, a, b):
        self.check.drag(self.v, w, a, b)

    def after(self):
        """A control event makes the sliders' settings the current ones."""
        if self.plane and self.v.fig is not None:
            self.from_controls()

    def do(self, e, where):
        op, a, b = e
        v, p, r = self.v, self.p, self.r
        if op in ("set", "update"):
            self.set_data(op == "update")
            return
        if op == "mask":
            if not self.plane or self.given is None:
                return
            kmax = int(self.K.max())
            k, angle, sector, kstep = int(a * (kmax + 0.99)), round(b * 180 - 90, 3), round(5 + 170 * a, 3), self.p["kstep"]
            if int(b * 1000) % 4 == 0:          # documented defaults
                angle, sector = 0, 5
                got = v.set_mask(k) if kstep == 1 else v.set_mask(k, kstep=kstep)
            else:
                got = v.set_mask(k, angle, sector, kstep)
            self.cur = (k, angle, sector, kstep)
            sel = select(p, self.K, self.A, *self.cur)
            if sel is not None and bool(got) != bool(sel[2].any()):
                r.bad("wrong-mask", "%s: set_mask%r returned %r, %d pixels selected" % (where, self.cur, got, sel[2].sum()))
            return
        if op == "getk":
            if not self.plane or v.fig is None or self.depth:
                return
            sel = select(p, self.K, self.A, *self.cur)
            if sel is None or not sel[2].any():
                return
            k = v.get_k()
            want = self.K[sel[2]].mean()
            if not abs(k - want) < 1e-9 * max(1, want):
                r.bad("wrong-k", "%s: get_k() is %r, selected wave vectors have mean %r (%s)" % (where, k, want, self.settings()))
            self.sim.count("probe:get_k")
            return
        if op == "getdata":
            if v.fig is None or not hasattr(v, "l") or self.depth:
                return
            self.snap()
            with np.errstate(all="ignore"):
                got = v.get_data()
            self.sim.count("probe:get_data")
            self.compare(where, got)
            return
        if self.given is None or (v.fig is None and op != "plot"):
            return                              # there is no figure yet
        if self.fail_left == 0 and v.fig is not None and not hasattr(v, "l") and op != "plot":
            return
        self.snap()
        plotted = self.act(e)
        if plotted and op != "plot":
            self.after()
        if plotted:
            self.plots += 1
        if plotted or self.nested_plot:
            self.compare(where)

    def snap(self):
        self.snapshot = tuple(copy_of(x) for x in self.given)

    def set_data(self, in_place):
        v = self.v
        new = self.make()
        if in_place and self.given is not None:
            for x, y in zip(leaves(self.given), leaves(new)):
                x[...] = y                       # accumulators of a running computation
        else:
            self.given = new
        d, bg, var = self.given
        self.t = None
        if self.kind in ("data", "array"):
            if self.p["times"]:
                self.t = np.cumsum(1 + self.rs.randint(0, 3, size=d.shape[-1]))
                v.set_data(d, self.t)
            else:
                v.set_data(d)
        else:
            v.set_data(d, bg, var)

    def unchanged(self, where, before):
        a, b = leaves(self.given), leaves(before)
        if len(a) != len(b) or any(not np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)):
            self.r.bad("data-changed", "%s: the data given to the viewer was changed" % where)

    def build(self):
        from cddm import viewer as W
        p = self.p
        mask = None if p["mask"] is None else np.array(p["mask"]).reshape(p["ksize"])
        frame = None if p["frame"] is None else tuple(p["frame"])
        if self.kind == "data":
            return W.DataViewer(semilogx=p["semilogx"], shape=frame, mask=mask)
        if self.kind == "corr":
            return W.CorrViewer(semilogx=p["semilogx"], shape=frame, size=p["size"], norm=p["norm"], scale=p["scale"], mask=mask, fold=p["fold"])
        if self.kind == "multi":
            return W.MultitauViewer(semilogx=p["semilogx"], shape=frame, norm=p["norm"], scale=p["scale"], mask=mask, fold=p["fold"])
        axes = tuple(p["axes"])
        if self.kind == "array":
            return W.DataArrayViewer(semilogx=p["semilogx"], axes=axes)
        if self.kind == "corrarray":
            return W.CorrArrayViewer(semilogx=p["semilogx"], axes=axes, size=p["size"], norm=p["norm"], scale=p["scale"], fold=p["fold"])
        return W.MultitauArrayViewer(semilogx=p["semilogx"], axes=axes, norm=p["norm"], scale=p["scale"], fold=p["fold"])

    def one(self, e, where):
        """An event at top level, with what may go wrong around it."""
        before = tuple(copy_of(x) for x in self.given) if self.given is not None else None
        self.nested_plot = False
        given = self.given
        try:
            self.do(e, where)
        except Closed:
            self.fail_left -= 1
            # the event got lost half way; the next one has to work
            self.sim.count("probe:event_lost")
            if e[0] != "plot":
                self.after()
        except Exception as ex:
            if isinstance(ex, (sched.HarnessError, InvalidPlan)):
                raise
            import traceback
            tb = traceback.format_exc()
            if "/cddm/" not in tb:
                raise
            self.r.bad("event-raised", "%s (%s): %s: %s\n%s" % (where, e[0], type(ex).__name__, ex, tb[-700:]))
            return
        if before is not None and e[0] not in ("set", "update") and self.given is given:
            self.unchanged(where, before)

    def user(self):
        import cddm.conf
        p = self.p
        self.inside = 0
        self.t = None
        self.cur = (0, 0, 5, 1)
        self.v = self.build()
        cddm.conf.CDDMConfig.verbose = p["verbose"]
        if p["live"] is not None:
            self.live()
            return
        for n, e in enumerate(p["events"]):
            self.one(e, "event %d" % n)
            if cddm.conf.CDDMConfig.verbose != p["verbose"]:
                self.r.bad("verbosity", "event %d (%s) left verbosity %r, it was %r" % (n, e[0], cddm.conf.CDDMConfig.verbose, p["verbose"]))
            if self.r.violations:
                return

    # ---- attached to a running computation
    def live(self):
        import cddm.core, cddm.multitau
        p, S = self.p, self
        L = p["live"]
        fn = getattr(cddm.multitau if L["fn"].endswith("multi") else cddm.core, L["fn"])
        cross = "cc" in L["fn"]
        frames = []
        for k in range(L["count"]):
            frames.append(tuple(0.5 + self.rs.randn(*p["ksize"]) + 1j * self.rs.randn(*p["ksize"]) for _ in range(2 if cross else 1)))
        failure = world.FAILURES["SourceError"](0)
        src = Source(self.sim, frames, p["sd"], L["fail_at"], failure, lambda k: None)
        v = self.v
        events = [list(e) for e in p["events"]]
        updates = [0]

        class Relay(object):
            """Stands between computation and viewer to see what passes."""
            def set_data(s, data, background=None, variance=None):
                S.given = (data, background, variance)
                v.set_data(data, background, variance)

            def plot(s):
                k = updates[0]
                updates[0] += 1
                S.one(["plot", 0, 0], "update %d" % k)
                for e in events[2 * k:2 * k + 2]:
                    if not S.r.violations:
                        S.one(e, "after update %d" % k)
        kw = dict(norm=p["norm_data"], viewer=Relay(), viewer_interval=L["interval"], chunk_size=L["half"], count=L["count"], stats=True, complex=p["complex"])
        if p["mask"] is not None:
            kw["mask"] = np.array(p["mask"]).reshape(p["ksize"])
        if L["fn"].endswith("multi"):
            kw["level_size"] = p["n"]
        else:
            kw["n"] = p["n"]
        import io, contextlib
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fn(iter(src), **kw)
        except Exception as e:
            if not world.same_error(e, failure):
                raise
            self.live_error = True
        for e in p["events"][2 * updates[0]:]:
            if self.given is not None and not self.r.violations:
                self.one(e, "after the computation")


class C19(object):
    RUNS = {"quick": 1200, "thorough": 20000}
    HANG_S = 240.0
    FIXED = ("kind", "ksize", "frame", "more", "axes", "mask", "compressed", "complex", "cross", "method", "norm_data", "n", "nlev", "data", "live", "norm")
    RULE = ("DataViewer, CorrViewer, MultitauViewer and their array variants with random frame shapes, crops, masks (full or compressed data), normalisations, scaling, log averaging, real or complex "
            "auto- or cross-correlation or difference data; 2 to 14 events: new data, data changed in place (accumulators), plot, slider press and drag, representation, normalisation check boxes, set_mask, "
            "get_k, get_data, further events arriving while a plot is being shown, displays failing while drawing; or attached to a running streaming correlation with a source that may fail; non-trivial: a curve was compared")
    DISTINCT = "hash of viewer kind, data kind, settings and events with the pause they arrived in, per run"
    REAL = ["cddm.viewer (all correlation viewers)", "cddm.norm, cddm.map, cddm.multitau averaging", "matplotlib Slider, CheckButtons, mouse and pick events", "cddm.core/cddm.multitau streaming correlation (live runs)"]
    STUB = ["figure canvas (Agg, drawing replaced by a counter that can fail)", "plt.pause (advances virtual time and delivers pending events)", "frame source of live runs", "clock"]
    ASSUMPTIONS = ["weighted and complex normalisation are taken from the package, applied to unmasked data; the other normalisations are recomputed from their definition",
                   "selections decided by rounding (a wave vector exactly on the border of ring or sector) are not judged"]

    def setup(self):
        world.setup(("cddm.core", "cddm.multitau", "cddm.viewer"))
        import matplotlib.pyplot as plt
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        fig, ax = plt.subplots()
        ax.semilogx([0, 1, 2])
        fig.canvas.draw()
        plt.close(fig)
        self.plt, self.canvas, self.real_draw = plt, FigureCanvasAgg, FigureCanvasAgg.draw

    def gen(self, rng):
        kind = rng.choice(KINDS)
        plane = kind in ("data", "corr", "multi")
        live = plane and kind != "data" and rng.random() < 0.25
        more = []
        if plane:
            h, w = rng.choice([[8, 8], [7, 7], [8, 6], [6, 9], [9, 5], [12, 12], [5, 16]])
            ksize, frame = [h, w // 2 + 1], [h, w]
            if rng.random() < 0.4:
                a, b = rng.randint(1, (h - 1) // 2), rng.randint(1, (w - 1) // 2)
                ksize = [2 * a + 1, b + 1]
            if rng.random() < 0.2:
                frame = None
        else:
            ksize, frame = rng.choice([[3, 2], [4, 3], [5, 3]]), None
            if rng.random() < 0.3:
                more = [2]
        mask, compressed = None, False
        if plane and rng.random() < 0.4:
            mask = [rng.random() < 0.6 for _ in range(ksize[0] * ksize[1])]
            mask[0] = True
            if sum(mask) == 2:                           # arrays of two elements look like one per camera
                mask[rng.choice([i for i, x in enumerate(mask) if not x])] = True
            if frame and frame[1] % 2 == 0 and ksize[1] == frame[1] // 2 + 1:
                for i in range(1, ksize[0]):         # the highest frequency is its own mirror image
                    mask[i * ksize[1] + ksize[1] - 1] = mask[(ksize[0] - i) * ksize[1] + ksize[1] - 1]
            compressed = rng.random() < 0.5 and not live
        dims = 2 + len(more)
        axes = [] if plane else rng.sample(range(dims), rng.randint(0 if rng.random() < 0.3 else 1, dims))
        cross = rng.random() < 0.5
        method = "diff" if kind not in ("data", "array") and rng.random() < 0.2 else "corr"
        cplx = method == "corr" and rng.random() < 0.3
        norm_data = rng.choice([1, 2, 3, 5, 6, 7]) if method == "corr" else rng.choice([2, 6] if cross else [2])
        live_plan = None
        if live:
            method = "corr"
            fn = ("iccorr" if cross else "iacorr") + ("_multi" if kind == "multi" else "")
            norm_data = rng.choice([1, 2, 3, 5, 6, 7])
        norm = None
        if rng.random() < 0.5:
            norm = rng.choice([1, 2, 3, 5, 6, 7, 9, 10, 11])
            avail = norm_data | (8 if norm_data & 4 else 0)
            if method == "diff":
                norm = 2 if not norm & 4 else norm_data
            elif norm & avail != norm:
                norm = None
        n = rng.choice([4, 6, 8, 8, 16])
        if live:
            half = n * rng.choice([1, 2])
            count = half * rng.choice([1, 2, 4])
            live_plan = dict(fn=fn, half=half, count=count, interval=rng.choice([1, 1, 2]), fail_at=rng.randint(half, count) if rng.random() < 0.3 else -1)

        def event(ops):
            return [rng.choice(ops), rng.choice([0.0, 1.0, 0.5, round(rng.random(), 4), round(rng.random(), 4)]), round(rng.random(), 4)]
        OPS = ("set", "update", "update", "plot", "plot", "k", "k", "angle", "sector", "mode", "norm", "norm", "mask", "getk", "getdata")
        events = [event(OPS if not live else OPS[5:]) for _ in range(rng.randint(2, 14))]
        if not live:
            if rng.random() < 0.4:
                events.insert(0, event(("mask",)))
            events.insert(0, ["set", 0, 0])
            events.insert(rng.randint(1, min(3, len(events))), ["plot", 0, 0])
        nested = sorted([rng.randint(1, 12)] + event(("k", "angle", "sector", "mode", "norm")) for _ in range(rng.choice([0, 0, 1, 2, 4])))
        return dict(kind=kind, ksize=ksize, frame=frame, more=more, axes=axes, mask=mask, compressed=compressed, complex=cplx, cross=cross, method=method, norm_data=norm_data, norm=norm,
                    n=n, nlev=rng.choice([1, 2, 3]), zeros=rng.choice([0, 0, 1, 2]), size=rng.choice([None, None, 4, 8]), scale=rng.random() < 0.4, fold=rng.choice([None, None, None, False] if cross and kind not in ("multi", "multiarray") else [None, None if cross else False]),
                    semilogx=rng.random() < 0.7, times=rng.random() < 0.4, kstep=rng.choice([1, 1, 1, 0.5, 2]), data=rng.randrange(1 << 30), verbose=rng.choice([0, 1, 2]), events=events, nested=nested,
                    draw_fail=sorted(rng.sample(range(1, 20), 2)) if rng.random() < 0.2 else [], live=live_plan, sd=world.gen_delays(rng, 8), sched=world.gen_sched(rng, 1), jumps={})

    def execute(self, plan, seed, decisions=None):
        import io, contextlib, cddm.conf
        p = plan
        if len(p["ksize"]) != 2 or min(p["ksize"]) < 2 or p["n"] < 4 or p["nlev"] < 1:
            raise InvalidPlan("shape")
        if p["mask"] is not None and (len(p["mask"]) != p["ksize"][0] * p["ksize"][1] or not p["mask"][0]):
            raise InvalidPlan("mask")
        if p["ksize"][0] == 2 or p["mask"] is not None and sum(p["mask"]) == 2 and p["compressed"]:
            raise InvalidPlan("arrays of two elements look like one per camera")
        if p["mask"] is not None and p["frame"] and p["frame"][1] % 2 == 0 and p["ksize"][1] == p["frame"][1] // 2 + 1:
            c = np.array(p["mask"]).reshape(p["ksize"])[:, -1]
            if not np.array_equal(c[1:], c[:0:-1]):
                raise InvalidPlan("mask not symmetric")
        if p["live"] is None and (not p["events"] or p["events"][0][0] != "set"):
            raise InvalidPlan("no data")
        if p["kind"] in ("multi", "multiarray") and p["cross"] and p["complex"] and p["fold"] is False:
            raise InvalidPlan("2n - 1 delays can not be merged")
        s = Session(self, p, seed, decisions)
        plt = self.plt
        saved = plt.pause, self.canvas.draw, self.canvas.draw_idle, self.canvas.flush_events
        nothing = lambda *a, **k: None
        plt.pause, self.canvas.draw, self.canvas.draw_idle, self.canvas.flush_events = s.pause, nothing, nothing, s.draw
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                s.sim.run(("user", s.user))
        finally:
            plt.pause, self.canvas.draw, self.canvas.draw_idle, self.canvas.flush_events = saved
            plt.close("all")
            cddm.conf.CDDMConfig.verbose = 0
            s.v = None
        r, sim = s.r, s.sim
        r.take(sim)
        if sim.failure is not None:
            r.bad("no-progress", str(sim.failure))
        for name, tb in sim.thread_exceptions:
            if name == "user":
                if "HarnessError" in tb or "/cddm/" not in tb:
                    raise sched.HarnessError(tb)
                r.bad("unexpected-exception", tb[-1500:])
        r.count("probe:curves_compared", s.compared)
        r.count("probe:selection_undecided", s.skipped)
        if s.live_error:
            r.count("fault:source_failed_live")
        if p["live"]:
            r.count("probe:live")
        r.key = world.digest(p["kind"], p["complex"], p["cross"], p["method"], p["norm_data"], p["mask"] is None, p["compressed"], s.history, s.cur)
        r.nontrivial = s.compared > 0
        r.digest = world.digest(sim.log, sim.steps, sim.digest(), s.history, s.cur, s.draws, s.compared, [x["kind"] for x in r.violations])
        r.trace = ["%d %s %s %r" % e for e in sim.log]
        return r

    # ---- events through matplotlib
    def drag(self, v, w, a, b):
        from matplotlib.backend_bases import MouseEvent
        canvas, box = v.fig.canvas, w.ax.bbox

        def mouse(kind, f):
            x = w.ax.transData.transform((w.valmin + f * (w.valmax - w.valmin), 0.5))[0]
            MouseEvent(kind, canvas, min(max(x, box.x0 + 1e-6), box.x1 - 1e-6), box.y0 + box.height * 0.5, None if kind == "motion_notify_event" else 1)._process()
        self.let_go(v)
        mouse("button_press_event", a)
        try:
            if b < 0.3:
                mouse("motion_notify_event", b * 3)
        finally:
            mouse("button_release_event", b * 3 if b < 0.3 else a)

    def let_go(self, v):
        """There is one mouse: a slider held when an event got lost is let go before the next press."""
        from matplotlib.backend_bases import MouseEvent
        if v.fig.canvas.mouse_grabber is not None:
            g = v.fig.canvas.mouse_grabber.bbox
            MouseEvent("button_release_event", v.fig.canvas, g.x0 + g.width * 0.5, g.y0 + g.height * 0.5, 1)._process()

    def pick(self, v, i):
        from matplotlib.backend_bases import MouseEvent
        self.let_go(v)
        stub, self.canvas.draw = self.canvas.draw, self.real_draw
        try:
            v.fig.draw_without_rendering()
        finally:
            self.canvas.draw = stub
        c = v.selectorindex.circles[i]
        x, y = c.get_offset_transform().transform(c.get_offsets())[0]
        for kind in ("button_press_event", "button_release_event"):
            MouseEvent(kind, v.fig.canvas, x, y, 1)._process()


CHECK = C19()
