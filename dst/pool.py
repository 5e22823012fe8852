"""Simulated worker pool for kernels compiled with numba's parallel target.

The kernels are the real, compiled ones.  What numba's threads would do with
them is done here instead: the outer loop is cut into pieces, a piece per
worker, and the pieces are executed in an order which the run's seed decides.
Compiled loops over nb.prange are executed by simulated threads, uncompiled,
with every access to an array a point where the scheduler may switch.
"""
import random, re, threading
import numpy as np
from . import sched

WORKERS = 4
_rng = random.Random(0)
COUNT = {}


def begin(seed):
    """Start of a run: everything the pool decides follows from the seed."""
    _rng.seed("pool-%s" % (seed,))
    COUNT.clear()


def _note(name):
    COUNT[name] = COUNT.get(name, 0) + 1


def _pieces(n):
    """[0, n) in up to WORKERS contiguous pieces, in the order they are executed."""
    k = min(n, WORKERS)
    cuts = [n * i // k for i in range(k + 1)]
    out = list(zip(cuts[:-1], cuts[1:]))
    _rng.shuffle(out)
    if out != sorted(out):
        _note("fault:pieces_out_of_order")
    _note("probe:kernel_split_over_workers")
    return out


class Kernel(object):
    """A ufunc or generalised ufunc, executed in pieces."""

    def __init__(self, fn, core_in, core_out):
        self.fn, self.core_in, self.core_out = fn, core_in, core_out
        self.__name__ = getattr(fn, "__name__", "kernel")
        self.__doc__ = getattr(fn, "__doc__", None)

    def __getattr__(self, name):
        return getattr(self.__dict__["fn"], name)

    def __call__(self, *args, **kw):
        nin = len(self.core_in)
        outs = list(args[nin:])
        if "out" in kw:
            o = kw["out"]
            outs += list(o) if isinstance(o, tuple) else [o]
        rest = {k: v for k, v in kw.items() if k != "out"}
        if sched.current_task() is None or rest or len(args) < nin:
            return self.fn(*args, **kw)
        ins = [a if isinstance(a, np.ndarray) else np.asarray(a) for a in args[:nin]]
        scalar = [not isinstance(a, (np.ndarray, list, tuple)) for a in args[:nin]]
        outs = [o for o in outs if o is not None]
        if outs and (len(outs) != len(self.core_out) or not all(isinstance(o, np.ndarray) for o in outs)):
            return self.fn(*args, **kw)
        loops = [a.shape[:a.ndim - c] if a.ndim >= c else None for a, c in zip(ins + outs, self.core_in + (self.core_out if outs else ()))]
        try:
            loop = np.broadcast_shapes(*loops)
        except (ValueError, TypeError):
            return self.fn(*args, **kw)
        if not loop or loop[0] < 2 or any(l != loop for l in loops[nin:]):
            return self.fn(*args, **kw)
        # an array which overlaps what is written is read first
        for i, a in enumerate(ins):
            for o in outs:
                if np.may_share_memory(a, o) and not (a.__array_interface__["data"] == o.__array_interface__["data"] and a.strides == o.strides and a.shape == o.shape):
                    ins[i] = a.copy()
        L = len(loop)

        def part(x, c, s, e, sc=False, orig=None):
            if sc:
                return orig
            return x[s:e] if x.ndim - c == L and x.shape[0] == loop[0] else x

        def call(s, e, target):
            p = [part(x, c, s, e, sc, o) for x, c, sc, o in zip(ins, self.core_in, scalar, args)]
            if target:
                return self.fn(*(p + [t[s:e] for t in target]))
            return self.fn(*p)
        pieces = _pieces(loop[0])
        if outs:
            for s, e in pieces:
                call(s, e, outs)
            return outs[0] if len(outs) == 1 else tuple(outs)
        made = None
        for s, e in pieces:
            res = call(s, e, None)
            one = not isinstance(res, tuple)
            res = (res,) if one else res
            if made is None:
                made = [np.empty((loop[0],) + x.shape[1:], x.dtype) for x in res]
            for m, x in zip(made, res):
                m[s:e] = x
        return made[0] if one else tuple(made)


class Shared(object):
    """An array several workers use: a switch is possible at each access."""

    def __init__(self, a):
        self._a = a

    def _point(self, what):
        t = sched.current_task()
        if t is not None:
            t.sim.yield_point("sync", what)

    def __getitem__(self, k):
        self._point("read")
        return self._a[k]

    def __setitem__(self, k, v):
        self._point("write")
        self._a[k] = v

    def __len__(self):
        return len(self._a)

    def __getattr__(self, name):
        return getattr(self.__dict__["_a"], name)


class Loop(object):
    """A compiled function with loops over nb.prange."""

    def __init__(self, fn, serial):
        self.py, self.serial = fn, serial
        self.__name__ = fn.__name__
        self.py_func = fn

    def __call__(self, *args):
        t = sched.current_task()
        if t is None:
            return self.serial(*args)
        shared = {id(a): Shared(a) for a in args if isinstance(a, np.ndarray)}
        given = [shared.get(id(a), a) for a in args]
        share = threading.local()

        class nb(object):
            def __getattr__(self, name):
                import numba
                return getattr(numba, name)

            def prange(self, *a):
                r = range(*a)
                k, w = share.k, share.w
                return r[len(r) * k // w:len(r) * (k + 1) // w]
        import types
        glob = dict(self.py.__globals__, nb=nb(), numba=nb(), prange=nb().prange)
        fn = types.FunctionType(self.py.__code__, glob, self.py.__name__, self.py.__defaults__, self.py.__closure__)
        res, errs = {}, []

        def worker(k, w):
            share.k, share.w = k, w
            try:
                with np.errstate(over="ignore"):       # integers wrap, as compiled
                    res[k] = fn(*given)
            except Exception as e:
                errs.append(e)
        w = WORKERS
        ts = [threading.Thread(target=worker, args=(k, w)) for k in range(1, w)]
        for x in ts:
            x.start()
        worker(0, w)
        for x in ts:
            x.join()
        _note("probe:loop_split_over_workers")
        if errs:
            raise errs[0]
        r = res[0]
        return r._a if isinstance(r, Shared) else r


def _core(sig):
    left, right = sig.replace(" ", "").split("->")
    dims = lambda s: tuple(len([d for d in g.split(",") if d]) for g in re.findall(r"\(([^)]*)\)", s))
    return dims(left), dims(right)


def install():
    """Takes the place of numba's parallel target; before the code under test is imported."""
    import numba
    vec, gu, jit = numba.vectorize, numba.guvectorize, numba.jit

    def vectorize(*a, **kw):
        if kw.get("target") != "parallel":
            return vec(*a, **kw)

        def deco(f):
            fn = vec(*a, **dict(kw, target="cpu"))(f)
            return Kernel(fn, (0,) * fn.nin, (0,) * fn.nout) if hasattr(fn, "nin") else fn
        return deco

    def guvectorize(*a, **kw):
        if kw.get("target") != "parallel":
            return gu(*a, **kw)

        def deco(f):
            fn = gu(*a, **dict(kw, target="cpu"))(f)
            return Kernel(fn, *_core(a[1]))
        return deco

    def njit(*a, **kw):
        if not kw.get("parallel"):
            return jit(*a, **kw)

        def deco(f):
            return Loop(f, jit(*a, **dict(kw, parallel=False))(f))
        return deco
    numba.vectorize, numba.guvectorize, numba.jit = vectorize, guvectorize, njit
