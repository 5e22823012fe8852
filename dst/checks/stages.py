"""Random chains of video stages and what they must give (C17, C18)."""
import numpy as np
from .. import world
from ..runner import InvalidPlan

DTYPES = ("uint8", "uint16", "int32", "float32", "float64", "float64", "complex128")
ARITH = ("subtract", "add", "multiply")
FOURIER = ("rfft2_video", "fft2_video", "dls_video")
NORMAL = ("normalize_video", "normalize_fft")


class State(object):
    """What is known about the frames at some place of a chain."""
    def __init__(self, shape, dtype, shared):
        self.shape, self.dtype = tuple(shape), np.dtype(dtype)
        self.shared = shared          # arrays may be those of the source (or those of an earlier frame)


def cut(n, rng):
    a = rng.randint(0, n - 1)
    b = rng.randint(a + 1, n)
    return rng.choice([[a, b], [a, b], [None, b], [a, None], [-n + a, b], [a, n + 3], [None, None], [a, b, 2]])


def gen_stage(rng, s, ncam, n, threads=True, inplace=True):
    """One stage legal for frames of state s, or None."""
    kinds = ["subtract", "add", "multiply", "subtract", "multiply", "normalize_video"]
    if len(s.shape) == 2:
        kinds += ["crop", "crop", "mask", "rfft2_video", "fft2_video", "dls_video"]
        if s.dtype.kind == "c":
            kinds += ["normalize_fft", "normalize_fft"]
    if threads:
        kinds += ["threaded"]
    op = rng.choice(kinds)
    if op == "crop":
        return dict(op=op, roi=[cut(s.shape[0], rng), cut(s.shape[1], rng)], tuples=rng.random() < 0.5)
    if op == "mask":
        m = [rng.random() < 0.6 for _ in range(s.shape[0] * s.shape[1])]
        m[rng.randrange(len(m))] = True
        return dict(op=op, mask=m)
    if op == "threaded":
        return dict(op=op, queue=rng.choice([0, 1, 2, 5]))
    if op in FOURIER:
        h, w = s.shape
        if h < 2 or w < 2:
            return None
        ki = rng.choice([None, None, rng.randint(0, h // 2), h // 2])
        kj = rng.choice([None, rng.randint(0, w // 2), w // 2])
        st = dict(op=op, kimax=ki, kjmax=kj)
        if op == "dls_video":
            kvec = lambda: [rng.randint(-(h // 2), (h - 1) // 2), rng.randint(-(w // 2), (w - 1) // 2)]
            st.update(kvec=kvec() if rng.random() < 0.5 else [kvec() for _ in range(rng.choice([1, 2, 3]))], data=rng.randrange(1 << 30))
        else:
            st["overwrite"] = inplace and rng.random() < 0.25
        return st
    inp = inplace and rng.random() < 0.35 and s.dtype.kind in "fc"
    dt = None
    if not inp and rng.random() < 0.3:
        dt = "complex128" if s.dtype.kind == "c" else rng.choice(["float32", "float64", "complex128"])
    if op in NORMAL:
        return dict(op=op, inplace=inp, dtype=dt)
    ydt = rng.choice(["float64", "float32", "uint8", "int32"])
    if s.dtype.kind == "c" and rng.random() < 0.5:
        ydt = "complex128"
    if s.dtype.kind in "ui" and rng.random() < 0.5:
        ydt = s.dtype.name
    ykind = rng.choice(["const", "const", "list", "iter", "window"])
    length = n + rng.choice([0, 0, 0, 1, -1, 3]) if ykind in ("list", "iter") else None
    return dict(op=op, inplace=inp, dtype=dt, y=ykind, ydt=ydt, length=length if length is None else max(0, length), data=rng.randrange(1 << 30),
                fail_at=rng.choice([-1, -1, rng.randint(0, n)]) if ykind == "iter" else -1, odd=rng.choice([-1] * 6 + [rng.randint(0, max(0, n - 1))]) if ykind in ("list", "iter") else -1)


def sl(x):
    return slice(*x)


def after(s, st):
    """State behind the stage; raises InvalidPlan if the stage does not fit."""
    op = st["op"]
    if op == "threaded":
        return State(s.shape, s.dtype, s.shared)
    if op == "crop":
        if len(s.shape) != 2:
            raise InvalidPlan("crop of 1D")
        shape = np.empty(s.shape)[sl(st["roi"][0]), sl(st["roi"][1])].shape
        if 0 in shape:
            raise InvalidPlan("empty")
        return State(shape, s.dtype, s.shared)
    if op == "mask":
        if len(s.shape) != 2 or len(st["mask"]) != s.shape[0] * s.shape[1] or not any(st["mask"]):
            raise InvalidPlan("mask")
        return State((sum(st["mask"]),), s.dtype, False)
    if op in FOURIER:
        if len(s.shape) != 2 or min(s.shape) < 2:
            raise InvalidPlan("fft")
        h, w = s.shape
        ki, kj = st["kimax"], st["kjmax"]
        if ki is not None and not 0 <= ki <= h // 2 or kj is not None and not 0 <= kj <= w // 2:
            raise InvalidPlan("k")
        real = op == "rfft2_video"
        shape = (h if ki is None else 2 * ki + 1, w // 2 + 1 if real and kj is None else w if kj is None else kj + 1 if real else 2 * kj + 1)
        if op == "dls_video":
            kv = np.array(st["kvec"])
            if kv.ndim not in (1, 2) or kv.shape[-1] != 2 or not len(kv) or (np.abs(kv) * 2 > np.array(s.shape)).any() or (kv * 2 >= np.array(s.shape)).any():
                raise InvalidPlan("kvec")
            shape = kv.shape[:-1] + shape
        return State(shape, "complex128", False)
    inp = st["inplace"]
    if inp and s.dtype.kind not in "fc":
        raise InvalidPlan("in place on integers")
    if op in NORMAL:
        if op == "normalize_fft" and len(s.shape) != 2:
            raise InvalidPlan("normalize_fft")
        out = s.dtype if inp else np.result_type(s.dtype, np.float32 if s.dtype == np.float32 else np.float64)
    else:
        if inp and st["ydt"] == "complex128" and s.dtype.kind != "c":
            raise InvalidPlan("complex into real")
        out = s.dtype if inp else np.result_type(s.dtype, st["ydt"])
    if st["dtype"] is not None and not inp:
        if out.kind == "c" and np.dtype(st["dtype"]).kind != "c":
            raise InvalidPlan("complex into real")
        out = np.dtype(st["dtype"])
    return State(s.shape, out, s.shared and inp)


def second(st, s, ncam, n):
    """Frames of the second video of an arithmetic stage."""
    rs = np.random.RandomState(st["data"])

    def one():
        x = rs.rand(*s.shape) * 4 + 0.25
        if st["ydt"] == "complex128":
            return x + 1j * rs.rand(*s.shape)
        return (x if np.dtype(st["ydt"]).kind == "f" else x * 8).astype(st["ydt"])
    if st["y"] in ("const", "window"):
        if st["y"] == "window":
            w = one()
            return [(w,) * ncam]
        return [tuple(one() for _ in range(ncam))]
    out = [tuple(one() for _ in range(ncam)) for _ in range(st["length"])]
    k = st["odd"]
    if 0 <= k < len(out):
        out[k] = out[k][:-1] if ncam > 1 else out[k] * 2      # a camera is missing (or too many)
    return out


def y_frame(st, ys, k):
    return ys[0] if st["y"] in ("const", "window") else ys[k]


def reference(st, s, x, w):
    """The documented operation on one frame x (w: frame of the second video), not in place."""
    op = st["op"]
    if op == "threaded":
        return x
    if op == "crop":
        return x[sl(st["roi"][0]), sl(st["roi"][1])]
    if op == "mask":
        return np.array([v for v, m in zip(x.reshape(-1), st["mask"]) if m], x.dtype)
    if op == "normalize_fft":
        return cast(x / x[0, 0], st, x)
    if op == "normalize_video":
        return cast(x / x.mean(), st, x)
    if op in ARITH:
        y = {"subtract": np.subtract, "add": np.add, "multiply": np.multiply}[op](x, w)
        return cast(y, st, x)
    return fourier(st, x)


def cast(y, st, x):
    if st["inplace"]:
        return y.astype(x.dtype)
    return y if st["dtype"] is None else y.astype(st["dtype"])


_dft = {}

def dft(n):
    """Matrix of the discrete Fourier transform."""
    if n not in _dft:
        _dft[n] = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
    return _dft[n]


def dls_window(st, shape):
    n = shape[0] * shape[1]
    return ((np.arange(n) * 7919 + st["data"]) % 101 / 101 + 0.1).reshape(shape)


def dft2(x):
    return dft(x.shape[-2]) @ x.astype(complex) @ dft(x.shape[-1]).T


def fourier(st, x):
    """Two-dimensional transform from its definition, wave vectors up to kimax and kjmax."""
    h, w = x.shape
    ki, kj = st["kimax"], st["kjmax"]
    real = st["op"] == "rfft2_video"
    f = dft2(x.real if real else x)
    if st["op"] == "dls_video":
        # modulation of the window by a plane wave for each wave vector, a filter in Fourier space
        kv = np.array(st["kvec"]).reshape(-1, 2)
        win = dls_window(st, (h, w))
        i, j = np.arange(h)[:, None], np.arange(w)[None, :]
        f = np.array([f * dft2(win * np.exp(-2j * np.pi * (a * i / h + b * j / w))) for a, b in kv])
        f = take(f, ki, kj, False)
        out = np.array([dft(g.shape[0]).conj() @ g @ dft(g.shape[1]).conj().T / g.size for g in f])
        return out if np.ndim(st["kvec"]) == 2 else out[0]
    return take(f, ki, kj, real)


def take(f, ki, kj, real):
    h, w = f.shape[-2:]
    if ki is None and kj is None:
        return f[..., :w // 2 + 1] if real else f

    def rows(n, k):
        return list(range(n)) if k is None else list(range(k + 1)) + list(range(n - k, n))
    cols = (list(range(w // 2 + 1)) if kj is None else list(range(kj + 1))) if real else rows(w, kj)
    return f[..., rows(h, ki), :][..., cols]


def build(V, F, st, s, video, y):
    """The real stage on top of `video`."""
    op = st["op"]
    if op == "threaded":
        return V.threaded(video, st["queue"])
    if op == "crop":
        roi = tuple(tuple(x) for x in st["roi"]) if st["tuples"] else tuple(sl(x) for x in st["roi"])
        return V.crop(video, roi=roi)
    if op == "mask":
        return V.mask(video, mask=np.array(st["mask"]).reshape(s.shape))
    if op == "dls_video":
        return F.dls_video(video, dls_window(st, s.shape), st["kvec"], kimax=st["kimax"], kjmax=st["kjmax"])
    if op in FOURIER:
        return getattr(F, op)(video, kimax=st["kimax"], kjmax=st["kjmax"], overwrite_x=bool(st.get("overwrite")))
    if op == "normalize_fft":
        return F.normalize_fft(video, inplace=st["inplace"], dtype=st["dtype"])
    if op == "normalize_video":
        return V.normalize_video(video, inplace=st["inplace"], dtype=st["dtype"])
    return getattr(V, op)(video, y, inplace=st["inplace"], dtype=st["dtype"])
