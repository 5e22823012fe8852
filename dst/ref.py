"""Executable reference model of the correlators: direct double sums in numpy.

Nothing here uses cddm.  Data are (frames, pixels) arrays."""
import os
import numpy as np

STRUCTURED, SUBTRACTED = 2, 4     # bits of the norm flag, as documented


def weights(t1, t2, n, auto, cplx, allowed=None):
    """W[m, i, j] = 1 where the frame pair (i, j) contributes to delay m."""
    t1, t2 = np.asarray(t1), np.asarray(t2)
    d = t2[None, :] - t1[:, None]
    N, M = d.shape
    ok = np.ones((N, M), bool) if allowed is None else allowed
    if auto:
        ok = ok & (np.arange(M)[None, :] >= np.arange(N)[:, None])
        lags = list(range(n))
    elif cplx:
        lags = list(range(n)) + list(range(-(n - 1), 0))
    else:
        d = np.abs(d)
        lags = list(range(n))
    return np.stack([(ok & (d == m)) for m in lags]).astype(float)


def correlate(F1, F2, t1, t2, n, norm, method, auto, cplx, S1=None, S2=None, allowed=None):
    """(corr or diff, count, sq, m1, m2), each (pixels, delays); None where not produced."""
    W = weights(t1, t2, n, auto, cplx, allowed)
    if auto:
        F2, S2 = F1, S1
    S1 = np.abs(F1) ** 2 if S1 is None else S1
    S2 = np.abs(F2) ** 2 if S2 is None else S2
    count = W.sum((1, 2)).astype(int)
    r, c = W.sum(2), W.sum(1)                       # (delays, frames)
    sq = (r @ S1 + c @ S2).T
    out = np.einsum("ip,mip->pm", np.conj(F1), W @ F2) if not (method == "diff") else None
    if method == "diff":
        P1, P2 = np.abs(F1) ** 2, np.abs(F2) ** 2
        x = np.einsum("ip,mip->pm", np.conj(F1), W @ F2)
        out = (r @ P1 + c @ P2).T - 2 * x.real
        sq = None
    elif not cplx:
        out = out.real
    if method != "diff" and not norm & STRUCTURED:
        sq = None
    m1 = m2 = None
    if norm & SUBTRACTED:
        if auto:
            m1 = ((r @ F1 + c @ F1) / 2).T
        else:
            m1, m2 = (r @ F1).T, (c @ F2).T
    if auto and method == "diff":
        m1 = None
    return out, count, sq, m1, m2


def halve(X, binning):
    """One level of binning: 1 mean of pairs, 0 first of each pair."""
    N = len(X) // 2 * 2
    if binning == 1:
        return (X[0:N:2] + X[1:N:2]) / 2
    return X[0:N:2].copy()


def chunks_allowed(N, half, full):
    c = np.arange(N) // half
    d = np.abs(c[:, None] - c[None, :])
    return d <= 1 if full else d == 0


def spacing_ok(t1, t2, half, nfast):
    """Every pair with delay below nfast lies within one neighbouring chunk."""
    t1, t2 = np.asarray(t1), np.asarray(t2)
    near = np.abs(t2[None, :] - t1[:, None]) < nfast
    return not np.any(near & ~chunks_allowed(len(t1), half, True))


def stats(F):
    return F.mean(0), (np.abs(F - F.mean(0)) ** 2).mean(0)


def unflatten(A, shape, mask, lead=()):
    """(…, pixels, delays) of the masked pixels -> frame shape, nan outside the mask."""
    if A is None:
        return None
    A = np.asarray(A)
    tail = A.shape[len(lead) + 1:]
    if mask is None:
        return A.reshape(tuple(lead) + tuple(shape) + tail)
    out = np.full(tuple(lead) + (int(np.prod(shape)),) + tail, np.nan, A.dtype if A.dtype.kind in "fc" else float)
    out[(slice(None),) * len(lead) + (np.flatnonzero(mask),)] = A
    return out.reshape(tuple(lead) + tuple(shape) + tail)


SINGLE = os.environ.get("DST_CONFIG") in ("single", "inifile")      # see configs.py


def close(a, b, scale=1.0, tol=1e-9):
    """Equal shapes, same nan places, values within tol*scale."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shape %r, expected %r" % (a.shape, b.shape)
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return "nan at other places than expected"
    with np.errstate(all="ignore"):
        d = np.abs(np.where(nb, 0, a) - np.where(nb, 0, b))
    if SINGLE:
        tol = tol * 1e5
    if d.size and not d.max() <= tol * max(scale, 1e-30):
        k = np.unravel_index(int(np.argmax(d)), d.shape)
        return "at %r: %r, expected %r" % (tuple(int(x) for x in k), a[k].item(), b[k].item())
    return None
