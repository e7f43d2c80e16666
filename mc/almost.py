"""Inputs that are special (constant in time, diagonal, symmetric, zero, ...) up to a small deviation.

A short cut for a special case that is taken when the input is only close to that case shows up here;
with deviation 0 the input is exactly special.
"""
import numpy as np

from mc import ref

LEVELS = [0.0, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7]
MATRICES = ["const", "pairs", "diag", "symmetric", "eye", "iso", "zero", "late"]
COVARIANCES = ["const", "pairs", "diag", "eye", "iso", "late"]
VECTORS = ["const", "pairs", "zero", "equal", "late"]


def _later(x, kind):
    """pairs: every second point repeats the one before; late: constant up to the last two points."""
    if kind == "pairs":
        x[1::2] = x[0:2 * (len(x) // 2):2]
    elif kind == "late" and len(x) > 2:
        x[:-2] = x[0]
    return x


def matrices(kind, e, N, d, seed=1):
    w = e * ref.wave(N, d, d, seed=seed + 7)
    g = 0.8 * np.eye(d) + ref.wave(N, d, d, seed=seed, amp=0.6)
    t = 1.0 + 0.3 * ref.wave(N, seed=seed + 1)
    if kind == "const":
        return g[:1] + w
    if kind in ("pairs", "late"):
        return _later(g, kind) + w
    if kind == "diag":
        return g * np.eye(d) + w
    if kind == "symmetric":
        return 0.5 * (g + np.swapaxes(g, 1, 2)) + w
    if kind == "eye":
        return np.eye(d) + w
    if kind == "iso":
        return t[:, None, None] * np.eye(d) + w
    if kind == "zero":
        return w
    raise KeyError(kind)


def covariances(kind, e, N, d, seed=1):
    w = e * ref.wave(N, d, d, seed=seed + 7)
    w = 0.5 * (w + np.swapaxes(w, 1, 2))
    g = np.array([0.4 * ref.spd(d, seed + k) for k in range(N)])
    t = 1.0 + 0.3 * ref.wave(N, seed=seed + 1)
    if kind == "const":
        return g[:1] + w
    if kind in ("pairs", "late"):
        return _later(g, kind) + w
    if kind == "diag":
        return g * np.eye(d) + w
    if kind == "eye":
        return np.eye(d) + w
    if kind == "iso":
        return t[:, None, None] * np.eye(d) + w
    raise KeyError(kind)


def vectors(kind, e, N, d, seed=1):
    w = e * ref.wave(N, d, seed=seed + 7)
    g = ref.wave(N, d, seed=seed)
    if kind == "const":
        return g[:1] + w
    if kind in ("pairs", "late"):
        return _later(g, kind) + w
    if kind == "zero":
        return w
    if kind == "equal":
        return g[:, :1] + w
    raise KeyError(kind)


def cases(**kinds):
    """Each argument special on its own, and all of them together, at every level."""
    for e in LEVELS:
        for name, alts in kinds.items():
            for k in alts:
                yield {"e": e, name: k}
        for i in range(max(len(v) for v in kinds.values())):
            yield dict({"e": e}, **{n: v[i % len(v)] for n, v in kinds.items()})
