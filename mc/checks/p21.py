"""P21: numerical kernels over their whole domain."""
import itertools
from fractions import Fraction

import numpy as np

from mc import ref
from mc import almost
from mc.core import Family, subsets
from mc.systems import unordered
from src.numerics.utilities import chol_inv, finite_diff, log_det, my_trapz, safe_log

ID = "P21"
RULE = ("my_trapz is linear in its samples: every unit sample (and a generic one) for every listed "
        "index set of every length in the bounds; every symmetric matrix over a small integer alphabet "
        "(classified as definite or not by exact minors) for the matrix helpers; every decade and the "
        "neighbours of both bounds for the logarithm; all monomials for the differentiator")
ASSUMPTIONS = ["index sets are increasing", "matrices are symmetric and not singular"]


# ---- integral

def gen_trapz(tier):
    for N in range(2, 10 if tier == "thorough" else 8):
        for obs in subsets(range(N)):
            for dx in (1.0, 0.01, 3, 0.37):
                yield {"N": N, "obs": obs, "dx": dx}
        yield {"N": N, "obs": None, "dx": 0.25}
    for N in (2, 3, 4, 5):
        for s in unordered(N, 4 if tier == "thorough" else 3):
            yield {"N": N, "obs": s, "dx": 0.37}


def weights(N, dx):
    w = np.full(N, float(dx))
    w[0] = w[-1] = 0.5 * dx
    return w


def run_trapz(p, rec):
    N, dx, obs = p["N"], p["dx"], p["obs"]
    w = weights(N, dx)
    kinds = [None] if obs is None else ([list(obs), np.array(obs, dtype=int)] if obs else
                                        [[], np.zeros(0, int)])
    if obs:
        kinds += [tuple(obs), [np.int64(o) for o in obs]]
    fun = [np.eye(N)[i] for i in range(N)] + [ref.wave(N, seed=1), 1e6 * ref.wave(N, seed=2) + 1e8,
                                              np.arange(N), ref.wave(N, 3, seed=3), ref.wave(N, 1, seed=4),
                                              ref.wave(N, 2, 2, seed=5), ref.wave(N, 3, 2, 2, seed=6),
                                              np.asfortranarray(ref.wave(N, 3, 3, seed=7)),
                                              ref.wave(2 * N, 3, seed=8)[::2]]
    for f in fun:
        want = np.tensordot(w, f, axes=(0, 0))
        scale = np.abs(f).max() * dx * N
        for o in kinds:
            keep, ok = f.copy(), None if o is None else list(o)
            got = my_trapz(f, dx, o)
            rec.close(f"integral of {f.shape} samples over {o}", got, want, 1e-12, scale=scale)
            rec.same("samples", f, keep)
            if o is not None:
                rec.check([int(i) for i in o] == [int(i) for i in ok], "observation indices were modified")
            rec.step()
            rec.state(("trapz", N, str(obs), f.shape))
            if not np.isclose(dx, 1.0):
                continue
            rec.close("default step", my_trapz(f, obs_t=o), want, 1e-12, scale=scale)
    if obs is None:
        rec.close("no indices given", my_trapz(fun[-1], dx), np.tensordot(w, fun[-1], axes=(0, 0)), 1e-12)
    rec.trace()


# ---- matrices

def exact(a):
    """Leading minors and inverse with fractions."""
    n = len(a)
    m = [[Fraction(int(v)) for v in r] for r in a]

    def det(rows):
        k = len(rows)
        if k == 1:
            return rows[0][0]
        return sum((-1) ** j * rows[0][j] * det([r[:j] + r[j + 1:] for r in rows[1:]]) for j in range(k))
    minors = [det([r[:k] for r in m[:k]]) for k in range(1, n + 1)]
    d = minors[-1]
    inv = None
    if d != 0:
        inv = np.array([[float((-1) ** (i + j) * (det([r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j])
                                                  if n > 1 else Fraction(1)) / d)
                         for j in range(n)] for i in range(n)])
    return minors, inv


def gen_spd(tier):
    deep = tier == "thorough"
    for v in range(1, 8):
        yield {"n": 1, "a": [v]}
    for v in (-2, -1):
        yield {"n": 1, "a": [v]}
    for a in itertools.product(range(-1, 5), range(-3, 4), range(-1, 5)):
        yield {"n": 2, "a": list(a)}
    diag = range(-1, 4) if deep else (1, 2, 3)
    for d in itertools.product(diag, repeat=3):
        for o in itertools.product(range(-2, 3) if deep else (-1, 0, 2), repeat=3):
            yield {"n": 3, "a": [d[0], o[0], o[1], d[1], o[2], d[2]]}


def build(p):
    n = p["n"]
    m = np.zeros((n, n), int)
    m[np.triu_indices(n)] = p["a"]
    return np.triu(m) + np.triu(m, 1).T


def run_spd(p, rec):
    a = build(p)
    minors, inv = exact(a)
    if minors[-1] == 0 or any(v == 0 for v in minors):
        rec.outcome("singular, not judged")
        return
    forms = [a, a.astype(float), np.asfortranarray(a.astype(float)), a.astype(float) * 1e-40,
             a * 1e30, a.tolist(), a.astype(np.int32)]
    if all(v > 0 for v in minors):
        rec.outcome("positive definite")
        for k, f in enumerate(forms):
            s = 1e-40 if k == 3 else 1e30 if k == 4 else 1.0
            keep = np.array(f)
            cond = np.abs(inv).max() * np.abs(a).max()
            label = f"{a.tolist()} as form {k}"
            rec.close(f"log_det {label}", log_det(f), float(np.log(float(minors[-1])) + len(a) * np.log(s)),
                      1e-11 * cond, atol=1e-11)
            gi, gc = chol_inv(f)
            rec.close(f"chol_inv {label}", gi, inv / s, 1e-12 * cond, atol=0)
            low = np.linalg.cholesky(a.astype(float) * s)
            rec.close(f"inverse factor {label}", gc, np.linalg.inv(low), 1e-12 * cond, atol=0)
            rec.same("argument", np.array(f), keep)
            rec.step(2)
    else:
        rec.outcome("indefinite")
        for f in forms:
            rec.raises(f"log_det of indefinite {a.tolist()}", lambda: log_det(f), Exception)
            rec.raises(f"chol_inv of indefinite {a.tolist()}", lambda: chol_inv(f), Exception)
            rec.step(2)
    rec.state(("spd", tuple(p["a"])))
    rec.trace()


def gen_large(tier):
    for n in (1, 2, 3, 4, 5, 8, 20, 40, 60, 130, 200):
        for kind in ("dense", "tridiagonal", "graded", "diagonal", "scalar", "vector"):
            yield {"n": n, "kind": kind}
    for r, c in itertools.product(range(1, 5), repeat=2):
        if r != c:
            yield {"shape": [r, c], "kind": "rectangle"}


def run_large(p, rec):
    kind = p["kind"]
    rec.state(str(p))
    rec.trace()
    if kind == "rectangle":
        x = ref.wave(*p["shape"], seed=1) + 2.0
        for f in (x, x.astype(int), x.tolist()):
            rec.raises(f"log_det of {x.shape}", lambda: log_det(f), Exception)
            rec.raises(f"chol_inv of {x.shape}", lambda: chol_inv(f), Exception)
            rec.step(2)
        return
    n = p["n"]
    g = 0.1 + np.abs(ref.wave(n, seed=2))
    if kind == "scalar":
        for v in (g[0], 1e-200, 1e200, 3, np.float64(2.5), np.array(0.25), 10 ** min(n, 15)):
            rec.close(f"log_det({v})", log_det(v), np.log(float(v)), 1e-13)
            i, c = chol_inv(v)
            rec.close(f"chol_inv({v})", i, 1.0 / float(v), 1e-13, atol=0)
            rec.close(f"factor of {v}", c, 1.0 / np.sqrt(float(v)), 1e-13, atol=0)
            rec.step(2)
        return
    if kind == "vector":
        for v in (g, g * 1e-8, np.arange(1, n + 1), list(range(2, n + 2))):
            rec.close(f"log_det of the diagonal {n}", log_det(v), np.sum(np.log(np.asarray(v, float))), 1e-12,
                      atol=1e-11)
            rec.step()
        for k in range(n):
            v = g.copy()
            v[k] = -v[k]
            rec.raises("diagonal with a negative entry", lambda: log_det(v), Exception)
        return
    x = {"dense": ref.spd(n, 4), "tridiagonal": 2.5 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1),
         "graded": np.diag(10.0 ** np.linspace(-6, 6, n)) if n > 1 else np.array([[1e-6]]),
         "diagonal": np.diag(g)}[kind]
    keep = x.copy()
    rec.close(f"log_det {kind} {n}", log_det(x), np.linalg.slogdet(x)[1], 1e-10, atol=1e-9)
    i, c = chol_inv(x)
    rec.close(f"{kind} {n}: inverse times matrix", i @ x, np.eye(n), 1e-8)
    rec.close(f"{kind} {n}: factor", c @ x @ c.T, np.eye(n), 1e-8)
    rec.close(f"{kind} {n}: factor is triangular", np.triu(c, 1), np.zeros((n, n)), 0, atol=1e-12)
    rec.close(f"{kind} {n}: C'C is the inverse", c.T @ c, i, 1e-9)
    rec.same("argument", x, keep)
    rec.step(2)
    for e in SCALES:
        # The determinant itself over- or underflows; its logarithm does not.
        s = 2.0 ** e
        rec.close(f"log_det {kind} {n} times 2^{e}", log_det(x * s), np.linalg.slogdet(x)[1] + n * e * np.log(2.0),
                  1e-10, atol=1e-9)
        if abs(e) <= 400:
            i, c = chol_inv(x * s)
            rec.close(f"chol_inv {kind} {n} times 2^{e}", i @ (x * s), np.eye(n), 1e-8)
            rec.close(f"factor {kind} {n} times 2^{e}", c @ (x * s) @ c.T, np.eye(n), 1e-8)
        rec.step(2)


SCALES = (-600, -200, -66, -40, -20, -8, 8, 20, 40, 66, 200, 600)


# ---- logarithm

def gen_log(tier):
    for k in range(-323, 309):
        yield {"decade": k}
    yield {"special": True}


def run_log(p, rec):
    lo, hi = 1e-300, 1e300
    if "decade" in p:
        b = float(f"1e{p['decade']}")
        vals = [b, b * 2.5, b * 7.0] if p["decade"] < 308 else [b, b * 1.5]
    else:
        vals = [0.0, -0.0, -1.0, -1e300, -1e-300, 1.0, np.nextafter(lo, 0), np.nextafter(lo, 1),
                np.nextafter(hi, 0), np.nextafter(hi, np.inf), np.finfo(float).max, np.finfo(float).tiny,
                np.nextafter(1.0, 0), np.nextafter(1.0, 2), np.e, 0.5]
    vals = np.array(vals)
    want = np.log(np.clip(vals, lo, hi))
    for shape in ((len(vals),), (1, len(vals)), (len(vals), 1)):
        x = vals.reshape(shape).copy()
        rec.close(f"safe_log of shape {shape} at {vals[0]}", safe_log(x), want.reshape(shape), 1e-13, atol=1e-15)
        rec.same("argument", x, vals.reshape(shape))
        rec.step()
    for v, w in zip(vals, want):
        rec.close(f"safe_log({v!r})", safe_log(float(v)), w, 1e-13, atol=1e-15)
        rec.close(f"safe_log(array({v!r}))", safe_log(np.array([float(v)])), [w], 1e-13, atol=1e-15)
        rec.step(2)
        rec.state(("log", float(v)))
    for v in (1, 2, 10, 1000):
        rec.close(f"safe_log({v})", safe_log(v), np.log(v), 1e-13, atol=1e-15)
    rec.trace()


# ---- differentiator

def gen_diff(tier):
    points = [0.0, 1.0, -2.0, 0.3] if tier == "quick" else [0.0, 1.0, -2.0, 0.3, -0.01, 7.0]
    for n in (1, 2, 3):
        for powers in itertools.product(range(4), repeat=n):
            yield {"powers": list(powers), "points": points}
    for n in (1, 2, 4, 10, 40):
        yield {"quad": n}
    for n in (1, 2, 5):
        for e in range(-8, 6):
            yield {"wave": n, "at": 10.0 ** e}


def run_diff(p, rec):
    rec.state(str(p))
    rec.trace()
    if "quad" in p:
        n = p["quad"]
        M, v = 5 * ref.spd(n, 1), ref.wave(n, seed=3)
        x = ref.wave(n, seed=4)
        keep = x.copy()
        for a, b in ((1.0, 0.0), (-2.0, 3.0)):
            got = finite_diff(lambda z, s, t: s * float(z @ M @ z) + t * float(v @ z), x, a, b)
            want = a * (M + M.T) @ x + b * v
            rec.close(f"gradient in {n} dimensions", got, want[0] if n == 1 else want, 1e-7, atol=1e-7)
            rec.same("argument", x, keep)
            rec.step()
        return
    if "wave" in p:
        # Fast oscillation around far and near points: the step must stay small wherever the point is.
        n, c = p["wave"], p["at"]
        for sign in (1.0, -1.0):
            x = sign * c * (1.0 + 0.2 * ref.wave(n, seed=2))
            for k in (1.0, 200.0):
                f = lambda z: float(np.sum(np.sin(k * (np.asarray(z, float) - sign * c))))
                want = k * np.cos(k * (x - sign * c))
                got = finite_diff(f, x)
                # rounding of the point itself, of the function, and the truncation k^3 h^2 / 6
                tol = k * 4e-10 * c + 4e-10 * n + k ** 3 * 1e-12 + 1e-9
                rec.close(f"sum sin {k}(x - c) near {sign * c}", got, want[0] if n == 1 else want, 0, atol=tol)
                rec.step()
        return
    pw = np.array(p["powers"])
    n = len(pw)
    for x in itertools.product(p["points"], repeat=n):
        x = np.array(x)
        keep = x.copy()
        seen = []

        def fun(z, c, *more):
            seen.append(z)
            rec.check(np.shape(z) == (n,), f"function called with shape {np.shape(z)}")
            return c * float(np.prod(np.asarray(z, float) ** pw)) + sum(more)
        with np.errstate(all="ignore"):
            want = np.array([pw[i] * x[i] ** max(pw[i] - 1, 0) * np.prod(np.delete(x ** pw, i)) for i in range(n)])
        f0 = abs(np.prod((np.abs(x) + 1e-5) ** pw))
        tol = 4e-8 * f0 + 1e-9 * np.abs(want).max() + 1e-10 + 1e-12 * np.prod((np.abs(x) + 1) ** pw)
        for args in ((10.0,), (10, 2.0)):
            got = finite_diff(fun, x, *args)
            rec.close(f"gradient of 10 x^{pw.tolist()} at {x.tolist()}", got, 10 * (want[0] if n == 1 else want),
                      0, atol=10 * tol + (1e-8 if len(args) > 1 else 0))
            rec.same("argument", x, keep)
            rec.step()
        if n == 1:
            rec.close("scalar argument", finite_diff(fun, float(x[0]), 10.0), 10 * want[0], 0, atol=10 * tol)
        if np.all(x == np.round(x)):
            xi = x.astype(int)
            got = finite_diff(fun, xi, 10.0)
            rec.close("integer argument", got, 10 * (want[0] if n == 1 else want), 0, atol=10 * tol)
            rec.same("integer argument", xi, x.astype(int))


def gen_almost(tier):
    for n in (1, 2, 3, 5, 8):
        for e in almost.LEVELS:
            for kind in ("diag", "eye", "iso", "const"):
                yield {"n": n, "e": e, "kind": kind}


def run_almost(p, rec):
    """Matrices almost diagonal or isotropic; functions almost constant or zero."""
    n, e = p["n"], p["e"]
    x = almost.covariances(p["kind"], e, 1, n, 2)[0]
    rec.close(f"log_det {p}", log_det(x), np.linalg.slogdet(x)[1], 1e-11, atol=1e-11)
    i, c = chol_inv(x)
    rec.close(f"{p}: inverse", i, np.linalg.inv(x), 1e-11)
    rec.close(f"{p}: factor", c, np.linalg.inv(np.linalg.cholesky(x)), 1e-11)
    f = almost.matrices({"diag": "zero", "eye": "pairs", "iso": "late", "const": "const"}[p["kind"]], e, 9, n, 3)
    for obs in ([], [4], [1, 2, 7]):
        rec.close(f"trapz {p}", my_trapz(f, 0.1, obs), np.trapezoid(f, dx=0.1, axis=0), 1e-11, atol=1e-16)
    z = e * ref.wave(n, seed=4)
    fun = lambda v: float(np.sum(np.sin(v) * (1.0 + np.arange(n))))
    rec.close(f"finite differences {p}", np.ravel(finite_diff(fun, z)), np.cos(z) * (1.0 + np.arange(n)), 1e-7)
    rec.array_state(x, f)
    rec.step(6)
    rec.trace()


FAMILIES = [
    Family("almost", gen_almost, run_almost, "inputs exactly or almost (by 1e-2 .. 1e-7) constant, repeated, diagonal, symmetric, isotropic, equal or zero, each "
           "alone and together"),
    Family("trapz", gen_trapz, run_trapz, "all increasing index sets, lengths 2-7 (9), all lists of 2-3 (4) indices with repetitions or "
           "not in order, lengths 2-5; unit samples and generic "
           "scalar, vector, matrix and tensor samples, 4 steps, list/array/tuple indices"),
    Family("spd", gen_spd, run_spd, "all symmetric matrices over integer alphabets, dimension 1-3, 7 forms"),
    Family("large", gen_large, run_large, "dimension up to 60: dense, banded, graded; scalars, diagonals; "
           "all rectangles up to 4 x 4"),
    Family("log", gen_log, run_log, "every decade of the double range, both bounds and their neighbours"),
    Family("diff", gen_diff, run_diff, "all monomials with powers 0-3 in 1-3 variables on a grid of points; "
           "quadratic forms up to dimension 40; oscillations near points 1e-8..1e5"),
]
