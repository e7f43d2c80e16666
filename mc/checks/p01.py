"""P01: forward sweep against a tableau-driven integrator."""
import itertools

import numpy as np

from mc import ref
from mc import almost
from mc.core import Family, hamming
from src.var_bayes.fwd_ode import FwdOde

ID = "P01"
RULE = ("a case is one choice of linear/offset parameters, initial moments, noise, step and scheme; "
        "it is run on the real FwdOde and compared at every time point with a Butcher-tableau "
        "integrator")
ASSUMPTIONS = ["bounded alphabets of parameter values; comparison to 1e-8 relative"]


def compare(rec, name, method, A, b, m0, S0, Sig, dt, single, solver=None, rtol=1e-8):
    """Runs the implementation in the given form and the model in matrix form."""
    N = len(b)
    d = 1 if single else b.shape[1]
    solver = solver or FwdOde(dt, method, single)
    with np.errstate(all="ignore"):
        m, S = solver(A, b, m0, S0, Sig)
        rm, rS = ref.fwd(method.lower(), np.asarray(A, float).reshape(N, d, d),
                         np.asarray(b, float).reshape(N, d), np.asarray(m0, float).reshape(d),
                         np.asarray(S0, float).reshape(d, d), np.asarray(Sig, float).reshape(d, d), dt)
    wm, wS = (rm.reshape(N), rS.reshape(N)) if single else (rm, rS)
    ok = rec.close(name + " mean", m, wm, rtol) and rec.close(name + " cov", S, wS, rtol)
    if ok:
        # Row by row, so that growth late in the window does not hide an early error.
        for k in range(N):
            if not (np.all(np.isfinite(wm[:k + 1])) and np.all(np.isfinite(wS[:k + 1]))):
                break
            sm = np.max(np.abs(wm[:k + 1])) + np.max(np.abs(b)) * dt
            sS = np.max(np.abs(wS[:k + 1])) + np.max(np.abs(Sig)) * dt
            if not (rec.close(f"{name} mean[{k}]", m[k], wm[k], rtol, scale=sm)
                    and rec.close(f"{name} cov[{k}]", S[k], wS[k], rtol, scale=sS)):
                break
        rec.check(np.array_equal(np.asarray(m[0], float), np.asarray(m0, float).reshape(np.shape(m[0]))),
                  f"{name}: first mean is not the given initial mean")
        rec.check(np.array_equal(np.asarray(S[0], float), np.asarray(S0, float).reshape(np.shape(S[0]))),
                  f"{name}: first covariance is not the given initial covariance")
    for k in range(N):
        rec.array_state(wm[k], wS[k])
    rec.step(N - 1)
    rec.trace()
    return m, S


# ---- scalar: complete product over a small alphabet

def gen_scalar(tier):
    a_alpha = [0.0, 0.7, -1.3, 2.0]
    b_alpha = [0.0, 1.1, -0.4] if tier == "thorough" else [0.0, 1.1]
    for a in itertools.product(a_alpha, repeat=3):
        for b in itertools.product(b_alpha, repeat=3):
            yield {"a": list(a), "b": list(b)}


def run_scalar(p, rec):
    for method in ref.METHODS:
        for m0, s0, sg, dt in ((0.5, 0.2, 0.8, 0.1), (-1.0, 0.0, 0.0, 0.25), (0.0, 1.5, 2.0, 1.0)):
            compare(rec, f"{method} m0={m0} dt={dt}", method, np.array(p["a"]), np.array(p["b"]),
                    m0, s0, sg, dt, True)


# ---- matrices: deviations from a base, alphabet that spans all matrices

def mat(name, d):
    if name == "0":
        return np.zeros((d, d))
    if name == "I":
        return np.eye(d)
    if name == "asym":
        return ref.wave(d, d, seed=3, amp=1.5)
    if name == "rot":
        return np.triu(np.ones((d, d)), 1) - np.tril(np.ones((d, d)), -1)
    if name == "spd":
        return ref.spd(d, 1)
    if name == "spd2":
        return ref.spd(d, 4) * 0.3
    if name.startswith("e"):
        i, j = divmod(int(name[1:]), d)
        e = np.zeros((d, d))
        e[i, j] = 1.0
        return e
    raise KeyError(name)


def vec(name, d):
    if name == "0":
        return np.zeros(d)
    if name == "w":
        return ref.wave(d, seed=5)
    e = np.zeros(d)
    e[int(name[1:])] = 1.0
    return e


def gen_matrix(tier):
    for d in (1, 2, 3):
        units = ["e%d" % i for i in range(d * d)]
        mats = ["asym", "0", "I", "rot", "spd"] + units
        cov = ["spd", "0", "I", "spd2"]
        vecs = ["w", "0"] + ["u%d" % i for i in range(d)]
        for base in ("asym", "0"):
            factors = {"A0": sorted(mats, key=lambda x: x != base),
                       "A1": mats, "A2": mats, "A3": ["rot", "asym"],
                       "b0": vecs, "b1": vecs, "b2": vecs, "m0": vecs, "S0": cov, "Q": cov,
                       "dt": [0.1, 0.01, 1.0]}
            for c in hamming(factors, 2 if tier == "thorough" or d < 3 else 1):
                yield dict(c, d=d)


def run_matrix(p, rec):
    d = p["d"]
    A = np.array([mat(p["A%d" % i], d) for i in range(4)])
    b = np.array([vec(p["b%d" % min(i, 2)], d) for i in range(4)])
    for method in ref.METHODS:
        m, S = compare(rec, f"{method} d={d}", method, A, b, vec(p["m0"], d), mat(p["S0"], d),
                       mat(p["Q"], d), p["dt"], False)
        if d == 1:
            m1, S1 = compare(rec, f"{method} scalar", method, A.ravel(), b.ravel(),
                             float(vec(p["m0"], d)[0]), float(mat(p["S0"], d)[0, 0]),
                             float(mat(p["Q"], d)[0, 0]), p["dt"], True)
            rec.close("scalar and matrix form: mean", m1, m.ravel())
            rec.close("scalar and matrix form: cov", S1, S.ravel())


# ---- sizes

def gen_size(tier):
    lens = [1, 2, 3, 4, 5, 7, 10, 33, 100] + ([257, 1000] if tier == "thorough" else [])
    dims = [0, 1, 2, 3, 4, 5, 8] + ([12, 40] if tier == "thorough" else [40])
    for N in lens:
        for d in dims:
            if d == 40 and N > 33:
                continue
            for method in ref.METHODS:
                yield {"N": N, "d": d, "method": method}
    for N, d in ((300, 0), (300, 1), (300, 3), (1100, 2), (5000, 0), (5000, 1), (3, 64), (3, 100)):
        for method in ref.METHODS:
            yield {"N": N, "d": d, "method": method}


def sized(N, d, seed=0, scale=0.6):
    if d == 0:
        return (ref.wave(N, seed=1 + seed, amp=1.0, base=0.5), ref.wave(N, seed=2 + seed), 0.3 + seed,
                0.4, 0.9)
    A = ref.wave(N, d, d, seed=3 + seed, amp=scale / np.sqrt(d)) + 0.5 * np.eye(d)
    return A, ref.wave(N, d, seed=4 + seed), ref.wave(d, seed=5 + seed), ref.spd(d, 1), ref.spd(d, 2)


def run_size(p, rec):
    for dt in (0.01, 0.1):
        A, b, m0, S0, Q = sized(p["N"], p["d"])
        compare(rec, f"{p['method']} N={p['N']} d={p['d']}", p["method"], A, b, m0, S0, Q, dt,
                p["d"] == 0)


# ---- magnitudes: stiff, huge, tiny, moments that leave the usual range

def gen_magnitude(tier):
    for f in hamming({"a": [1.0, 1e-12, 30.0, -30.0, 1e4, 1e8], "b": [1.0, 0.0, 1e-9, 1e7],
                      "m0": [0.5, 1e6, 1e-9, -1e6], "s0": [0.2, 0.0, 1e-12, 1e6],
                      "q": [0.8, 0.0, 1e-12, 1e6], "dt": [0.01, 1e-6, 0.5, 10.0]}, 3 if tier == "thorough" else 2):
        yield f


def run_magnitude(p, rec):
    N = 6
    for method in ref.METHODS:
        a = p["a"] * (1.0 + 0.1 * np.arange(N))
        b = p["b"] * np.cos(np.arange(N))
        compare(rec, method, method, a, b, p["m0"], p["s0"], p["q"], p["dt"], True)
        d = 2
        A = np.array([p["a"] * np.array([[1.0, 0.3], [-0.2, 0.7 + 0.1 * k]]) for k in range(N)])
        B = np.stack([b, -0.5 * b], 1)
        compare(rec, method + " matrix", method, A, B, p["m0"] * np.array([1.0, -0.5]),
                p["s0"] * np.array([[1.0, 0.2], [0.2, 0.5]]), p["q"] * np.array([[1.0, 0.1], [0.1, 2.0]]),
                p["dt"], False)


# ---- layouts, types, reuse of one solver

LAYOUTS = ["c", "f", "readonly", "strided", "neg", "float32", "int", "vector-form"]


def gen_layout(tier):
    for method in ref.METHODS:
        for d in (0, 1, 2, 3):
            for lay in LAYOUTS:
                yield {"method": method, "d": d, "layout": lay}


def lay_out(x, layout):
    x = np.asarray(x)
    if layout == "f":
        return np.asfortranarray(x)
    if layout == "readonly":
        x = x.copy()
        x.setflags(write=False)
        return x
    if layout == "strided" and x.ndim:
        big = np.full((2 * x.shape[0],) + x.shape[1:], 99.0)
        big[::2] = x
        return big[::2]
    if layout == "neg" and x.ndim:
        return x[::-1].copy()[::-1]
    if layout == "float32":
        return x.astype(np.float32)
    if layout == "int":
        return np.round(3 * x).astype(int)
    return x


def run_layout(p, rec):
    A, b, m0, S0, Q = sized(5, p["d"])
    if p["layout"] == "vector-form":
        # The variational code hands over slices of one flat vector.
        flat = np.concatenate((A.ravel(), b.ravel()))
        A, b = flat[:A.size].reshape(A.shape), flat[A.size:].reshape(b.shape)
    A, b, m0, S0, Q = [lay_out(v, p["layout"]) for v in (A, b, m0, S0, Q)]
    compare(rec, f"{p['method']} {p['layout']}", p["method"], A, b, m0, S0, Q, 0.1, p["d"] == 0,
            rtol=1e-5 if p["layout"] == "float32" else 1e-8)


def gen_reuse(tier):
    depth = 4 if tier == "thorough" else 3
    for method in ref.METHODS:
        for d in (0, 2):
            for n in range(2, depth + 1):
                for seq in itertools.product((0, 1, 2), repeat=n):
                    yield {"method": method, "d": d, "seq": list(seq)}


def run_reuse(p, rec):
    single = p["d"] == 0
    solver = FwdOde(0.1, p["method"], single)
    for n, k in enumerate(p["seq"]):
        A, b, m0, S0, Q = sized((3, 5, 4)[k], p["d"], seed=k)
        compare(rec, f"call {n}", p["method"], A, b, m0, S0, Q, 0.1, single, solver=solver)


def gen_name(tier):
    for method in ref.METHODS:
        for bits in itertools.product((0, 1), repeat=len(method)):
            yield {"name": "".join(c.upper() if u else c for c, u in zip(method, bits))}


def run_name(p, rec):
    for d in (0, 2):
        A, b, m0, S0, Q = sized(5, d)
        compare(rec, p["name"], p["name"], A, b, m0, S0, Q, 0.2, d == 0)


def gen_almost(tier):
    for d in (0, 1, 2, 3):
        for method in ref.METHODS:
            for c in almost.cases(A=almost.MATRICES, b=almost.VECTORS, S0=almost.COVARIANCES, Q=almost.COVARIANCES):
                yield dict(c, d=d, method=method)


def run_almost(p, rec):
    d = max(p["d"], 1)
    N, e = 7, p["e"]
    A, b = sized(N, d)[:2]
    S0, Q = ref.spd(d, 2), ref.spd(d, 3)
    if "A" in p:
        A = almost.matrices(p["A"], e, N, d)
    if "b" in p:
        b = almost.vectors(p["b"], e, N, d, 2)
    if "S0" in p:
        S0 = almost.covariances(p["S0"], e, 1, d, 3)[0]
    if "Q" in p:
        Q = almost.covariances(p["Q"], e, 1, d, 4)[0]
    m0 = ref.wave(d, seed=5)
    for dt in (0.05, 0.5):
        if p["d"] == 0:
            compare(rec, f"{p}", p["method"], A.reshape(N), b.reshape(N), m0[0], S0[0, 0], Q[0, 0], dt, True)
        else:
            compare(rec, f"{p}", p["method"], A, b, m0, S0, Q, dt, False)


FAMILIES = [
    Family("almost", gen_almost, run_almost, "inputs exactly or almost (by 1e-2 .. 1e-7) constant, repeated, diagonal, symmetric, isotropic, equal or zero, each "
           "alone and together"),
    Family("scalar", gen_scalar, run_scalar, "N=3, all a^3 x b^3 over 4x2 (quick) or 4x3 values, "
           "3 settings, 4 schemes"),
    Family("matrix", gen_matrix, run_matrix, "N=4, d=1..3, all <=2 (d=3 quick: <=1) deviations from "
           "two bases over unit, rotation, asymmetric and SPD matrices"),
    Family("size", gen_size, run_size, "N 1..100 (1000), d 1..40, N up to 5000 (d<=1), d up to 100 (N=3), dt 0.01/0.1"),
    Family("magnitude", gen_magnitude, run_magnitude, "all <=2 (3) deviations in magnitude"),
    Family("layout", gen_layout, run_layout, "memory layouts and dtypes"),
    Family("reuse", gen_reuse, run_reuse, "all call sequences up to length 3 (4) on one solver"),
    Family("name", gen_name, run_name, "all upper/lower case spellings"),
]
