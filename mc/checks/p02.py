"""P02: backward sweep against a tableau-driven integrator run in reverse time."""
import itertools

import numpy as np

from mc import ref
from mc import almost
from mc.core import Family, hamming, subsets
from mc.checks.p01 import LAYOUTS, lay_out, mat, vec
from src.var_bayes.bwd_ode import BwdOde

ID = "P02"
RULE = ("a case is one choice of linear parameters, energy gradients, observation gradients and "
        "their times, step and scheme; the real BwdOde is compared at every time point with a "
        "Butcher-tableau integrator stepping backwards, jumps added on arrival")
ASSUMPTIONS = ["bounded alphabets of values; comparison to 1e-8 relative"]


def compare(rec, name, method, A, dm, dS, om, oS, dt, single, solver=None, rtol=1e-8):
    N = len(dm)
    d = 1 if single else dm.shape[1]
    solver = solver or BwdOde(dt, method, single)
    with np.errstate(all="ignore"):
        lam, psi = solver(A, dm, dS, om, oS)
        f = lambda x, *s: np.asarray(x, float).reshape(*s)
        rl, rp = ref.bwd(method.lower(), f(A, N, d, d), f(dm, N, d), f(dS, N, d, d), f(om, N, d),
                         f(oS, N, d, d), dt)
    wl, wp = (rl.reshape(N), rp.reshape(N)) if single else (rl, rp)
    ok = rec.close(name + " lambda", lam, wl, rtol) and rec.close(name + " psi", psi, wp, rtol)
    if ok:
        for k in range(N - 1, -1, -1):
            if not (np.all(np.isfinite(wl[k:])) and np.all(np.isfinite(wp[k:]))):
                break
            sl = np.max(np.abs(wl[k:])) + np.max(np.abs(dm)) * dt
            sp = np.max(np.abs(wp[k:])) + np.max(np.abs(dS)) * dt
            if not (rec.close(f"{name} lambda[{k}]", lam[k], wl[k], rtol, scale=sl)
                    and rec.close(f"{name} psi[{k}]", psi[k], wp[k], rtol, scale=sp)):
                break
        rec.check(np.array_equal(lam[-1], om[-1]) and np.array_equal(psi[-1], oS[-1]),
                  f"{name}: final multipliers are not the jumps at the final time")
    for k in range(N):
        rec.array_state(wl[k], wp[k])
    rec.step(N - 1)
    rec.trace()
    return lam, psi


# ---- jump placement: every subset of the time points, the last one included

def gen_jumps(tier):
    for N in (2, 3, 5) + ((7,) if tier == "thorough" else ()):
        for s in subsets(range(N)):
            for d in (0, 1, 2, 3):
                yield {"N": N, "obs": s, "d": d}


def shaped(N, d, seed=0):
    s = () if d == 0 else (d,)
    S = s + s
    sym = (lambda x: x) if d == 0 else (lambda x: 0.5 * (x + np.swapaxes(x, 1, 2)))
    A = ref.wave(N, *S, seed=1 + seed, amp=0.6) + (0.5 if d == 0 else 0.5 * np.eye(d))
    return (A, ref.wave(N, *s, seed=2 + seed), sym(ref.wave(N, *S, seed=3 + seed)),
            ref.wave(N, *s, seed=4 + seed, amp=3.0), sym(ref.wave(N, *S, seed=5 + seed, amp=3.0)))


def run_jumps(p, rec):
    N, d = p["N"], p["d"]
    A, dm, dS, om, oS = shaped(N, d)
    off = [k for k in range(N) if k not in p["obs"]]
    om[off], oS[off] = 0.0, 0.0
    for method in ref.METHODS:
        for dt in (0.1, 0.01):
            for part in ("both", "mean", "cov"):
                o1 = om if part != "cov" else 0.0 * om
                o2 = oS if part != "mean" else 0.0 * oS
                compare(rec, f"{method} dt={dt} {part}", method, A, dm, dS, o1, o2, dt, d == 0)


# ---- scalar product

def gen_scalar(tier):
    alpha = [0.0, 0.7, -1.3]
    for a in itertools.product(alpha + [2.0], repeat=3):
        for g in itertools.product([0.0, 1.1] if tier == "quick" else [0.0, 1.1, -0.6], repeat=3):
            yield {"a": list(a), "g": list(g)}


def run_scalar(p, rec):
    a, g = np.array(p["a"]), np.array(p["g"])
    for method in ref.METHODS:
        for jump in ([0, 0, 0], [0, 2.0, 0], [1.5, 0, 0]):
            j = np.array(jump, float)
            compare(rec, f"{method} mean jump={jump}", method, a, g, 0.3 - g, j, 0.5 * j, 0.2, True)


# ---- matrices

def gen_matrix(tier):
    for d in (1, 2, 3):
        units = ["e%d" % i for i in range(d * d)]
        mats = ["asym", "0", "I", "rot", "spd"] + units
        cov = ["spd", "0", "I", "spd2", "asym"]
        vecs = ["w", "0"] + ["u%d" % i for i in range(d)]
        for base in ("asym", "0"):
            factors = {"A3": sorted(mats, key=lambda x: x != base), "A2": mats, "A1": mats,
                       "A0": ["rot", "asym"], "g3": vecs, "g2": vecs, "g1": vecs, "G3": cov, "G2": cov,
                       "G1": cov, "j": ["0"] + vecs[2:], "J": ["0", "I", "spd", "asym"], "dt": [0.1, 0.01, 1.0]}
            for c in hamming(factors, 2 if tier == "thorough" or d < 3 else 1):
                yield dict(c, d=d)


def run_matrix(p, rec):
    d = p["d"]
    A = np.array([mat(p["A%d" % i], d) for i in range(4)])
    dm = np.array([vec(p["g%d" % max(i, 1)], d) for i in range(4)])
    dS = np.array([mat(p["G%d" % max(i, 1)], d) for i in range(4)])
    om, oS = np.zeros((4, d)), np.zeros((4, d, d))
    om[2], oS[1] = vec(p["j"], d), mat(p["J"], d)
    for method in ref.METHODS:
        l, q = compare(rec, f"{method} d={d}", method, A, dm, dS, om, oS, p["dt"], False)
        if d == 1:
            l1, q1 = compare(rec, f"{method} scalar", method, A.ravel(), dm.ravel(), dS.ravel(),
                             om.ravel(), oS.ravel(), p["dt"], True)
            rec.close("scalar and matrix form: lambda", l1, l.ravel())
            rec.close("scalar and matrix form: psi", q1, q.ravel())


# ---- sizes, magnitudes, layouts, reuse, names

def gen_size(tier):
    lens = [1, 2, 3, 4, 5, 7, 10, 33, 100] + ([257, 1000] if tier == "thorough" else [])
    dims = [0, 1, 2, 3, 4, 5, 8] + ([12, 40] if tier == "thorough" else [40])
    for N in lens:
        for d in dims:
            if d == 40 and N > 33:
                continue
            for method in ref.METHODS:
                yield {"N": N, "d": d, "method": method}
    for N, d in ((300, 0), (300, 1), (300, 3), (1100, 2), (5000, 0), (5000, 1), (3, 64), (3, 100)):
        for method in ref.METHODS:
            yield {"N": N, "d": d, "method": method}


def run_size(p, rec):
    N, d = p["N"], p["d"]
    A, dm, dS, om, oS = shaped(N, d, seed=2)
    if d:
        A = 0.5 * np.eye(d) + (A - 0.5 * np.eye(d)) / np.sqrt(d)
    every = max(1, N // 4)
    keep = np.zeros(N, bool)
    keep[every - 1::every] = True
    om[~keep], oS[~keep] = 0.0, 0.0
    for dt in (0.01, 0.1):
        compare(rec, f"{p['method']} N={N} d={d}", p["method"], A, dm, dS, om, oS, dt, d == 0)


def gen_magnitude(tier):
    yield from hamming({"a": [1.0, 1e-12, 30.0, -30.0, 1e4, 1e8], "g": [1.0, 0.0, 1e-9, 1e7],
                        "G": [0.5, 0.0, 1e6, -1e6], "j": [2.0, 0.0, 1e6, -1e-6],
                        "J": [0.2, 0.0, 1e6], "dt": [0.01, 1e-6, 0.5, 10.0]},
                       3 if tier == "thorough" else 2)


def run_magnitude(p, rec):
    N = 6
    t = np.arange(N)
    for method in ref.METHODS:
        a = p["a"] * (1.0 + 0.1 * t)
        g, G = p["g"] * np.cos(t), p["G"] * np.sin(1 + t)
        j, J = np.zeros(N), np.zeros(N)
        j[[2, 4]], J[[1, 4]] = p["j"], p["J"]
        compare(rec, method, method, a, g, G, j, J, p["dt"], True)
        A = np.array([p["a"] * np.array([[1.0, 0.3], [-0.2, 0.7 + 0.1 * k]]) for k in t])
        M = np.array([[1.0, 0.2], [0.2, 0.5]])
        compare(rec, method + " matrix", method, A, np.stack([g, -0.5 * g], 1), G[:, None, None] * M,
                np.stack([j, 2 * j], 1), J[:, None, None] * M, p["dt"], False)


def gen_layout(tier):
    for method in ref.METHODS:
        for d in (0, 1, 2, 3):
            for lay in LAYOUTS:
                yield {"method": method, "d": d, "layout": lay}


def run_layout(p, rec):
    args = [lay_out(v, p["layout"]) for v in shaped(5, p["d"])]
    compare(rec, f"{p['method']} {p['layout']}", p["method"], *args, 0.1, p["d"] == 0,
            rtol=1e-5 if p["layout"] == "float32" else 1e-8)


def gen_reuse(tier):
    for method in ref.METHODS:
        for d in (0, 2):
            for n in range(2, (4 if tier == "thorough" else 3) + 1):
                for seq in itertools.product((0, 1, 2), repeat=n):
                    yield {"method": method, "d": d, "seq": list(seq)}


def run_reuse(p, rec):
    solver = BwdOde(0.1, p["method"], p["d"] == 0)
    for n, k in enumerate(p["seq"]):
        compare(rec, f"call {n}", p["method"], *shaped((3, 5, 4)[k], p["d"], seed=k), 0.1, p["d"] == 0,
                solver=solver)


def gen_name(tier):
    for method in ref.METHODS:
        for bits in itertools.product((0, 1), repeat=len(method)):
            yield {"name": "".join(c.upper() if u else c for c, u in zip(method, bits))}


def run_name(p, rec):
    for d in (0, 2):
        compare(rec, p["name"], p["name"], *shaped(5, d), 0.2, d == 0)


def gen_almost(tier):
    for d in (0, 1, 2, 3):
        for method in ref.METHODS:
            for c in almost.cases(A=almost.MATRICES, dm=almost.VECTORS, dS=almost.COVARIANCES + ["zero", "symmetric"],
                                  om=["zero", "const"], oS=["zero", "const"]):
                yield dict(c, d=d, method=method)


def run_almost(p, rec):
    d = max(p["d"], 1)
    N, e = 7, p["e"]
    A, dm, dS, om, oS = shaped(N, d)
    if "A" in p:
        A = almost.matrices(p["A"], e, N, d)
    if "dm" in p:
        dm = almost.vectors(p["dm"], e, N, d, 2)
    if "dS" in p:
        dS = almost.matrices(p["dS"], e, N, d, 3)
    if "om" in p:
        om = almost.vectors(p["om"], e, N, d, 4)
    if "oS" in p:
        oS = almost.matrices(p["oS"], e, N, d, 5)
    for dt in (0.05, 0.5):
        if p["d"] == 0:
            compare(rec, f"{p}", p["method"], *[v.reshape(N) for v in (A, dm, dS, om, oS)], dt, True)
        else:
            compare(rec, f"{p}", p["method"], A, dm, dS, om, oS, dt, False)


FAMILIES = [
    Family("almost", gen_almost, run_almost, "inputs exactly or almost (by 1e-2 .. 1e-7) constant, repeated, diagonal, symmetric, isotropic, equal or zero, each "
           "alone and together"),
    Family("jumps", gen_jumps, run_jumps, "every subset of N=2,3,5 (7) time points, scalar and d=1..3"),
    Family("scalar", gen_scalar, run_scalar, "N=3, all a^3 x g^3"),
    Family("matrix", gen_matrix, run_matrix, "N=4, d=1..3, <=2 (d=3 quick: <=1) deviations, two bases"),
    Family("size", gen_size, run_size, "N 1..100 (1000), d 1..40, N up to 5000 (d<=1), d up to 100 (N=3)"),
    Family("magnitude", gen_magnitude, run_magnitude, "<=2 (3) deviations in magnitude"),
    Family("layout", gen_layout, run_layout, "memory layouts and dtypes"),
    Family("reuse", gen_reuse, run_reuse, "all call sequences up to length 3 (4) on one solver"),
    Family("name", gen_name, run_name, "all upper/lower case spellings"),
]
