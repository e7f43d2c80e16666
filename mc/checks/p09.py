"""P09: initial-state energy against the closed-form Gaussian KL divergence."""
import itertools

import numpy as np

from mc import ref
from mc import almost
from mc.core import Family, hamming
from mc.systems import LAYOUTS, lay_out
from src.var_bayes.prior_kl0 import PriorKL0

ID = "P09"
RULE = ("bounded deviations of both Gaussians and the multipliers from generic and identical bases, "
        "for scalars and d=1..4, 8, 40; value, sign, zero set and gradients against closed form")
ASSUMPTIONS = ["positive definite covariances"]


def check(rec, label, prior, m0, S0, mu, tau, lam, psi, single, rtol=1e-9):
    d = 1 if single else len(m0)
    f = lambda x, *s: np.asarray(x, float).reshape(*s)
    M, S, U, T = f(m0, d), f(S0, d, d), f(mu, d), f(tau, d, d)
    want = ref.kl(M, S, U, T)
    iT, iS = np.linalg.inv(T), np.linalg.inv(S)
    z = M - U
    mag = 1.0 + np.abs(iT @ S).sum() + np.abs(iT).sum() * (np.abs(M).max() + np.abs(U).max()) ** 2 + \
        abs(np.linalg.slogdet(S)[1]) + abs(np.linalg.slogdet(T)[1])
    got = prior(m0, S0)
    rec.close(f"{label} KL", np.asarray(got, float).reshape(()), want, rtol, scale=mag)
    rec.check(float(np.asarray(got).reshape(())) >= -1e-9 * mag, f"{label}: negative divergence {got}")
    if np.array_equal(M, U) and np.array_equal(S, T):
        rec.check(abs(float(np.asarray(got).reshape(()))) <= 1e-9 * mag, f"{label}: not zero: {got}")
    elif np.abs(z).max() > 1e-2 or np.abs(S - T).max() > 1e-2 * np.abs(T).max():
        rec.check(float(np.asarray(got).reshape(())) > 0.0, f"{label}: zero for different Gaussians")
    gm, gS = prior.gradients(m0, S0, lam, psi)
    rec.close(f"{label} dKL/dm0", np.asarray(gm, float).reshape(d), f(lam, d) + iT @ z, rtol,
              scale=mag + np.abs(lam).max())
    rec.close(f"{label} dKL/dS0", np.asarray(gS, float).reshape(d, d), f(psi, d, d) + 0.5 * (iT - iS),
              rtol, scale=mag + np.abs(psi).max() + np.abs(iS).max() + np.abs(iT).max())
    rec.array_state(M, S, U, T, f(lam, d), f(psi, d, d))
    rec.step(2)
    rec.trace()


def gen_scalar(tier):
    yield from hamming({"m0": [0.5, 0.0, -2.0, 30.0], "s0": [0.2, 1.0, 1e-4, 50.0],
                        "mu": [1.0, 0.0, -3.0, 0.5], "tau": [0.5, 1.0, 1e-3, 80.0, 0.2],
                        "lam": [0.7, 0.0, -4.0], "psi": [-0.3, 0.0, 2.0]}, 6 if tier == "thorough" else 4)


def run_scalar(p, rec):
    a = [p[k] for k in ("m0", "s0", "mu", "tau", "lam", "psi")]
    check(rec, "float", PriorKL0(a[2], a[3]), *a, True)
    check(rec, "explicit flag", PriorKL0(a[2], a[3], True), *a, True)
    b = [np.float64(v) for v in a]
    check(rec, "numpy", PriorKL0(np.array(a[2]), np.array(a[3]), True), *b, True)
    c = [np.array([v]) for v in a[:2]] + [np.array([a[2]])] + [np.array([[a[3]]])] + [np.array([a[4]])]
    # the same Gaussians in matrix form
    check(rec, "matrix", PriorKL0(np.array([a[2]]), np.array([[a[3]]]), False), np.array([a[0]]),
          np.array([[a[1]]]), np.array([a[2]]), np.array([[a[3]]]), np.array([a[4]]), np.array([[a[5]]]),
          False)


def cov(kind, d):
    k = kind.split(":")
    if k[0] == "spd":
        return ref.spd(d, int(k[1]))
    if k[0] == "eye":
        return float(k[1]) * np.eye(d)
    if k[0] == "diag":
        return np.diag(0.3 + 0.4 * np.arange(d))
    if k[0] == "corr":
        return 0.3 * np.eye(d) + 0.7 * np.ones((d, d))
    if k[0] == "pair":
        M = np.eye(d) * 0.8
        i, j = int(k[1]), int(k[2])
        M[i, j] = M[j, i] = float(k[3])
        return M
    if k[0] == "int":
        return (2 * np.eye(d) + np.ones((d, d))).astype(int)
    raise KeyError(kind)


def vec(kind, d):
    if kind == "0":
        return np.zeros(d)
    if kind[0] == "w":
        return ref.wave(d, seed=int(kind[1:]), amp=1.5)
    e = np.zeros(d)
    e[int(kind[1:])] = 1.2
    return e


def gen_matrix(tier):
    for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        pairs = ["pair:%d:%d:%g" % (i, j, c) for i in range(d) for j in range(i) for c in (0.5, -0.6)]
        covs = ["spd:1", "spd:3", "eye:1", "eye:0.2", "diag", "corr", "int"] + pairs
        vecs = ["w1", "0", "w2"] + ["u%d" % i for i in range(d)]
        mats = ["spd:2", "eye:0", "diag"] + pairs
        for base in (("spd:1", "spd:3", "w1", "w2"), ("eye:1", "eye:1", "0", "0")):
            yield from (dict(c, d=d) for c in hamming(
                {"S": sorted(covs, key=lambda x: x != base[0]), "T": sorted(covs, key=lambda x: x != base[1]),
                 "m": sorted(vecs, key=lambda x: x != base[2]), "u": sorted(vecs, key=lambda x: x != base[3]),
                 "lam": vecs, "psi": mats}, 3 if tier == "thorough" else 2))


def run_matrix(p, rec):
    d = p["d"]
    S, T, m, u = cov(p["S"], d), cov(p["T"], d), vec(p["m"], d), vec(p["u"], d)
    check(rec, "nd", PriorKL0(u, T, False), m, S, u, T, vec(p["lam"], d), cov(p["psi"], d), False)


def gen_same(tier):
    for d in (0, 1, 2, 3, 4, 5, 8, 12) + ((40,) if tier == "thorough" else (40,)):
        for k in range(6):
            yield {"d": d, "k": k}


def run_same(p, rec):
    d, k = p["d"], p["k"]
    if d == 0:
        m, s = ref.wave(1, seed=k)[0], 0.3 + k
        check(rec, "same", PriorKL0(m, s), m, s, m, s, 0.0, 0.0, True)
        check(rec, "different", PriorKL0(m, s), m, 2 * s, m, s, 0.1, 0.2, True)
        return
    m, S = ref.wave(d, seed=k), ref.spd(d, k)
    check(rec, "same", PriorKL0(m, S, False), m.copy(), S.copy(), m, S, np.zeros(d), np.zeros((d, d)),
          False, rtol=1e-8)
    T = ref.spd(d, k + 1)
    check(rec, "different", PriorKL0(m, T, False), m + 0.3, S, m, T, ref.wave(d), ref.spd(d, 1), False,
          rtol=1e-8)


def gen_extreme(tier):
    for d in (1, 2, 8, 40, 100):
        for a in range(-14, 15, 2 if tier == "thorough" else 7):
            for b in range(-14, 15, 2 if tier == "thorough" else 7):
                if abs(a - b) <= 14:
                    yield {"d": d, "tau": a, "s0": b}


def run_extreme(p, rec):
    """Very tight and very wide Gaussians, up to determinants far outside the range of floats."""
    d = p["d"]
    T, S = 10.0 ** p["tau"] * np.diag(1.0 + 0.3 * ref.wave(d, seed=1)), 10.0 ** p["s0"] * ref.spd(d, 2)
    m, u = 10.0 ** (p["tau"] / 2) * ref.wave(d, seed=3), 10.0 ** (p["tau"] / 2) * ref.wave(d, seed=4)
    check(rec, "extreme", PriorKL0(u, T, False), m, S, u, T, ref.wave(d, seed=5), ref.spd(d, 1), False,
          rtol=1e-8)
    if d == 1:
        check(rec, "extreme scalar", PriorKL0(u[0], T[0, 0], True), m[0], S[0, 0], u[0], T[0, 0], 0.1, 0.2, True,
              rtol=1e-8)


def gen_reuse(tier):
    for d in (0, 2, 3):
        for n in range(2, (5 if tier == "thorough" else 4)):
            for seq in itertools.product(range(3), repeat=n):
                yield {"d": d, "seq": list(seq)}


def run_reuse(p, rec):
    d = p["d"]
    if d == 0:
        prior = PriorKL0(0.4, 0.9)
        for k in p["seq"]:
            check(rec, "reuse", prior, (0.1, 0.4, -2.0)[k], (0.3, 0.9, 4.0)[k], 0.4, 0.9, 0.5, 0.2, True)
        return
    u, T = ref.wave(d, seed=1), ref.spd(d, 2)
    prior = PriorKL0(u, T, False)
    for k in p["seq"]:
        check(rec, "reuse", prior, ref.wave(d, seed=k + 1), ref.spd(d, 2 * k), u, T, ref.wave(d, seed=7),
              ref.spd(d, 6), False)


def gen_layout(tier):
    for lay in LAYOUTS:
        for d in (0, 1, 2, 3):
            for which in itertools.product((0, 1), repeat=6):
                if any(which):
                    yield {"layout": lay, "d": d, "which": list(which)}


def run_layout(p, rec):
    """Means, covariances and multipliers in another memory layout or number type."""
    d = p["d"]
    n = max(d, 1)
    spd = lambda k: np.eye(n) * (1 + k) + (1.0 / 3.0 if d > 1 else 0.0)
    v = [ref.wave(n, seed=1), spd(0), ref.wave(n, seed=2), spd(1), ref.wave(n, seed=3), spd(2)]
    if d == 0:
        v = [np.float64(x.ravel()[0]) for x in v]
    m, S, u, T, lam, psi = [lay_out(x, p["layout"]) if w else x for x, w in zip(v, p["which"])]
    check(rec, f"{p}", PriorKL0(u, T, d == 0), m, S, u, T, lam, psi, d == 0,
          rtol=1e-5 if p["layout"] == "float32" else 1e-9)


def gen_almost(tier):
    for d in (0, 1, 2, 3, 4):
        for c in almost.cases(m=["same", "zero", "equal"], S=["same", "diag", "eye", "iso"], T=["diag", "eye", "iso"],
                              u=["zero", "equal"], lam=["zero"], psi=["zero", "diag"]):
            yield dict(c, d=d)


def run_almost(p, rec):
    d, e = max(p["d"], 1), p["e"]
    m, u, lam = ref.wave(d, seed=1), ref.wave(d, seed=2), ref.wave(d, seed=3)
    S, T, psi = ref.spd(d, 1), ref.spd(d, 3), ref.spd(d, 2)
    cov_ = lambda k, s: almost.covariances(k, e, 1, d, s)[0]
    vec_ = lambda k, s: almost.vectors(k, e, 1, d, s)[0]
    if "u" in p:
        u = vec_(p["u"], 1)
    if "T" in p:
        T = cov_(p["T"], 2)
    if "lam" in p:
        lam = vec_("zero", 3)
    if "psi" in p:
        psi = almost.matrices(p["psi"], e, 1, d, 4)[0]
    if "m" in p:
        m = u + vec_("zero", 5) if p["m"] == "same" else vec_(p["m"], 5)
    if "S" in p:
        w = almost.matrices("zero", e, 1, d, 6)[0]
        S = T + 0.5 * (w + w.T) if p["S"] == "same" else cov_(p["S"], 6)
    if p["d"] == 0:
        check(rec, f"{p}", PriorKL0(u[0], T[0, 0], True), m[0], S[0, 0], u[0], T[0, 0], lam[0], psi[0, 0], True)
    else:
        check(rec, f"{p}", PriorKL0(u, T, False), m, S, u, T, lam, psi, False)


FAMILIES = [
    Family("almost", gen_almost, run_almost, "inputs exactly or almost (by 1e-2 .. 1e-7) constant, repeated, diagonal, symmetric, isotropic, equal or zero, each "
           "alone and together"),
    Family("scalar", gen_scalar, run_scalar, "<=4 (all) deviations of 6 scalars, in 4 input forms"),
    Family("matrix", gen_matrix, run_matrix, "d=1..3 (4), <=2 (3) deviations from 2 bases, every "
           "correlated pair"),
    Family("same", gen_same, run_same, "identical and different Gaussians, d=1..40"),
    Family("extreme", gen_extreme, run_extreme, "variances 1e-14..1e14 of both Gaussians, d=1..100"),
    Family("layout", gen_layout, run_layout, "every non-empty subset of the six arguments in 7 memory layouts and types, "
           "d=1 scalar and matrix, 2, 3"),
    Family("reuse", gen_reuse, run_reuse, "all call sequences up to length 3 (4)"),
]
