"""P07: unscented transform against exact Gaussian expectations."""
import numpy as np

from mc import ref
from mc import almost
from mc.core import Family
from src.numerics.utilities import ut_approx

ID = "P07"
RULE = ("every unit coefficient of affine and quadratic vector functions, each unit change of mean "
        "and covariance, dimensions and output dimensions enumerated; exact mean and covariance "
        "in closed form")
ASSUMPTIONS = ["the function under transform is vectorised over rows, as the callers' are"]


def run_fun(rec, label, F, c, Q, m, P, Peff=None, args=False):
    """y_k = F_k x + c_k + x' Q_k x; Peff: covariance that must be used (fallback)."""
    Peff = P if Peff is None else Peff
    calls = []

    def fun(x, *extra):
        calls.append(extra)
        s = extra[0] if extra else 1.0
        o = extra[1] if extra else 0.0
        return s * (x @ F.T + c + np.einsum("ni,kij,nj->nk", x, Q, x)) + o

    ex = (-1.5, np.arange(len(c)) * 0.5) if args else ()
    m_in, P_in = m.copy(), P.copy()
    mean, cov = ut_approx(fun, m, P, *ex)
    s, o = ex if args else (1.0, 0.0)
    want = s * (F @ m + c + np.einsum("i,kij,j->k", m, Q, m) + np.einsum("kij,ij->k", Q, Peff)) + o
    mag = (np.abs(F) @ np.abs(m) + np.abs(c)
           + np.einsum("i,kij,j->k", np.abs(m), np.abs(Q), np.abs(m))
           + np.einsum("kij,ij->k", np.abs(Q), np.abs(Peff))).max() * abs(s) + 1.0
    rec.close(label + " mean", mean, want, 1e-9, scale=mag)
    if not Q.any():
        wc = s * s * F @ Peff @ F.T
        rec.close(label + " cov", cov, wc, 1e-9, scale=(mag ** 2 + np.abs(wc).max()))
    else:
        rec.check(np.shape(cov) == (len(c), len(c)), f"{label}: covariance shape {np.shape(cov)}")
        rec.check(np.allclose(cov, np.asarray(cov).T, atol=1e-8 * (mag ** 2)),
                  f"{label}: covariance is not symmetric")
        rec.check(np.linalg.eigvalsh(0.5 * (cov + np.transpose(cov))).min() >= -1e-8 * mag ** 2,
                  f"{label}: covariance is not positive semi-definite")
    rec.same(label + " mean argument", m, m_in)
    rec.same(label + " covariance argument", P, P_in)
    rec.array_state(m, P, F, Q)
    rec.step()
    rec.trace()


MEANS = ["generic", "zero", "large", "unit"]
COVS = ["spd", "eye", "diag", "tiny", "near-singular", "high-correlation"]


def mean(kind, d):
    return {"generic": ref.wave(d, seed=2, amp=1.5), "zero": np.zeros(d),
            "large": 50.0 * np.ones(d) + ref.wave(d), "unit": np.eye(d)[d - 1]}[kind]


def cov(kind, d):
    if kind == "spd":
        return ref.spd(d, 2)
    if kind == "eye":
        return np.eye(d)
    if kind == "diag":
        return np.diag(0.5 + np.arange(d))
    if kind == "tiny":
        return 1e-4 * ref.spd(d, 3)
    if kind == "near-singular":
        v = ref.wave(d, seed=4)
        return np.outer(v, v) + 1e-3 * np.eye(d)
    return 0.1 * np.eye(d) + 0.9 * np.ones((d, d))


def gen_unit(tier):
    for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        for k in (1, 2, 3):
            for mk in MEANS:
                for ck in COVS:
                    yield {"d": d, "k": k, "mean": mk, "cov": ck}


def run_unit(p, rec):
    d, k = p["d"], p["k"]
    m, P = mean(p["mean"], d), cov(p["cov"], d)
    zF, zc, zQ = np.zeros((k, d)), np.zeros(k), np.zeros((k, d, d))
    for args in (False, True):
        for r in range(k):
            c = zc.copy()
            c[r] = 2.0
            run_fun(rec, f"const {r}", zF, c, zQ, m, P, args=args)
            for i in range(d):
                F = zF.copy()
                F[r, i] = 1.0
                run_fun(rec, f"linear {r},{i}", F, zc, zQ, m, P, args=args)
                for j in range(d):
                    Q = zQ.copy()
                    Q[r, i, j] = 1.0
                    run_fun(rec, f"quadratic {r},{i},{j}", zF, zc, Q, m, P, args=args)
        run_fun(rec, "affine", ref.wave(k, d, seed=1), ref.wave(k, seed=2), zQ, m, P, args=args)
        run_fun(rec, "both", ref.wave(k, d, seed=1), ref.wave(k, seed=2), ref.wave(k, d, d, seed=3), m,
                P, args=args)


def gen_size(tier):
    for d in list(range(1, 13)) + [20, 40, 64, 100] + ([150] if tier == "thorough" else []):
        for k in (1, 2, d, d + 3) if d <= 40 else (1, 3):
            yield {"d": d, "k": k}


def run_size(p, rec):
    d, k = p["d"], p["k"]
    for mk in MEANS:
        for ck in COVS:
            F, c = ref.wave(k, d, seed=1), ref.wave(k, seed=2)
            run_fun(rec, f"affine {mk} {ck}", F, c, np.zeros((k, d, d)), mean(mk, d), cov(ck, d))
            if d <= 12:
                run_fun(rec, f"quadratic {mk} {ck}", F, c, ref.wave(k, d, d, seed=5), mean(mk, d),
                        cov(ck, d))


def gen_fallback(tier):
    for d in (2, 3, 4, 5, 10):
        for i in range(d):
            for j in range(i):
                for c in (1.5, -1.5, 5.0):
                    yield {"d": d, "i": i, "j": j, "c": c}


def run_fallback(p, rec):
    d = p["d"]
    P = np.diag(0.6 + 0.1 * np.arange(d))
    P[p["i"], p["j"]] = P[p["j"], p["i"]] = p["c"]
    D = np.diag(np.diag(P))
    assert np.linalg.eigvalsh(P).min() < -1e-3
    m = ref.wave(d, seed=2)
    for k in (1, 2, d):
        F, c = ref.wave(k, d, seed=1), ref.wave(k, seed=2)
        run_fun(rec, "fallback affine", F, c, np.zeros((k, d, d)), m, P, Peff=D)
        run_fun(rec, "fallback quadratic", F, c, ref.wave(k, d, d, seed=3), m, P, Peff=D)
        # the same result as passing the diagonal itself
        fun = lambda x: np.stack([np.sin(x @ F[r]) for r in range(k)], 1)
        a, b = ut_approx(fun, m, P), ut_approx(fun, m, D)
        rec.close("fallback mean of a non-polynomial", a[0], b[0])
        rec.close("fallback covariance of a non-polynomial", a[1], b[1])


def gen_input(tier):
    for d in (1, 2, 3):
        for form in ("list", "int", "float32", "fortran", "readonly", "strided"):
            yield {"d": d, "form": form}


def run_input(p, rec):
    d = p["d"]
    m, P = np.arange(1.0, d + 1), np.diag(np.arange(2.0, d + 2)) + 1.0
    F, c = ref.wave(2, d, seed=1), ref.wave(2, seed=2)
    conv = {"list": lambda x: x.tolist(), "int": lambda x: x.astype(int),
            "float32": lambda x: x.astype(np.float32), "fortran": np.asfortranarray,
            "readonly": lambda x: lock(x), "strided": lambda x: np.repeat(x, 2, axis=-1)[..., ::2]}
    mean_, cov_ = ut_approx(lambda x: np.asarray(x) @ F.T + c, conv[p["form"]](m), conv[p["form"]](P))
    tol = 1e-4 if p["form"] == "float32" else 1e-9
    rec.close("mean", mean_, F @ m + c, tol, scale=10.0)
    rec.close("cov", cov_, F @ P @ F.T, tol, scale=100.0)
    rec.step()
    rec.trace()


def lock(x):
    x = x.copy()
    x.setflags(write=False)
    return x


def gen_almost(tier):
    for d in (1, 2, 3, 5):
        for e in almost.LEVELS:
            for ck in ("diag", "eye", "iso"):
                for mk in ("generic", "zero", "unit"):
                    yield {"d": d, "e": e, "cov": ck, "mean": mk}


def run_almost(p, rec):
    d, e = p["d"], p["e"]
    P = almost.covariances(p["cov"], e, 1, d, 2)[0]
    m = mean(p["mean"], d) + e * ref.wave(d, seed=9)
    for k in (1, 3):
        for F in (ref.wave(k, d, seed=1), almost.matrices("zero", e, 1, max(k, d), 3)[0][:k, :d]):
            run_fun(rec, f"{p} affine", F, ref.wave(k, seed=2), np.zeros((k, d, d)), m, P, args=True)
            run_fun(rec, f"{p} quadratic", F, ref.wave(k, seed=2), ref.wave(k, d, d, seed=5), m, P)


def gen_scales(tier):
    for d in (1, 2, 3, 5, 12):
        for k in (1, 2, 3, 6):
            for e in (0, 2, 5, 8):
                for ck in COVS:
                    yield {"d": d, "k": k, "e": e, "cov": ck}


def run_scales(p, rec):
    """Outputs (and inputs) of very different sizes: every component accurate on its own scale."""
    d, k, e = p["d"], p["k"], p["e"]
    for mk in ("zero", "generic"):
        for side in ("up", "down", "alternate"):
            n = np.arange(k)
            g = 10.0 ** {"up": e * n / max(1, k - 1), "down": -e * n / max(1, k - 1), "alternate": e * (-1.0) ** n}[side]
            i = np.arange(d)
            h = 10.0 ** {"up": -0.5 * e * i / max(1, d - 1), "down": 0 * i, "alternate": 0.25 * e * (-1.0) ** i}[side]
            m = mean(mk, d) * h
            P = cov(p["cov"], d) * np.outer(h, h)
            F = g[:, None] * ref.wave(k, d, seed=1) / h
            c = g * ref.wave(k, seed=2) if mk == "generic" else np.zeros(k)
            got_m, got_c = ut_approx(lambda x: x @ F.T + c, m, P)
            mag = np.abs(F) @ (np.abs(m) + np.sqrt((d + 3) * np.diag(P))) + np.abs(c)
            label = f"{p} {mk} {side}"
            rec.close(f"{label} mean", got_m / mag, (F @ m + c) / mag, 1e-9, scale=1.0)
            mm = np.outer(mag, mag)
            rec.close(f"{label} cov", got_c / mm, F @ P @ F.T / mm, 1e-9, scale=1.0)
            rec.array_state(m, P, F)
            rec.step()
    rec.trace()


FAMILIES = [
    Family("almost", gen_almost, run_almost, "inputs exactly or almost (by 1e-2 .. 1e-7) constant, repeated, diagonal, symmetric, isotropic, equal or zero, each "
           "alone and together"),
    Family("unit", gen_unit, run_unit, "d=1..3 (5), output 1..3, all unit affine/quadratic functions, "
           "4 means x 6 covariances, with and without extra arguments"),
    Family("size", gen_size, run_size, "d=1..12,20,40,64,100 (150), output 1,2,d,d+3"),
    Family("scales", gen_scales, run_scales, "input and output components up to 16 decades apart, each judged on its "
           "own scale"),
    Family("fallback", gen_fallback, run_fallback, "one indefinite pair at every position, d=2..5,10"),
    Family("input", gen_input, run_input, "input containers and types"),
]
