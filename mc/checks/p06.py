"""P06: Lorenz-96 energy terms against a per-sigma-point reference, and ring symmetry."""
import itertools

import numpy as np

from mc import ref
from mc import systems as sy
from mc.core import Family, subsets

ID = "P06"
WHAT = ("value", "gradient")
RULE = ("every ring position, pair of correlated positions and unit entry of A, b, m is visited; the "
        "real energy() is compared with an unscented transform that treats each sigma point on its "
        "own, and with itself on all rotated rings")
ASSUMPTIONS = ["diagonal system noise", "positive definite marginal covariances",
               "sigma points from the Cholesky factor with kappa = 1.05 D"]


def base(D, seed=0):
    A = ref.wave(2, D, D, seed=1 + seed, amp=0.6) + 1.1 * np.eye(D)
    b = ref.wave(2, D, seed=2 + seed, amp=2.0)
    m = ref.wave(2, D, seed=3 + seed, amp=1.5, base=0.5)
    S = np.array([ref.spd(D, 1 + seed) * 0.15, ref.spd(D, 2 + seed) * 0.1])
    return A, b, m, S


def go(rec, label, D, A, b, m, S, theta=8.0, sigma=4.0, dt=0.1, obs=(1,), model=None, full=None):
    return sy.check_energy(rec, label, "L96", sigma if full is None else full, theta, A, b, m, S, dt,
                           list(obs), WHAT, rtol=1e-7, model=model)


def gen_unit(tier):
    for D in (10, 11, 13) if tier == "quick" else (10, 11, 12, 13, 16, 40):
        for kind in ("m", "b", "Srow", "Arow"):
            for i in range(D):
                for simple in (False, True):
                    yield {"D": D, "kind": kind, "i": i, "simple": simple}


def run_unit(p, rec):
    D, i = p["D"], p["i"]
    for j in range(D) if p["kind"] in ("Srow", "Arow") else (0,):
        if p["kind"] == "Srow" and j > i:
            continue
        A, b, m, S = base(D)
        if p["simple"]:
            A, b, m = 0.0 * A, 0.0 * b, 0.0 * m
            S = np.array([np.eye(D), 0.4 * np.eye(D)])
        if p["kind"] == "m":
            m[:, i] += 1.7
        elif p["kind"] == "b":
            b[:, i] -= 1.3
        elif p["kind"] == "Arow":
            A[:, i, j] += 0.9
        elif i == j:
            S[:, i, i] += 0.2
        else:
            S = np.array([0.5 * np.eye(D)] * 2) if p["simple"] else S
            c = 0.3 if p["simple"] else 0.02
            S[:, i, j] += c
            S[:, j, i] += c
        go(rec, f"D={D} {p['kind']}[{i},{j}]", D, A, b, m, S)


def gen_rotate(tier):
    for D in (10, 11) if tier == "quick" else (10, 11, 12, 15, 20, 40):
        for k in range(1, D):
            yield {"D": D, "k": k}


def run_rotate(p, rec):
    D, k = p["D"], p["k"]
    A, b, m, _ = base(D, 4)
    sd = 0.3 + 0.2 * (ref.wave(2, D, seed=9) + 1.0)
    sig = 1.0 + np.arange(D) * 0.3
    S = np.array([np.diag(v) for v in sd])
    r1 = lambda x: np.roll(x, k, axis=1)
    r2 = lambda x: np.roll(x, (k, k), axis=(1, 2))
    e0, (f0, j0), (m0, s0, t0, g0) = sy.build("L96", sig, 8.0, 2, 0.1, dim=D).energy(A, b, m, S, [1])
    mod = sy.build("L96", np.roll(sig, k), 8.0, 2, 0.1, dim=D)
    e1, (f1, j1), (m1, s1, t1, g1) = mod.energy(r2(A), r1(b), r1(m), r2(S), [1])
    big = abs(float(e0)) + 1.0
    rec.close("energy", e1, e0, 1e-8, scale=big)
    rec.close("drift", f1, r1(f0))
    rec.close("Jacobian", j1, r2(j0))
    rec.close("dE/dm", m1, r1(m0), 1e-7, scale=20 * big)
    rec.close("dE/dS", s1, r2(s0), 1e-7, scale=20 * big)
    rec.close("dE/dtheta", t1, np.roll(t0, k), 1e-8, scale=big)
    d = lambda g: np.diag(g) if np.ndim(g) == 2 else g
    rec.close("dE/dSigma", d(g1), np.roll(d(g0), k), 1e-8, scale=big)
    rec.state((D, k))
    rec.step(2)
    rec.trace()


def gen_size(tier):
    dims = range(10, 18) if tier == "quick" else list(range(10, 42)) + [64]
    for D in dims:
        for N in (2, 3, 5):
            yield {"D": D, "N": N}
    yield {"D": 40, "N": 2}
    yield {"D": 64, "N": 2}
    yield {"D": 10, "N": 150}


def run_size(p, rec):
    D, N = p["D"], p["N"]
    A, b, m, S = sy.window_data("L96", N, dim=D)
    go(rec, f"D={D} N={N}", D, A, b, m, S, dt=0.05)


def gen_setting(tier):
    for theta in (8.0, 0.0, -2.5, 4):
        for sigma in (4.0, 0.25, 30.0):
            for dt in (0.1, 0.01, 1.0):
                for D in (10, 12):
                    yield {"theta": theta, "sigma": sigma, "dt": dt, "D": D}
    # One forcing value per site.
    for D in (10, 12) if tier == "quick" else (10, 11, 12, 13, 20, 40):
        for theta in ([8.0 + 0.5 * i for i in range(D)], [8.0] * (D - 1) + [-3.0], [0.0] * (D - 1) + [5.0],
                      [5.0] + [0.0] * (D - 1), [float(v) for v in ref.wave(D, seed=5, amp=6.0)]):
            for sigma in (4.0, 0.25):
                yield {"theta": theta, "sigma": sigma, "dt": 0.1, "D": D}


def run_setting(p, rec):
    A, b, m, S = sy.window_data("L96", 3, seed=2, dim=p["D"])
    for form in ("scalar", "vector", "matrix"):
        v = p["sigma"] * (1.0 + 0.2 * np.arange(p["D"]) * (form != "scalar"))
        arg = p["sigma"] if form == "scalar" else v if form == "vector" else np.diag(v)
        model = sy.build("L96", arg, np.array(p["theta"]), 3, p["dt"], dim=p["D"])
        go(rec, form, p["D"], A, b, m, S, theta=p["theta"], dt=p["dt"], model=model, full=v)


def gen_obs(tier):
    for N in (2, 4, 5):
        for s in subsets(range(N)):
            yield {"N": N, "obs": s}
    for s in itertools.chain(sy.unordered(2), sy.unordered(4)):
        yield {"N": 2 if max(s) < 2 else 4, "obs": s}


def run_obs(p, rec):
    A, b, m, S = sy.window_data("L96", p["N"], dim=10)
    go(rec, f"obs={p['obs']}", 10, A, b, m, S, obs=p["obs"])


def gen_layout(tier):
    for lay in sy.LAYOUTS:
        for which in itertools.product((0, 1), repeat=4):
            if any(which):
                yield {"sys": "L96", "layout": lay, "which": list(which)}


def run_layout(p, rec):
    sy.run_layout(p, rec, WHAT, 11)


def gen_almost(tier):
    yield from sy.gen_almost(tier, ("L96",), (10,) if tier == "quick" else (10, 11, 13, 16))


def run_almost(p, rec):
    sy.run_almost(p, rec, WHAT, 1e-7)


FAMILIES = [
    Family("almost", gen_almost, run_almost, "inputs exactly or almost (by 1e-2 .. 1e-7) constant, repeated, diagonal, symmetric, isotropic, equal or zero, each "
           "alone and together"),
    Family("unit", gen_unit, run_unit, "D=10,11,13 (..40): a unit change at every position of m, b, A "
           "and S, from a generic and a trivial base"),
    Family("rotate", gen_rotate, run_rotate, "all rotations of D=10,11 (..40) rings"),
    Family("size", gen_size, run_size, "D=10..17,40,64 (10..41,64), N=2,3,5; N=150 at D=10"),
    Family("setting", gen_setting, run_setting, "theta (one value, or one per site) x sigma x dt x noise form"),
    Family("layout", gen_layout, run_layout, "every non-empty subset of A, b, m, S in 7 memory layouts and types"),
    Family("obs", gen_obs, run_obs, "all subsets of N=2,4,5 observation times; all lists of 2-3 on 2 or 4 times with repetitions or "
           "not in order"),
]
