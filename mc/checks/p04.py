"""P04: SDE energy, average drift and average Jacobian against Gauss-Hermite expectations."""
import numpy as np

from mc import ref
from mc.core import Family
from mc import systems as sy

ID = "P04"
WHAT = ("value",)
RULE = ("the integrand is a polynomial in the parameters and moments; all cases within the stated "
        "deviation bound of generic and zero bases are run on the real energy() and compared with "
        "tensor Gauss-Hermite quadrature, which is exact for these polynomials")
ASSUMPTIONS = ["diagonal system noise", "numpy's Gauss-Hermite nodes"]


def run_1d(p, rec):
    for label, A, b, m, S in sy.cases_1d(p):
        sy.check_energy(rec, f"{p['sys']} {label}", p["sys"], p["sigma"], p["theta"], A, b, m, S, 0.1,
                        [], WHAT)


def run_l63(p, rec):
    for label, th, nz, A, b, m, S in sy.cases_l63(p):
        sy.check_energy(rec, f"L63 {label}", "L63", nz, th, A, b, m, S, 0.1, [], WHAT)


def run_obs(p, rec):
    name = p["sys"]
    A, b, m, S = sy.window_data(name, p["N"])
    base = None
    for form in (list, np.array, tuple):
        obs = form(p["obs"]) if p["obs"] or form is not np.array else np.array([], int)
        got = sy.check_energy(rec, f"{name} obs={p['obs']}", name, sy.SIGMA[name], sy.THETA[name], A, b,
                              m, S, 0.1, obs, WHAT)
    none = sy.check_energy(rec, f"{name} obs=None", name, sy.SIGMA[name], sy.THETA[name], A, b, m, S, 0.1,
                           None, WHAT)
    for k in (0, 1):
        rec.close(f"{name} average {k} depends on the observation times", got[1][k], none[1][k], 1e-12)
    for k in (0, 1):
        rec.close(f"{name} gradient {k} depends on the observation times", got[2][k], none[2][k], 1e-12)


def run_window(p, rec):
    name = p["sys"]
    for seed in (0, 5):
        A, b, m, S = sy.window_data(name, p["N"], seed)
        N = p["N"]
        obs = list(range(max(1, N // 4), N, max(2, N // 3)))
        sy.check_energy(rec, f"{name} N={N}", name, sy.SIGMA[name], sy.THETA[name], A, b, m, S, p["dt"],
                        obs, WHAT, t0=p["t0"], rtol=1e-8 if p["dt"] > 1e-3 else 1e-7)


def run_noise(p, rec):
    A, b, m, S = sy.window_data("L63", 3)
    arg = sy.noise_arg(p)
    model = sy.build("L63", arg, sy.THETA["L63"], 3, 0.1)
    full = p["n"] * 3 if p["form"] == "scalar" else p["n"]
    sy.check_energy(rec, f"L63 noise {p['form']} {p['n']}", "L63", full, sy.THETA["L63"], A, b, m, S, 0.1,
                    [1], WHAT, model=model)


def run_magnitude(p, rec):
    for label, th, sg, A, b, m, S in sy.cases_magnitude(p):
        sy.check_energy(rec, f"{p['sys']} {label}", p["sys"], sg, th, A, b, m, S, 0.1, [], WHAT)


def run_layout(p, rec):
    sy.run_layout(p, rec, WHAT)


def run_almost(p, rec):
    sy.run_almost(p, rec, WHAT)


FAMILIES = [
    Family("almost", sy.gen_almost, run_almost, "inputs exactly or almost (by 1e-2 .. 1e-7) constant, repeated, diagonal, symmetric, isotropic, equal or zero, each "
           "alone and together"),
    Family("1d", sy.gen_1d, run_1d, "OU/DW: product of 3-5 theta x 3 sigma x 4 (7) a x 3 b x 4 m x 4 s"),
    Family("l63", sy.gen_l63, run_l63, "Lorenz-63: all pairs (thorough: also triples) of deviations "
           "over 27 variables from a generic and a zero base"),
    Family("obs", sy.gen_obs, run_obs, "every subset of N=2,3,4,6 (8) observation times and every list of 2-3 "
           "on 2 or 4 times with repetitions or not in order, three "
           "container types"),
    Family("window", sy.gen_window, run_window, "window lengths 2..101 (2001) and 600/3000, steps, origins"),
    Family("magnitude", sy.gen_magnitude, run_magnitude, "parameters and moments over 6-18 decades: full product for "
           "OU/DW, <=4 (6) deviations for Lorenz-63"),
    Family("layout", sy.gen_layout, run_layout, "every non-empty subset of A, b, m, S in 7 memory layouts and types"),
    Family("noise", sy.gen_noise, run_noise, "scalar, vector and matrix noise arguments"),
]
