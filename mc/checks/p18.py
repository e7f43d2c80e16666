"""P18: complete smoothing runs."""
import itertools

import numpy as np

from mc import linexact, ref
from mc import simrun as sr
from mc.core import Family, hamming, subsets
from mc.pipeline import Problem, lin_drift
from src.numerics.optim_scg import SCG

ID = "P18"
RULE = ("every configuration in the bounds is set up and run through the public workflow, twice, and once "
        "more with its own observations passed in; linear systems are compared with dense exact Gaussian "
        "smoothing at two step sizes")
ASSUMPTIONS = ["Lorenz systems are run with a small iteration limit on short windows",
               "observation times distinct and in order"]


def same_output(rec, label, a, b):
    rec.check(set(a) == set(b), f"{label}: results {sorted(a)} and {sorted(b)}")
    for k in a:
        if k in b:
            rec.same(f"{label}: '{k}'", np.asarray(b[k]), np.asarray(a[k]))


def healthy(rec, label, params, sim, mon):
    out = sim.output
    d = sr.dims(params["Model"])
    tk = sr.window(params)
    N = len(tk)
    one = d == 1
    shapes = {"at": (N,) if one else (N, d, d), "bt": (N,) if one else (N, d), "mt": (N,) if one else (N, d),
              "st": (N,) if one else (N, d, d), "lamt": (N,) if one else (N, d),
              "psit": (N,) if one else (N, d, d), "Efx": (N,) if one else (N, d),
              "Edf": (N,) if one else (N, d, d), "fx": ()}
    for k in sr.KEYS:
        if rec.check(k in out, f"{label}: no result '{k}'"):
            v = np.asarray(out[k], float)
            rec.check(np.all(np.isfinite(v)), f"{label}: '{k}' is not finite")
            if k in shapes:
                rec.check(v.shape == shapes[k], f"{label}: '{k}' has shape {v.shape}, expected {shapes[k]}")
    if rec.failures:
        return
    first = mon.values[mon.points[0].tobytes()]
    fx = float(np.asarray(out["fx"]))
    rec.check(fx <= first, f"{label}: free energy {fx} is larger than the initial {first}")
    rec.same(f"{label}: first mean", np.asarray(out["mt"])[0], np.asarray(out["m0"]))
    rec.same(f"{label}: first covariance", np.asarray(out["st"])[0], np.asarray(out["s0"]))
    if int(np.max(sim.m_data["obs_t"])) < len(out["lamt"]) - 1:
        rec.check(np.all(np.asarray(out["lamt"])[-1] == 0), f"{label}: final lambda is not zero")
        rec.check(np.all(np.asarray(out["psit"])[-1] == 0), f"{label}: final Psi is not zero")
    s = np.asarray(out["st"], float)
    if not one:
        rec.check(np.abs(s - np.swapaxes(s, 1, 2)).max() <= 1e-7 * np.abs(s).max(),
                  f"{label}: covariance is not symmetric")
    rec.outcome("improved" if fx < first else "unchanged")


def conf(p):
    big = p["sys"].upper() in ("L63", "L96")
    tf = p.get("tf", 0.08 if p["sys"] == "L63" else 0.05 if big else 1.0)
    dt = p.get("dt", 0.01 if big else 0.05)
    it = {"L63": 12, "L96": 3}.get(p["sys"].upper())
    q = sr.parameters(p["sys"], p["method"], p.get("t0", 0.0), p.get("t0", 0.0) + tf, dt,
                      p.get("density", 50 if big else 5), p.get("seed", 3), p.get("sys_noise"),
                      p.get("obs_noise"), p.get("theta"), p.get("mu0", 1.0), p.get("tau0", 0.5))
    return q, it


def gen_grid(tier):
    seeds = {"OU": 8, "DW": 8, "L63": 3, "L96": 1}
    for name in ("OU", "DW", "L63", "L96"):
        for method in ("Euler", "Heun", "RK2", "RK4"):
            for seed in range(seeds[name] * (4 if tier == "thorough" else 1)):
                yield {"sys": name, "method": method, "seed": seed}
    for name, method in (("ou", "euler"), ("dw", "HEUN"), ("l63", "rk2"), ("L96", "Rk4")):
        yield {"sys": name, "method": method, "seed": 31415926535}


def gen_noise(tier):
    v3, v40 = [2.0, 5.0, 8.0], [1.0 + 0.1 * i for i in range(40)]
    for method in ("Euler", "Heun", "RK2", "RK4"):
        for s in (10, 10.0, v3, np.diag(v3).tolist()):
            for o in (2, 2.0, [1.0, 2.0, 0.5], np.diag([1.0, 2.0, 0.5]).tolist()):
                yield {"sys": "L63", "method": method, "sys_noise": s, "obs_noise": o}
        for s in (0.1, 1, 3.0):
            for o in (0.01, 1, 4.0):
                for name in ("OU", "DW"):
                    yield {"sys": name, "method": method, "sys_noise": s, "obs_noise": o}
    for s, o in ((4, v40), (v40, 1.0), (np.diag(v40).tolist(), 1)):
        yield {"sys": "L96", "method": "Euler", "sys_noise": s, "obs_noise": o}


def gen_prior(tier):
    """Initial prior of every form, together with per-component noises and drifts."""
    for method in ("Euler", "Heun", "RK2", "RK4"):
        for mu0 in (0, 2.5, -1.0, [1.0, -2.0, 20.0]):
            for tau0 in (0.5, 2, [0.2, 1.0, 4.0], [[0.3, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 0.7]]):
                yield {"sys": "L63", "method": method, "mu0": mu0, "tau0": tau0}
        for theta in ([10.0, 28.0, 2.667], [9.0, 20.0, 1.5], [10, 28, 3]):
            yield {"sys": "L63", "method": method, "theta": theta, "sys_noise": [2.0, 5.0, 8.0],
                   "obs_noise": [1.0, 2.0, 0.5]}
        for name in ("OU", "DW"):
            for theta in (0.5, 1, 1.7):
                for mu0, tau0 in ((0, 1), (-2.0, 0.05), (3, 7.5)):
                    yield {"sys": name, "method": method, "theta": theta, "mu0": mu0, "tau0": tau0}
    v40 = [1.0 + 0.1 * i for i in range(40)]
    for mu0, tau0 in ((v40, 0.5), (1, v40), (-v40[3], 2)):
        yield {"sys": "L96", "method": "Euler", "mu0": mu0, "tau0": tau0, "theta": 6.5}


def gen_window(tier):
    deep = tier == "thorough"
    for name in ("OU", "DW"):
        for method in ("Euler", "RK4") if not deep else ("Euler", "Heun", "RK2", "RK4"):
            for t0 in (0.0, -1.0, 4.0):
                for tf in (0.5, 1.0, 2.3):
                    for dt in (0.05, 0.02):
                        for density in (3, 10):
                            yield {"sys": name, "method": method, "t0": t0, "tf": tf, "dt": dt,
                                   "density": density}
    for method in ("Euler", "Heun", "RK2", "RK4"):
        for theta in (0.3, 2.0):
            for mu0 in (0.0, -1.0):
                for tau0 in (0.1, 3.0):
                    yield {"sys": "OU", "method": method, "theta": theta, "mu0": mu0, "tau0": tau0}
    for tf, dt, density in ((0.04, 0.01, 30), (0.1, 0.02, 20), (0.12, 0.01, 99)):
        for t0 in (0.0, 2.0):
            yield {"sys": "L63", "method": "RK2", "t0": t0, "tf": tf, "dt": dt, "density": density}


def run_conf(p, rec):
    q, it = conf(p)
    label = f"{p}"
    sim, mon = sr.run(q, None, it)
    healthy(rec, label, q, sim, mon)
    if rec.failures:
        return
    # Every setting of the parameter dictionary is in force.
    sr.check_output(rec, label, conf(p)[0], sim.m_data["obs_t"], sim.m_data["obs_y"], sim.output)
    np.random.seed(1)       # nobody should care
    again, _ = sr.run(conf(p)[0], None, it)
    same_output(rec, label + ": second run with the same seed", sim.output, again.output)
    obs_t, obs_y = sim.m_data["obs_t"], np.array(sim.m_data["obs_y"], copy=True)
    # Given observations take nothing away from the seed.
    set_up = []
    for n in range(2):
        one = sr.Simulation(f"given {n}")
        one.setup(conf(p)[0], (list(obs_t), obs_y.copy()))
        set_up.append(one)
        rec.same(f"{label}: sample path with given observations", np.asarray(one.m_data["model"].sample_path),
                 np.asarray(sim.m_data["model"].sample_path))
    rec.same(f"{label}: initial mean with given observations, set up twice", np.asarray(set_up[1].m_data["m0"]),
             np.asarray(set_up[0].m_data["m0"]))
    given = sr.Simulation("given")
    given.setup(conf(p)[0], (list(obs_t), obs_y.copy()))
    given.m_data["m0"] = np.array(sim.m_data["m0"], copy=True)
    m2 = sr.Monitor()
    with sr.limited(it), m2.patch():
        given.run()
    same_output(rec, label + ": own observations passed in", sim.output, given.output)
    rec.array_state(np.ravel(sim.output["bt"]))
    rec.step(len(mon.points) + len(m2.points))
    rec.trace(3)


def gen_seeds(tier):
    for name in ("OU", "DW", "L63"):
        for a, b in itertools.combinations((0, 1, 2, 7, 12345), 2):
            yield {"sys": name, "a": a, "b": b}


def run_seeds(p, rec):
    outs = []
    for s in (p["a"], p["b"]):
        q, it = conf({"sys": p["sys"], "method": "Euler", "seed": s})
        sim, _ = sr.run(q, None, 2)
        outs.append(sim.output)
    rec.check(not np.array_equal(outs[0]["bt"], outs[1]["bt"]), f"seeds {p['a']} and {p['b']} agree")
    rec.state(tuple(p.values()))
    rec.step()
    rec.trace()


# ---- exact answers

def gen_exact(tier):
    methods = ("Euler", "Heun", "RK2", "RK4")
    for name in ("OU", "LIN1", "LIN1M", "LIN2", "LIN3"):
        sets = [[0.25, 0.5, 1.0], [0.75], [0.5, 0.55, 0.6, 1.2], [0.1, 1.4], [0.5, 1.5]]
        for k, obs in enumerate(sets):
            for method in methods:
                for wave in (0, 1) if name in ("OU", "LIN1") or tier == "thorough" else (0,):
                    if name in ("LIN2", "LIN3") and tier == "quick" and k and method in ("Heun", "RK2"):
                        continue
                    yield {"sys": name, "method": method, "obs": obs, "wave": wave, "theta": 1.3}
    for theta in (0.4, 3.0):
        for sigma in (0.2, 2.0):
            for method in methods:
                yield {"sys": "OU", "method": method, "obs": [0.3, 0.8, 1.1], "wave": 0, "theta": theta,
                       "sigma": sigma}


def solve(p, n):
    dt = 1.0 / n
    obs = [int(round(n * u)) for u in p["obs"]]
    fun = (lambda t, i: np.sin(3 * t + i)) if p["wave"] == 0 else (lambda t, i: 0.6 - 0.9 * t + 0.2 * i)
    kw = {"theta": p["theta"]} if p["sys"] == "OU" else {}
    if "sigma" in p:
        kw["sigma"] = p["sigma"]
    q = Problem(p["sys"], p["method"], int(1.5 * n) + 1, dt, obs, fun=fun, kind=p["wave"], **kw)
    x0 = q.vgp.initialization()
    opt = SCG(q.vgp.free_energy, q.vgp.gradient, {"max_it": 500, "x_tol": 1e-6, "f_tol": 1e-8})
    x, fx = opt(x0)
    fx = q.vgp.free_energy(x)
    if p["sys"] == "OU":
        F, c = np.array([[-p["theta"]]]), np.zeros(1)
    else:
        F, c = lin_drift(q.d)
    E, m, S = linexact.answer(F, c, q.Sigma, dt, q.N, obs, q.y, q.H, q.R, q.m0, q.S0, q.mu, q.tau)
    got_m = np.reshape(q.vgp.arg_out["mt"], m.shape)
    got_S = np.reshape(q.vgp.arg_out["st"], S.shape)
    f0 = q.vgp.free_energy(x0)
    return fx - E, np.abs(got_m - m).max(), np.abs(got_S - S).max(), f0 - E, np.abs(m).max(), np.abs(S).max()


def run_exact(p, rec):
    n = 20 if p["sys"] in ("LIN2", "LIN3") else 40
    e1 = solve(p, n)
    e2 = solve(p, 2 * n)
    label = f"{p['sys']} {p['method']} obs {p['obs']}"
    # Calibration over all cases on the unchanged tree: see DESIGN.md, P18.
    ratio, limit = e2[0] / e1[0], (2 * e2[0] - e1[0]) / e1[0]
    mr, sr_ = e2[1] / e2[4], e2[2] / e2[5]
    rec.check(all(np.isfinite(e1 + e2)), f"{label}: not finite: {e1} {e2}")
    rec.check(e1[0] > 0 and e2[0] > 0, f"{label}: minimum {e1[0]:.4g}, {e2[0]:.4g} below the exact answer")
    rec.check(0.3 <= ratio <= 0.72, f"{label}: error of the minimum does not vanish with the step: "
              f"{e1[0]:.5g} -> {e2[0]:.5g}")
    rec.check(abs(limit) <= 0.35, f"{label}: extrapolated minimum is off by {limit:.3f} of the error")
    rec.check(mr <= 0.2, f"{label}: means differ from the Kalman smoother by {mr:.3f} of their size")
    rec.check(sr_ <= 0.25, f"{label}: covariances differ from the Kalman smoother by {sr_:.3f} of their size")
    rec.outcome("m error <= %.2f" % (0.05 * np.ceil(mr / 0.05)))
    rec.outcome("S error <= %.2f" % (0.05 * np.ceil(sr_ / 0.05)))
    rec.outcome("F ratio %.1f" % ratio)
    rec.array_state(np.array(e1 + e2))
    rec.step(2)
    rec.trace(2)


# ---- one object set up anew

ANEW = {"base": {}, "sys": {"sys_noise": 0.35}, "obs": {"obs_noise": 0.4}, "theta": {"theta": 0.6}, "seed": {"seed": 9},
        "window": {"t0": 1.0, "tf": 0.6}, "step": {"dt": 0.04}, "density": {"density": 3},
        "prior": {"mu0": -0.5, "tau0": 1.2}, "method": {"method": "RK4"}}


def gen_anew(tier):
    names = list(ANEW)
    for name in ("OU", "DW", "L63"):
        for a, b in itertools.permutations(names, 2):
            if name == "L63" and tier == "quick" and "base" not in (a, b):
                continue
            yield {"seq": [[name, a], [name, b]]}
    for a, b in itertools.permutations(("OU", "DW", "L63", "L96"), 2):
        yield {"seq": [[a, "base"], [b, "base"]]}
        yield {"seq": [[a, "base"], [b, "base"], [a, "base"]]}
    if tier == "thorough":
        for seq in itertools.permutations(names, 3):
            yield {"seq": [["OU", v] for v in seq]}


def anew(name, v):
    kw = dict(ANEW[v])
    if name == "L63":
        for k in kw:
            kw[k] = {"sys_noise": [3.0, 5.0, 2.0], "obs_noise": 1.0, "theta": [9.0, 20.0, 2.0], "tf": 0.06, "dt": 0.008,
                     "density": 30}.get(k, kw[k])
    return conf({"sys": name, "method": "Euler", **kw})[0]


_ANEW = {}


def run_anew(p, rec):
    """Set up again (and run): the settings in force are those of the last set-up."""
    sim = sr.Simulation("anew")
    for n, (name, v) in enumerate(p["seq"]):
        q = anew(name, v)
        sim.setup(q, None)
        with sr.limited(2):
            sim.run()
        label = f"{p['seq'][:n + 1]}"
        sr.check_output(rec, label, anew(name, v), sim.m_data["obs_t"], sim.m_data["obs_y"], sim.output)
        if (name, v) not in _ANEW:
            one, _ = sr.run(anew(name, v), None, 2)
            _ANEW[name, v] = {k: np.array(u, copy=True) for k, u in one.output.items()}
        same_output(rec, f"{label}: against a new object", _ANEW[name, v], sim.output)
        rec.step()
        rec.state((str(p["seq"][:n + 1]),))
    rec.trace()


# ---- limits of the observation settings

def gen_limits(tier):
    for name in ("OU", "DW", "L63", "L96"):
        for less in (0, 1):
            yield {"sys": name, "density": "one observation per step" if not less else "one fewer"}
    for mask in ([True, True, True], [True, False, True]):
        yield {"sys": "L63", "operator": mask}


def run_limits(p, rec):
    big = p["sys"] in ("L63", "L96")
    dt = 0.01 if big else 0.05
    q, it = conf({"sys": p["sys"], "method": "Euler", "dt": dt, "tf": 0.05 if big else 1.0,
                  "density": int(round(1 / dt)) - (p.get("density") == "one fewer")
                  if "density" in p else 50})
    q["Observations"]["operator"] = p.get("operator")
    try:
        sim, mon = sr.run(q, None, it)
    except Exception as e:
        rec.fail(f"{p}: accepted settings do not run: {type(e).__name__}: {e}")
        return
    healthy(rec, f"{p}", q, sim, mon)
    rec.state(str(p))
    rec.step(len(mon.points))
    rec.trace()


FAMILIES = [
    Family("grid", gen_grid, run_conf, "4 systems x 4 schemes x 8/8/3/1 seeds (x4), spellings of names"),
    Family("noise", gen_noise, run_conf, "scalar, integer, vector and matrix noise of system and observations"),
    Family("prior", gen_prior, run_conf, "scalar, vector and diagonal-matrix priors; drift parameters"),
    Family("window", gen_window, run_conf, "windows, steps, densities, drift parameters and priors"),
    Family("anew", gen_anew, run_anew, "one simulation object set up and run two or three times: all ordered pairs of 10 "
           "settings (thorough: triples) and of systems"),
    Family("seeds", gen_seeds, run_seeds, "all pairs of 5 seeds on 3 systems"),
    Family("exact", gen_exact, run_exact, "Ornstein-Uhlenbeck and user-defined linear systems of dimension "
           "1-3, 4 schemes, 5 observation sets, two steps"),
    Family("limits", gen_limits, run_limits, "observation density at the sampling rate and one below; full "
           "and partial observation masks"),
]
