"""P16: validation and consistency of settings."""
import itertools

import numpy as np

from mc import ref
from mc import systems as sy
from mc.checks.p14 import DIM, MILD, make
from mc.core import Family
from src.numerics.euler import Euler
from src.numerics.heun import Heun
from src.numerics.runge_kutta2 import RungeKutta2
from src.numerics.runge_kutta4 import RungeKutta4
from src.numerics.utilities import my_trapz
from src.dynamics.lorenz_96 import Lorenz96
from src.var_bayes.bwd_ode import BwdOde
from src.var_bayes.fwd_ode import FwdOde
from src.var_bayes.gaussian_like import GaussianLikelihood
from src.var_bayes.prior_kl0 import PriorKL0
from src.var_bayes.simulation import Simulation

ID = "P16"
RULE = ("explicit-state exploration of all operation sequences (accepted and rejected updates of noise "
        "and drift, path generation) to the stated depth on the real objects next to a two-variable "
        "model; after every operation all readable settings, the inverse and the energy are compared")
ASSUMPTIONS = ["noise matrices are symmetric", "energies are compared for diagonal noise (P04)"]


def full(sig, d):
    s = np.asarray(sig, float)
    return s * np.eye(d) if s.ndim == 0 else np.diag(s) if s.ndim == 1 else s


# ---- invalid matrices

def bad_matrices(d):
    """Symmetric but not positive definite (d,d); then wrong shapes."""
    out = []
    for i in range(d):
        for v in (0.0, -1.0, -1e-6):
            m = np.eye(d) * 2.0
            m[i, i] = v
            out.append((f"entry {i}={v}", m))
    for i, j in itertools.combinations(range(d), 2):
        for v in (1.5, 1.0, -3.0):
            m = np.eye(d)
            m[i, j] = m[j, i] = v
            out.append((f"pair {i},{j}={v}", m))
    out.append(("zeros", np.zeros((d, d))))
    out.append(("ones", np.ones((d, d))))
    out.append(("minus", -np.eye(d)))
    for k in range(12):
        v = ref.wave(d, d - 1, seed=k)
        out.append((f"rank deficient {k}", v @ v.T))
        w = ref.wave(d, seed=k)
        out.append((f"rank one {k}", np.outer(w, w)))
    return out


def bad_shapes(d):
    return [("smaller", np.eye(d - 1)), ("larger", np.eye(d + 1)), ("row", np.ones((1, d))),
            ("tall", np.ones((d, 1))), ("wide", np.ones((d, d + 1))), ("stack", np.ones((1, d, d))),
            ("stack 3", np.tile(np.eye(d), (d, 1, 1)))]


def bad_vectors(d):
    out = [("short", np.ones(d - 1)), ("long", np.ones(d + 1)), ("one", np.ones(1)), ("empty", np.ones(0))]
    for i in range(d):
        for v in (0.0, -2.0):
            x = np.ones(d)
            x[i] = v
            out.append((f"vector {i}={v}", x))
    return out


def borderline(label):
    """Singular up to rounding only: accepting and rejecting are both right, half-accepting is not."""
    return label.startswith("rank")


# ---- constructors

def gen_ctor(tier):
    for name in ("OU", "DW"):
        for s in (0.0, -1.0, -1e-12, 0, -5, -np.inf):
            for th in (1.0, 0.3, -2.0):
                yield {"sys": name, "sigma": s if np.isfinite(s) else "-inf", "theta": th}
    for th in (0.0, -1e-9, -1.0, 0, -3):
        for s in (1.0, 0.2, -1.0):
            yield {"sys": "OU", "sigma": s, "theta": th}
    for name, dims in (("L63", [3]), ("L96", [10, 12, 40])):
        for d in dims:
            for kind in ("scalar", "vector", "matrix", "shape"):
                yield {"sys": name, "dim": d, "kind": kind}
    for d in (9, 8, 3, 1, 0, -1, -40):
        yield {"sys": "L96", "dim": d, "kind": "small"}


def run_ctor(p, rec):
    name = p["sys"]
    if name in ("OU", "DW"):
        s = -np.inf if p["sigma"] == "-inf" else p["sigma"]
        rec.raises(f"{name}(sigma={s}, theta={p['theta']})", lambda: make(name, s, p["theta"], 1), ValueError)
        rec.raises(f"{name}(sigma=array({s}))", lambda: make(name, np.float64(s), p["theta"], 1), ValueError)
        rec.state((name, str(p["sigma"]), p["theta"]))
        rec.step(2)
        rec.trace()
        return
    d = p["dim"]
    th = MILD[name]
    cases = {"scalar": [("scalar", v) for v in (0.0, -1.0, 0, -1e-9)],
             "vector": bad_vectors(max(d, 2)), "matrix": bad_matrices(d) if d > 0 else [],
             "shape": bad_shapes(max(d, 2)), "small": [("ok", 1.0), ("id", np.eye(max(d, 1)))]}[p["kind"]]
    for label, s in cases:
        if borderline(label):
            try:
                m = make(name, s, th, 1, d)
                rec.same(f"{name}({label})", np.asarray(m.sigma), s)
            except (ValueError, RuntimeError):
                pass
            continue
        # Wrong form -> ValueError, not positive definite -> RuntimeError; LinAlgError is a ValueError.
        rec.raises(f"{name}({label}, dim={d})", lambda: make(name, s, th, 1, d), ValueError, RuntimeError)
        rec.state((name, d, label))
        rec.step()
    rec.trace()


# ---- accepted noise forms

def gen_valid(tier):
    for name, dims in (("OU", [1]), ("DW", [1]), ("L63", [3]), ("L96", [10, 11, 40])):
        for d in dims:
            for form in ("scalar", "int", "array0", "list", "vector", "matrix", "corr", "setter"):
                yield {"sys": name, "dim": d, "form": form}


def run_valid(p, rec):
    name, d = p["sys"], p["dim"]
    th = MILD[name]
    vec = 0.5 + 0.3 * np.arange(d)
    for k in range(3):
        arg = {"scalar": 0.7 + k, "int": 2 + k, "array0": np.array(1.5 + k), "list": list(vec + k),
               "vector": vec + k, "matrix": np.diag(vec + k), "corr": ref.spd(d, k),
               "setter": ref.spd(d, k + 1)}[p["form"]]
        if d == 1:
            arg = float(np.ravel(arg)[0]) if p["form"] not in ("int", "array0") else arg
        if p["form"] == "setter":
            m = make(name, 1.0, th, 1, d)
            m.sigma = arg
        else:
            m = make(name, arg, th, 1, d)
        want = full(arg, d)
        label = f"{name} {p['form']} dim {d}"
        got, inv = np.asarray(m.sigma, float), np.asarray(m.inverse_sigma, float)
        if d == 1:
            got, inv = got.reshape(1, 1), inv.reshape(1, 1)
        rec.close(f"{label} sigma", got, want, 1e-12)
        rec.close(f"{label} inverse", inv @ want, np.eye(d), 1e-9)
        rec.close(f"{label} inverse", inv, np.linalg.inv(want), 1e-9)
        rec.close(f"{label} theta", np.asarray(m.theta, float), np.asarray(th, float), 1e-15)
        rec.check(bool(m.single_dim) == (d == 1), f"{label}: single_dim is {m.single_dim}")
        rec.state((name, d, p["form"], k))
        rec.step(3)
    rec.trace()


# ---- histories of updates

def alphabet(name):
    """(label, kind, value, accepted)"""
    d = DIM[name]
    if d == 1:
        ops = [("s1", "sigma", 0.8, True), ("s2", "sigma", 3.0, True), ("s3", "sigma", 0.05, True),
               ("s0", "sigma", 0.0, False), ("s-", "sigma", -1.0, False),
               ("t1", "theta", 1.3, True), ("t2", "theta", 0.4, True)]
        if name == "OU":
            ops += [("t0", "theta", 0.0, False), ("t-", "theta", -2.0, False)]
        else:
            ops += [("t0", "theta", 0.0, True), ("t-", "theta", -0.7, True)]
        return ops + [("path", "path", None, True)]
    bad = dict(bad_matrices(d))
    th = MILD[name]
    return [("s1", "sigma", np.diag(0.5 + 0.25 * np.arange(d)), True), ("s2", "sigma", 2.0 * np.eye(d), True),
            ("sc", "sigma", ref.spd(d, 2), True),
            ("sneg", "sigma", bad[f"entry {d - 1}=-1.0"], False), ("szero", "sigma", bad["entry 0=0.0"], False),
            ("sind", "sigma", bad["pair 0,1=1.5"], False), ("sall", "sigma", bad["minus"], False),
            ("srank", "sigma", bad["rank deficient 1"], None),
            ("sshape", "sigma", np.eye(d + 1), False), ("srow", "sigma", np.ones((1, d)), False),
            ("t0", "theta", np.asarray(th, float) * 0.0, True),
            ("t1", "theta", np.asarray(th, float) * 1.0, True), ("t2", "theta", np.asarray(th, float) + 0.7, True),
            ("path", "path", None, True)]


def gen_history(tier):
    deep = tier == "thorough"
    for name, depth in (("OU", 4), ("DW", 4), ("L63", 3), ("L96", 2)):
        for seq in itertools.product(range(len(alphabet(name))), repeat=depth + (1 if deep and name != "L96" else 0)):
            if not deep and name == "L63" and len(set(seq)) < 2:
                continue
            yield {"sys": name, "seq": list(seq)}


def consistent(rec, label, m, name, sigma, theta, energy=True):
    d = DIM[name]
    S = full(sigma, d)
    got, inv = np.asarray(m.sigma, float), np.asarray(m.inverse_sigma, float)
    if d == 1:
        got, inv = got.reshape(1, 1), inv.reshape(1, 1)
    rec.close(f"{label}: sigma", got, S, 1e-13)
    rec.close(f"{label}: inverse of sigma", inv, np.linalg.inv(S), 1e-9)
    rec.close(f"{label}: theta", np.asarray(m.theta, float), np.asarray(theta, float), 1e-14)
    if energy and np.count_nonzero(S - np.diag(np.diag(S))) == 0:
        A, b, mm, SS = window_data_cached(name)
        sg = sigma if d == 1 else np.diag(S)
        sy.check_energy(rec, label, name, sg, theta, A, b, mm, SS, 0.1, [1], ("value", "gradient"), model=m)


_WD = {}


def window_data_cached(name):
    if name not in _WD:
        _WD[name] = sy.window_data(name, 3, dim=DIM[name])
    return _WD[name]


def run_history(p, rec):
    name = p["sys"]
    ops = alphabet(name)
    d = DIM[name]
    theta = MILD[name]
    sigma = 0.9
    m = make(name, sigma, theta, 1)
    tk = 0.1 * np.arange(3)
    m.time_window = tk
    done = []
    for n, k in enumerate(p["seq"]):
        label, kind, value, ok = ops[k]
        done.append(label)
        text = f"{name} after {' '.join(done)}"
        if kind == "path":
            m.make_trajectory(0.0, 0.2, 0.1)
            rec.check(len(np.asarray(m.sample_path)) == 3, f"{text}: path length")
        else:
            arg = np.array(value) if np.ndim(value) else value
            if ok is None:
                try:
                    setattr(m, kind, arg)
                    return      # accepted a matrix that is singular up to rounding: nothing to compare
                except (ValueError, RuntimeError):
                    pass
            elif ok:
                setattr(m, kind, arg)
                if kind == "sigma":
                    sigma = value
                else:
                    theta = value
            else:
                rec.raises(f"{text}: update", lambda: setattr(m, kind, arg), ValueError, RuntimeError)
        consistent(rec, text, m, name, sigma, theta, energy=n == len(p["seq"]) - 1)
        rec.state((name, np.ravel(np.asarray(sigma, float)), np.ravel(np.asarray(theta, float)), label))
        rec.step()
        if rec.failures:
            return
    rec.trace()


EXTREME = (1e-12, 1e-8, 1e-5, 1e-4, 1e-3, 0.1, 1e3, 1e6, 1e9)


def gen_extreme(tier):
    for name in ("OU", "DW", "L63", "L96"):
        for kind in ("sigma", "theta"):
            for first in (None,) + EXTREME:
                yield {"sys": name, "kind": kind, "first": first}


def run_extreme(p, rec):
    """Very small and very large but valid settings, given at construction or later, in every pair."""
    name, d = p["sys"], DIM[p["sys"]]
    sign = (1.0, -1.0) if p["kind"] == "theta" and name != "OU" else (1.0,)

    def settings(v):
        if v is None:
            return 0.9, MILD[name]
        if p["kind"] == "sigma":
            return v * 0.9, MILD[name]
        if name == "L63":
            return 0.9, [v, 1.3 * v, 0.5 * v]
        return 0.9, v
    for v in EXTREME:
        for sg in sign:
            for ways in ("scalar", "matrix") if p["kind"] == "sigma" and d > 1 else ("scalar",):
                s0, t0 = settings(p["first"])
                m = make(name, s0, t0, 1)
                consistent(rec, f"{name} made with {s0}, {t0}", m, name, s0, t0, energy=False)
                s1, t1 = settings(v)
                if p["kind"] == "sigma":
                    t1 = t0
                    if ways == "matrix" or d > 1:
                        s1 = s1 * (np.eye(d) if ways == "scalar" else ref.spd(d, 2))
                    m.sigma = np.array(s1) if d > 1 else s1
                else:
                    s1 = s0
                    t1 = np.asarray(t1) * sg if name == "L63" else t1 * sg
                    m.theta = t1
                label = f"{name} {p['kind']} from {p['first']} to {v * sg}"
                got = np.asarray(m.theta, float)
                rec.close(f"{label}: theta", got, np.asarray(t1, float), 1e-14, atol=0)
                S = full(s1, d)
                inv = np.asarray(m.inverse_sigma, float).reshape(d, d)
                rec.close(f"{label}: sigma", np.asarray(m.sigma, float).reshape(d, d), S, 1e-14, atol=0)
                rec.close(f"{label}: inverse", inv, np.linalg.inv(S), 1e-9, atol=0)
                rec.step()
                rec.state((name, p["kind"], str(p["first"]), v * sg, ways))
    rec.trace()


def gen_reject(tier):
    for name in ("L63", "L96"):
        n = len(bad_matrices(DIM[name]))
        for i in range(n):
            yield {"sys": name, "bad": i}
        for i in range(len(bad_shapes(DIM[name]))):
            yield {"sys": name, "shape": i}


def run_reject(p, rec):
    """Every invalid matrix, before and after a valid update; the settings survive."""
    name, d = p["sys"], DIM[p["sys"]]
    label, bad = bad_matrices(d)[p["bad"]] if "bad" in p else bad_shapes(d)[p["shape"]]
    m = make(name, 0.9, MILD[name], 1)
    for sigma in (0.9, np.diag(0.5 + np.arange(d)), ref.spd(d, 1)):
        if np.ndim(sigma):
            m.sigma = np.array(sigma)
        if borderline(label):
            try:
                m.sigma = np.array(bad)
            except (ValueError, RuntimeError):
                rec.outcome("borderline rejected")
            else:
                rec.outcome("borderline accepted")
                rec.same(f"{name} sigma={label}", np.asarray(m.sigma), bad)
                continue
        else:
            rec.raises(f"{name} sigma={label}", lambda: setattr(m, "sigma", np.array(bad)), ValueError,
                       RuntimeError)
        consistent(rec, f"{name} after rejected {label}", m, name, sigma, MILD[name], energy=False)
        rec.step()
    rec.state((name, label))
    rec.trace()


# ---- several systems made from the same arrays

SHARED = ["A.s1", "A.s2", "B.s1", "A.t", "B.t", "B.bad", "A.path"]


def gen_shared(tier):
    for name in ("L63", "L96"):
        for form in ("vector", "matrix", "corr", "eye"):
            for seq in itertools.product(range(len(SHARED)), repeat=3 if tier == "thorough" or name == "L63" else 2):
                yield {"sys": name, "form": form, "seq": list(seq)}


def run_shared(p, rec):
    """Two systems from one noise array (and one drift array): updating one leaves the other and the arrays."""
    name, d = p["sys"], DIM[p["sys"]]
    vec = 0.5 + 0.3 * np.arange(d)
    noise = {"vector": vec, "matrix": np.diag(vec), "corr": ref.spd(d, 1), "eye": np.eye(d)}[p["form"]]
    drift = np.array(MILD[name], float)
    new = {"s1": np.diag(1.0 + 0.1 * np.arange(d)), "s2": ref.spd(d, 2), "t": np.array(MILD[name], float) + 0.4,
           "bad": -np.eye(d)}
    given = [noise, drift] + list(new.values())
    kept = [np.array(a) for a in given]
    m = {k: make(name, noise, drift, 1) for k in "AB"}
    want = {k: [full(kept[0], d), kept[1]] for k in "AB"}
    done = []
    for i in p["seq"]:
        who, op = SHARED[i].split(".")
        done.append(SHARED[i])
        text = f"{name} {p['form']} after {' '.join(done)}"
        if op == "path":
            m[who].make_trajectory(0.0, 0.2, 0.1)
        elif op == "bad":
            rec.raises(text, lambda: setattr(m[who], "sigma", new["bad"]), ValueError, RuntimeError)
        elif op == "t":
            m[who].theta = new["t"]
            want[who][1] = kept[4]
        else:
            m[who].sigma = new[op]
            want[who][0] = kept[2 if op == "s1" else 3]
        for k in "AB":
            consistent(rec, f"{text}: system {k}", m[k], name, want[k][0], want[k][1], energy=False)
        for a, b, n in zip(given, kept, ("noise", "drift") + tuple(new)):
            rec.same(f"{text}: the caller's {n}", a, b)
        rec.state((name, p["form"]) + tuple(done))
        rec.step()
        if rec.failures:
            return
    rec.trace()


# ---- solvers, names, reads

def gen_solver(tier):
    for kind in ("FwdOde", "BwdOde"):
        for single in (True, False):
            for method in ("euler", "Heun", "RK2", "rk4"):
                for dt in (0.0, -0.01, -1e-300, 0, -1, -5.0):
                    yield {"kind": kind, "single": single, "method": method, "dt": dt}
            for bad in ("", "rk3", "eulers", "midpoint", "rk", "rk 4", " rk4", "None", "euler\n", "RK45", None, 4):
                yield {"kind": kind, "single": single, "method": bad, "dt": 0.1}
    for cls in ("Euler", "Heun", "RungeKutta2", "RungeKutta4"):
        for single in (True, False):
            for dt in (0.0, -0.1, -3, 0):
                yield {"kind": cls, "single": single, "dt": dt}


def run_solver(p, rec):
    if p["kind"] in ("FwdOde", "BwdOde"):
        cls = FwdOde if p["kind"] == "FwdOde" else BwdOde
        rec.raises(str(p), lambda: cls(p["dt"], p["method"], p["single"]), ValueError)
    else:
        cls = {"Euler": Euler, "Heun": Heun, "RungeKutta2": RungeKutta2, "RungeKutta4": RungeKutta4}[p["kind"]]
        rec.raises(str(p), lambda: cls(p["dt"], p["single"]), ValueError)
    rec.state(tuple(p.values()))
    rec.step()
    rec.trace()


def setup_params(model):
    from mc import simrun as sr
    q = sr.parameters("OU")
    q["Model"] = model
    return q


def gen_names(tier):
    for bad in ("", "XX", "L97", "L9", "OUU", "O U", "double_well", "L63 ", None, 63):
        yield {"model": bad, "ok": False}
    for good in ("OU", "ou", "Ou", "oU", "DW", "dw", "Dw", "L63", "l63", "L96", "l96"):
        yield {"model": good, "ok": True}


def run_names(p, rec):
    from mc import simrun as sr
    if p["ok"]:
        q = sr.parameters(p["model"], tf=0.1, dt=0.01, density=20)
        sim = Simulation("x")
        sim.setup(q, None)
        want = {"OU": True, "DW": True, "L63": False, "L96": False}[p["model"].upper()]
        rec.check(bool(sim.m_data["single_dim"]) is want, f"{p['model']}: wrong kind of system")
    else:
        rec.raises(f"model {p['model']!r}", lambda: Simulation("x").setup(setup_params(p["model"]), None),
                   ValueError)
    rec.state((str(p["model"]),))
    rec.step()
    rec.trace()


READS = ["sample_path", "time_window", "time_step"]


def gen_reads(tier):
    for name in ("OU", "DW", "L63", "L96"):
        for seq in itertools.permutations(READS + ["sigma", "path"], 3):
            yield {"sys": name, "seq": list(seq)}


def run_reads(p, rec):
    m = make(p["sys"], 0.5, MILD[p["sys"]], 1)
    d = DIM[p["sys"]]
    have = False
    for op in p["seq"]:
        if op == "sigma":
            m.sigma = 0.7 if d == 1 else 0.7 * np.eye(d)
        elif op == "path":
            m.make_trajectory(0.0, 0.5, 0.1)
            have = True
        elif have:
            v = getattr(m, op)
            rec.check(np.all(np.isfinite(np.asarray(v, float))), f"{op} after a path exists: {v}")
        else:
            rec.raises(f"{p['sys']}.{op} before a path", lambda: getattr(m, op), NotImplementedError)
        rec.state((p["sys"], op, have))
        rec.step()
    rec.trace()


def gen_pairs(tier):
    """Noise matrices with few correlated components, every position."""
    for name, dims in (("L63", [3]), ("L96", [10, 13, 40] if tier == "thorough" else [10, 12])):
        for d in dims:
            for i in range(d):
                yield {"sys": name, "dim": d, "i": i}


def run_pairs(p, rec):
    name, d, i = p["sys"], p["dim"], p["i"]
    th = MILD[name]
    later = make(name, 0.9, th, 1, d)
    for base in ("eye", "ramp"):
        for j in range(d):
            for c in (0.6, -0.3, 1e-4, 1e-9):
                for k in (None, (i + 1) % d, (j + 2) % d):
                    S = np.eye(d) if base == "eye" else np.diag(1.0 + 0.2 * np.arange(d))
                    if i == j:
                        S[i, i] += abs(c)
                    else:
                        S[i, j] = S[j, i] = c
                    if k is not None and k != j:
                        S[k, j] = S[j, k] = 0.5 * c
                    label = f"{name} dim {d} {base} pair {i},{j} third {k} of {c}"
                    later.sigma = np.array(S)
                    # Given at construction for a few, later for all.
                    for m in (later,) if c != 0.6 else (make(name, np.array(S), th, 1, d), later):
                        inv = np.asarray(m.inverse_sigma, float)
                        rec.close(f"{label}: sigma", np.asarray(m.sigma, float), S, 1e-14, atol=0)
                        rec.close(f"{label}: inverse", inv @ S, np.eye(d), 1e-12)
                        rec.close(f"{label}: inverse", inv, np.linalg.inv(S), 1e-12)
                        rec.step()
                    rec.state((name, d, base, i, j, k, c))
        if rec.failures:
            return
    rec.trace()


# ---- arguments left out

def left_out():
    """label -> (with the optional arguments left out, with their defaults given), each returning arrays."""
    out = {}
    for name in ("OU", "DW", "L63", "L96"):
        for t0, tf in ((0.0, 0.5), (-1.0, 1.0), (2.5, 2.8)):
            def path(*more, n=name, w=(t0, tf)):
                m = make(n, 0.5, MILD[n], 3)
                m.make_trajectory(*w, *more)
                return [np.array(m.sample_path), np.array(m.time_window), np.array(m.time_step)]
            out[f"{name} path {t0}..{tf}: step"] = (path, lambda f=path: f(0.01))
            if name == "OU":
                for dt in (0.1, 0.01, 0.003):
                    out[f"OU path {t0}..{tf} step {dt}: mean"] = (lambda f=path, d=dt: f(d),
                                                                 lambda f=path, d=dt: f(d, 0.0))

            def seen(*more, n=name, w=(t0, tf)):
                m = make(n, 0.5, MILD[n], 3)
                m.make_trajectory(*w, 0.01)
                t, y, r = m.collect_obs(20, 0.3 if DIM[n] == 1 else np.array(0.3), *more)
                return [np.array(t), np.array(y), np.array(r)]
            out[f"{name} observed {t0}..{tf}: mask"] = (seen, lambda f=seen: f(None))

    def ring(*more):
        m = Lorenz96(0.5, 8.0, 3, *more)
        m.make_trajectory(0.0, 0.2, 0.01)
        return [np.array(m.sample_path), np.array(m.sigma)]
    out["ring: dimension"] = (ring, lambda: ring(40))
    for method in ref.METHODS:
        for N in (2, 6, 11):
            def fwd(*more, m=method, n=N):
                return list(FwdOde(0.05, m, *more)(1.0 + ref.wave(n, seed=1, amp=0.4), ref.wave(n, seed=2), 0.3,
                                                   0.5, 0.7))

            def bwd(*more, m=method, n=N):
                return list(BwdOde(0.05, m, *more)(1.0 + ref.wave(n, seed=1, amp=0.4), *(
                    ref.wave(n, seed=k) for k in (6, 7, 8, 9))))
            out[f"forward {method} {N}: dimensions"] = (fwd, lambda f=fwd: f(True))
            out[f"backward {method} {N}: dimensions"] = (bwd, lambda f=bwd: f(True))
    for obs in ([1], [1, 3], [0, 2, 5]):
        def like(*more, o=obs):
            g = GaussianLikelihood(ref.wave(len(o), seed=1), list(o), 0.3, None, *more)
            a = (ref.wave(6, seed=3), 0.2 + np.abs(ref.wave(6, seed=4)))
            return [np.array(g(*a)), *g.gradients(*a)]
        out[f"likelihood {obs}: dimensions"] = (like, lambda f=like: f(True))
    for mu, tau in ((0.0, 0.5), (1.3, 2.0)):
        def kl(*more, mu=mu, tau=tau):
            k = PriorKL0(mu, tau, *more)
            return [np.array(k(0.3, 0.4)), *(np.array(v) for v in k.gradients(0.2, 0.7, 0.3, 0.4))]
        out[f"prior {mu} {tau}: dimensions"] = (kl, lambda f=kl: f(True))
    for shape in ((6,), (7, 2), (5, 2, 2)):
        f = ref.wave(*shape, seed=2)
        out[f"integral {shape}: step"] = (lambda f=f: [my_trapz(f)], lambda f=f: [my_trapz(f, 1.0)])
        out[f"integral {shape}: times"] = (lambda f=f: [my_trapz(f, 0.3)], lambda f=f: [my_trapz(f, 0.3, None)])
    return out


def gen_defaults(tier):
    for label in left_out():
        yield {"what": label}


def run_defaults(p, rec):
    short, spelled = left_out()[p["what"]]
    a, b = short(), spelled()
    for i, (x, y) in enumerate(zip(a, b)):
        rec.close(f"{p['what']} left out: result {i}", x, y, 1e-12)
    rec.state(p["what"])
    rec.step(2)
    rec.trace()


FAMILIES = [
    Family("ctor", gen_ctor, run_ctor, "invalid scalars, vectors (every position), matrices (every entry "
           "and pair, rank deficient), shapes and dimensions"),
    Family("valid", gen_valid, run_valid, "8 noise forms x systems x dimensions x 3 values"),
    Family("history", gen_history, run_history, "all sequences of 10 operations to depth 4 (5) on scalar "
           "systems, 13 operations to depth 3 (4) on Lorenz-63 and 2 on Lorenz-96"),
    Family("extreme", gen_extreme, run_extreme, "every pair of 9 magnitudes 1e-12..1e9 (and both signs of "
           "theta where allowed) before/after an update"),
    Family("shared", gen_shared, run_shared, "two systems from one noise and drift array: all sequences of 3 "
           "(2) of 7 operations on them"),
    Family("pairs", gen_pairs, run_pairs, "matrices with one or two correlated pairs at every position, 4 strengths, "
           "2 diagonals, dimensions 3, 10, 12 (10, 13, 40)"),
    Family("reject", gen_reject, run_reject, "every invalid matrix after each of 3 accepted ones"),
    Family("solver", gen_solver, run_solver, "non-positive steps and unknown names, all schemes"),
    Family("names", gen_names, run_names, "10 unknown names, 11 spellings of known ones"),
    Family("defaults", gen_defaults, run_defaults, "every optional argument of every component left out, against "
           "its default given: 4 systems x 3 windows, 4 schemes x 3 lengths, 3 observation sets"),
    Family("reads", gen_reads, run_reads, "all orders of 3 of 5 operations before/after a path exists"),
]
