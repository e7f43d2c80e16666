"""P14: sample paths."""
import itertools

import numpy as np

from mc import ref
from mc.core import Family, hamming
from src.dynamics.double_well import DoubleWell
from src.dynamics.lorenz_63 import Lorenz63
from src.dynamics.lorenz_96 import Lorenz96
from src.dynamics.ornstein_uhlenbeck import OrnsteinUhlenbeck

ID = "P14"
RULE = ("every combination of system, window, step, noise form, parameter and seed in the bounds is "
        "generated on the real code; the step residuals x[t+1]-x[t]-f(x[t])dt computed with reference "
        "drifts must be a fixed linear map M of the residuals obtained with unit noise and the same "
        "seed, with M M' = Sigma, and the unit residuals of every enumerated seed must look standard "
        "normal")
ASSUMPTIONS = ["that the unit residuals are Gaussian is judged by moments, autocorrelation and quantiles "
               "(7 standard errors) of the paths of the enumerated seeds"]

ONE = {"OU": OrnsteinUhlenbeck, "DW": DoubleWell}
DIM = {"OU": 1, "DW": 1, "L63": 3, "L96": 10}
MILD = {"OU": 0.8, "DW": 1.0, "L63": [1.5, 1.2, 0.8], "L96": 2.0}


def make(name, sigma, theta, seed, dim=10):
    if name in ONE:
        return ONE[name](sigma, theta, seed)
    if name == "L63":
        return Lorenz63(sigma, theta, seed)
    return Lorenz96(sigma, theta, seed, dim)


def drift(name, theta, x, mu=0.0):
    if name == "OU":
        return theta * (mu - x)
    if name == "DW":
        return 4.0 * x * (theta - x * x)
    if name == "L63":
        return ref.L63(theta).f(x)
    return ref.l96(x, theta)


def residuals(name, theta, x, dt, mu=0.0):
    return np.diff(x, axis=0) - dt * drift(name, theta, x[:-1], mu)


def path(name, sigma, theta, seed, t0, tf, dt, **kw):
    m = make(name, sigma, theta, seed, kw.pop("dim", 10))
    m.make_trajectory(t0, tf, dt, **kw)
    return m, np.array(m.sample_path, float)


# ---- windows

def gen_window(tier):
    for name in ("OU", "DW", "L63", "L96"):
        for t0 in (0.0, 1.0, -2.5, 0.7, 10.0):
            for dur in (0.02, 0.3, 1.0, 2.0, 0.95, 1.234, 3.07) + ((10.0, 37.7) if tier != "quick" else ()):
                for dt in (0.01, 0.05, 0.1, 0.25, 0.3, 0.007, 0.0125, 1 / 300, 1 / 1700):
                    if dur < 1.6 * dt or (name == "L96" and t0 not in (0.0, -2.5)):
                        continue
                    yield {"sys": name, "t0": t0, "dur": dur, "dt": dt}


def run_window(p, rec):
    name, t0, dt = p["sys"], p["t0"], p["dt"]
    tf = t0 + p["dur"]
    m, x = path(name, 0.05, MILD[name], 4, t0, tf, dt)
    tk = np.asarray(m.time_window, float)
    eps = 1e-9 * (1.0 + abs(t0) + tf)
    rec.check(tk.ndim == 1 and tk.size >= 2, f"window of {tk.size} points")
    rec.check(abs(tk[0] - t0) <= eps, f"window starts at {tk[0]}, not at {t0}")
    rec.check(np.abs(np.diff(tk) - dt).max() <= eps, "points are not equally spaced by dt")
    rec.check(abs(tk[-1] - tf) <= 0.5 * dt + eps,
              f"window ends at {tk[-1]}, {abs(tk[-1] - tf) / dt:.3f} steps from {tf}")
    rec.check(abs(float(m.time_step) - dt) <= eps, f"time_step is {m.time_step}")
    d = DIM[name]
    rec.check(x.shape == ((tk.size,) if d == 1 else (tk.size, d)), f"path shape {x.shape}, {tk.size} times")
    rec.check(np.all(np.isfinite(x)), "path is not finite")
    z = np.abs(residuals(name, MILD[name], x, dt)) / np.sqrt(0.05 * dt)
    rec.check(z.max() < 7.5, f"a step differs from drift*dt by {z.max():.1f} standard deviations")
    rec.check(z.min() < 6.0 and np.median(z) < 3.5 and np.any(z > 1e-3), "noise of the wrong size")
    rec.state((name, t0, p["dur"], dt))
    rec.step(x.shape[0] - 1)
    rec.trace()


# ---- dynamics and noise

def unit_noise(name, dim):
    return 1.0 if name in ONE else np.eye(dim)


def normality(rec, label, z):
    """z (T, d) should be independent standard normal numbers."""
    z = z.reshape(len(z), -1)
    T, d = z.shape
    n = T * d
    se = 1.0 / np.sqrt(n)
    rec.check(abs(z.mean()) < 7 * se, f"{label}: mean {z.mean():.3f}")
    v = z.ravel() @ z.ravel() / n
    rec.check(abs(v - 1.0) < 7 * np.sqrt(2.0) * se, f"{label}: variance {v:.3f}, expected 1")
    k = (z ** 4).mean()
    rec.check(abs(k - 3.0) < 7 * np.sqrt(96.0) * se, f"{label}: fourth moment {k:.2f}, expected 3")
    sk = (z ** 3).mean()
    rec.check(abs(sk) < 7 * np.sqrt(15.0) * se, f"{label}: third moment {sk:.2f}")
    for lag in (1, 2, 3):
        r = (z[lag:] * z[:-lag]).mean()
        rec.check(abs(r) < 7.5 * se, f"{label}: steps {lag} apart are correlated ({r:.3f})")
    c = z.T @ z / T - np.eye(d)
    rec.check(np.abs(c).max() < 8.5 * np.sqrt(2.0) / np.sqrt(T), f"{label}: components are correlated")
    u = np.sort(z.ravel())
    from math import erf
    cdf = np.array([0.5 * (1 + erf(v / 2 ** 0.5)) for v in u])
    ks = np.abs(cdf - (np.arange(n) + 0.5) / n).max()
    rec.check(ks < 3.0 * se, f"{label}: distribution differs from the normal one by {ks:.3f}")
    rec.check(len(np.unique(u)) == n, f"{label}: repeated increments")


def gen_unit(tier):
    seeds = list(range(0, 8)) + ([31415926535, 2 ** 63] if tier == "quick" else list(range(8, 40)))
    for name in ("OU", "DW", "L63", "L96"):
        for seed in seeds:
            for dt in (0.01, 0.002):
                yield {"sys": name, "seed": seed, "dt": dt}


def run_unit(p, rec):
    name, dt = p["sys"], p["dt"]
    T = 1500 if name in ONE else 500
    sig = 0.6
    m, x = path(name, sig, MILD[name], p["seed"], 0.0, T * dt, dt)
    z = residuals(name, MILD[name], x, dt) / np.sqrt(sig * dt)
    normality(rec, f"{name} seed {p['seed']} dt {dt}", z)
    rec.array_state(z[:50])
    rec.step(len(z))
    rec.trace()


def gen_long(tier):
    for name, sizes in (("OU", (3000, 70000)), ("DW", (3000, 70000)), ("L63", (1100, 9000)), ("L96", (1100, 5000))):
        for T in sizes + ((200000,) if tier == "thorough" and name in ONE else ()):
            for seed in (0, 5):
                yield {"sys": name, "T": T, "seed": seed}


def run_long(p, rec):
    """Paths of many thousand points: fresh, independent noise in every step, all along."""
    name, T, dt, sig = p["sys"], p["T"], 0.002, 0.6
    m, x = path(name, sig, MILD[name], p["seed"], 0.0, T * dt, dt)
    label = f"{name} {T} steps seed {p['seed']}"
    if not rec.check(len(x) == T + 1, f"{label}: {len(x)} points"):
        return
    z = residuals(name, MILD[name], x, dt) / np.sqrt(sig * dt)
    u = np.sort(z.ravel())
    twice = int(np.sum(np.diff(u) < 1e-12))
    rec.check(twice <= 3 + T // 20000, f"{label}: {twice} increments occur twice")
    block = max(250, T // 8)
    for k in range(0, T - block + 1, block):
        normality(rec, f"{label} from step {k}", z[k:k + block])
        rec.step(block)
    rec.array_state(z[:50], z[-50:])
    rec.trace()


def noises(name, tier):
    if name in ONE:
        for s in (1e-3, 0.04, 0.5, 2.0, 10.0):
            yield s
        return
    d = DIM[name]
    yield from (0.3, 2.0, 10.0)
    yield [0.5 + 0.4 * i for i in range(d)]
    yield [float(v) for v in (ref.wave(d, seed=6) + 1.3)]
    for k in range(4 if tier == "quick" else 12):
        yield (ref.spd(d, k, 0.5)).tolist()
    yield (np.diag(np.arange(1.0, d + 1))).tolist()
    # one correlated pair, every pair
    for i, j in itertools.combinations(range(d if d < 5 else 4), 2):
        for c in (0.9, -0.5):
            s = np.diag(1.0 + 0.3 * np.arange(d))
            s[i, j] = s[j, i] = c
            yield s.tolist()


def thetas(name):
    return {"OU": [0.8, 0.1, 5.0], "DW": [1.0, 0.3, 2.0],
            "L63": [[1.5, 1.2, 0.8], [10.0, 28.0, 2.667], [0.0, 3.0, 0.5]],
            "L96": [2.0, 8.0, 0.0]}[name]


def gen_noise(tier):
    for name in ("OU", "DW", "L63", "L96"):
        for sig in noises(name, tier):
            for theta in thetas(name):
                for seed in (0, 5):
                    yield {"sys": name, "sigma": sig, "theta": theta, "seed": seed}


def run_noise(p, rec):
    name, theta, seed = p["sys"], p["theta"], p["seed"]
    d = DIM[name]
    dt, T = 0.005, 60
    arg = p["sigma"] if np.ndim(p["sigma"]) == 0 else np.array(p["sigma"])
    m, x = path(name, arg, theta, seed, 1.0, 1.0 + T * dt, dt)
    m1, x1 = path(name, unit_noise(name, d), theta, seed, 1.0, 1.0 + T * dt, dt)
    e = residuals(name, theta, x, dt).reshape(T, d)
    e1 = residuals(name, theta, x1, dt).reshape(T, d)
    Sig = np.asarray(p["sigma"], float)
    Sig = Sig * np.eye(d) if Sig.ndim == 0 else np.diag(Sig) if Sig.ndim == 1 else Sig
    M, *_ = np.linalg.lstsq(e1, e, rcond=None)
    M = M.T
    big = np.abs(x).max() + np.abs(drift(name, theta, x)).max() * dt + 1.0
    label = f"{name} noise {np.round(Sig, 3).tolist() if d <= 3 else np.ndim(p['sigma'])} seed {seed}"
    rec.close(f"{label}: increments are not a linear image of the unit noise;", e1 @ M.T, e, 1e-8,
              scale=np.abs(e).max(), atol=1e-10 * big)
    rec.close(f"{label}: covariance of the increments / dt", M @ M.T, Sig, 1e-6, scale=np.abs(Sig).max())
    z = e1 / np.sqrt(dt)
    v = (z ** 2).mean()
    rec.check(abs(v - 1) < 8 * np.sqrt(2.0 / z.size), f"{label}: unit noise has variance {v:.2f}")
    if name in ("L63", "L96"):
        rec.close(f"{label}: start of the path", x[0], x1[0], 1e-12)
    rec.array_state(e)
    rec.step(T)
    rec.trace()


# ---- starting points

def gen_start(tier):
    for name in ("OU", "DW", "L63", "L96"):
        for theta in thetas(name):
            for t0 in (0.0, 3.0, -1.25):
                for mu in (0.0, 1.5, -0.2, 40.0) if name == "OU" else (None,):
                    yield {"sys": name, "theta": theta, "t0": t0, "mu": mu}


def run_start(p, rec):
    name, theta = p["sys"], p["theta"]
    kw = {} if not p["mu"] else {"mu": p["mu"]}
    dt = 0.01
    sides = set()
    first = None
    for seed in range(24 if name in ONE else 4):
        for sig in (0.01, 0.5):
            m, x = path(name, sig, theta, seed, p["t0"], p["t0"] + 0.5, dt, **kw)
            if name == "OU":
                rec.check(x[0] == (p["mu"] or 0.0), f"starts at {x[0]}, the mean is {p['mu']}")
                z = residuals(name, theta, x, dt, p["mu"] or 0.0) / np.sqrt(sig * dt)
                rec.check(np.abs(z).max() < 7.5, f"mean {p['mu']}: step off by {np.abs(z).max():.1f} sd")
            elif name == "DW":
                s = 1 if x[0] > 0 else -1
                off = abs(x[0] - s * theta)
                rec.check(off <= 7.5 * np.sqrt(sig * dt), f"seed {seed} starts at {x[0]}, wells +-{theta}")
                if sig == 0.01:
                    sides.add(s)
            else:
                if first is None:
                    first = x[0].copy()
                rec.close(f"{name} start with noise {sig}, seed {seed}", x[0], first, 1e-12)
            rec.step()
    if name == "DW":
        rec.check(sides == {1, -1}, "all 24 seeds start in the same well")
    rec.state((name, str(theta), p["t0"], p["mu"]))
    rec.trace()


def gen_scale(tier):
    """Small and large steps, noises, parameters: the same law at every scale."""
    for name, ths in (("OU", (0.01, 0.8, 30.0)), ("DW", (0.04, 1.0, 4.0, 9.5, 16.0, 50.0)),
                      ("L63", ([10.0, 28.0, 2.667], [1.5, 1.2, 0.8])), ("L96", (0.0, 2.0, 8.0, -3.0))):
        for theta in ths:
            for dt in (0.01, 2e-3, 5e-4, 1e-4, 1e-6):
                for sig in (1e-6, 1e-3, 0.3, 30.0):
                    # Explicit steps of a stiff well leave the stable region: nothing to compare there.
                    if name == "DW" and dt * (8 * theta * theta + 60 * np.sqrt(sig)) > 0.5:
                        continue
                    if dt >= 2e-3 and sig >= 30.0 and name == "L63":
                        continue
                    yield {"sys": name, "theta": theta, "dt": dt, "sigma": sig}


def run_scale(p, rec):
    name, theta, dt, sig = p["sys"], p["theta"], p["dt"], p["sigma"]
    T = 40
    for t0 in (0.0, -7.0):
        for seed in (0, 3):
            m, x = path(name, sig, theta, seed, t0, t0 + T * dt, dt)
            m1, x1 = path(name, unit_noise(name, DIM[name]), theta, seed, t0, t0 + T * dt, dt)
            label = f"{name} theta {theta} dt {dt} noise {sig} t0 {t0}"
            if not rec.check(len(x) == T + 1, f"{label}: {len(x)} points"):
                continue
            e = residuals(name, theta, x, dt)
            e1 = residuals(name, theta, x1, dt)
            big = np.abs(x).max() + dt * np.abs(drift(name, theta, x)).max()
            big1 = np.abs(x1).max() + dt * np.abs(drift(name, theta, x1)).max()
            tol = 1e-14 * (big + np.sqrt(sig) * big1) * 100
            if np.isfinite(big1) and tol < 0.5 * np.sqrt(sig * dt):
                rec.close(f"{label}: steps against those with unit noise", e, np.sqrt(sig) * e1, 1e-8,
                          scale=np.abs(e).max(), atol=tol)
                rec.outcome("compared")
            z = np.abs(e) / np.sqrt(sig * dt)
            rec.check(z.max() < 7.5 + tol / np.sqrt(sig * dt), f"{label}: a step is off by {z.max():.1f} sd")
            rec.step(T)
            if name in ("L63", "L96"):
                key = (name, str(theta))
                if key not in _START:
                    _START[key] = path(name, 0.3, theta, 1, 0.0, 0.2, 0.01)[1][0]
                rec.close(f"{label}: start", x[0], _START[key], 1e-12)
    rec.state((name, str(theta), dt, sig))
    rec.trace()


_START = {}


# ---- seeds and streams

SEEDS = [0, 1, 2, 3, 7, 42, 1000, 2 ** 32, 2 ** 40 + 1, 31415926535]


def gen_seeds(tier):
    for name in ("OU", "DW", "L63", "L96"):
        yield {"sys": name}


def run_seeds(p, rec):
    name = p["sys"]
    seen = {}
    for seed in SEEDS:
        xs = []
        for rep in range(3):
            np.random.seed(rep)
            m, x = path(name, 0.5, MILD[name], seed, 0.0, 0.2, 0.01)
            xs.append(x)
        rec.check(np.array_equal(xs[0], xs[1]) and np.array_equal(xs[0], xs[2]),
                  f"{name}: seed {seed} does not reproduce its path")
        for s, y in seen.items():
            rec.check(not np.any(np.isclose(np.diff(y, axis=0), np.diff(xs[0], axis=0), rtol=1e-12, atol=0)),
                      f"{name}: seeds {s} and {seed} share increments")
            rec.step()
        seen[seed] = xs[0]
        rec.state((name, seed))
    rec.trace()


def gen_unseeded(tier):
    for name in ("OU", "DW", "L63", "L96"):
        for form in ("none", "omitted", "default"):
            yield {"sys": name, "form": form}


def run_unseeded(p, rec):
    """Without a seed every process has a stream of its own; the default step is 0.01."""
    name = p["sys"]
    ctor = {"OU": OrnsteinUhlenbeck, "DW": DoubleWell, "L63": Lorenz63, "L96": Lorenz96}[name]
    seen = []
    for k in range(6):
        kw = {"dim_d": 10} if name == "L96" else {}
        if p["form"] == "none":
            kw["r_seed"] = None
        np.random.seed(5)
        m = ctor(0.5, MILD[name], **kw)
        for j in range(2):
            if p["form"] == "default":
                m.make_trajectory(1.0, 1.5)
                dt = np.diff(np.asarray(m.time_window, float))
                rec.check(np.abs(dt - 0.01).max() < 1e-9, f"{name}: default step is {dt[0]}, expected 0.01")
            else:
                m.make_trajectory(1.0, 1.5, 0.01)
            x = np.array(m.sample_path, float)
            for y in seen:
                rec.check(not np.any(np.isclose(np.diff(y, axis=0), np.diff(x, axis=0), rtol=1e-12, atol=0)),
                          f"{name}: two unseeded paths share increments")
            z = residuals(name, MILD[name], x, 0.01) / np.sqrt(0.5 * 0.01)
            rec.check(np.abs(z).max() < 7.5 and np.abs(z).max() > 0.5, f"{name}: noise of the wrong size")
            seen.append(x)
            rec.step()
    rec.state((name, p["form"]))
    rec.trace()


OPS = ["new_a", "new_b", "path_a", "path_b", "global"]


def gen_streams(tier):
    """Interleavings of constructions, paths and global-generator use."""
    n = 5 if tier == "thorough" else 4
    for name in ("OU", "DW", "L63"):
        for seq in itertools.product(OPS, repeat=n):
            if "path_a" in seq and (name == "OU" or len(set(seq)) >= 3):
                yield {"sys": name, "seq": list(seq)}


_REF = {}


def expected_paths(name, seed, count):
    """Paths of an undisturbed process, in order."""
    k = (name, seed)
    if len(_REF.get(k, [])) < count:
        m = make(name, 0.5, MILD[name], seed)
        out = []
        for _ in range(6):
            m.make_trajectory(0.0, 0.1, 0.01)
            out.append(np.array(m.sample_path))
        _REF[k] = out
        for a, b in itertools.combinations(out, 2):
            if np.any(np.isclose(np.diff(a, axis=0), np.diff(b, axis=0), rtol=1e-12, atol=0)):
                raise AssertionError("two paths of one process share increments")
    return _REF[k][count - 1]


def run_streams(p, rec):
    name = p["sys"]
    seeds = {"a": 0, "b": 9}
    obj = {k: make(name, 0.5, MILD[name], s) for k, s in seeds.items()}
    count = {"a": 0, "b": 0}
    for op in p["seq"]:
        if op == "global":
            np.random.seed(3)
            np.random.standard_normal(5)
        elif op.startswith("new"):
            k = op[-1]
            obj[k] = make(name, 0.5, MILD[name], seeds[k])
            count[k] = 0
        else:
            k = op[-1]
            before = np.random.get_state()[1:3]
            obj[k].make_trajectory(0.0, 0.1, 0.01)
            after = np.random.get_state()[1:3]
            count[k] += 1
            rec.check(np.array_equal(before[0], after[0]) and before[1] == after[1],
                      "the shared numpy generator was used")
            rec.check(np.array_equal(obj[k].sample_path, expected_paths(name, seeds[k], count[k])),
                      f"{name}: path {count[k]} of process {k} depends on {p['seq']}")
        rec.state((name, tuple(sorted(count.items())), op))
        rec.step()
    rec.trace()


# ---- settings in force when the path is made

def gen_update(tier):
    for name in ("OU", "DW", "L63", "L96"):
        for seed in (0, 3):
            for order in itertools.permutations(["sigma", "theta", "path"]):
                yield {"sys": name, "seed": seed, "order": list(order)}


def run_update(p, rec):
    name, d = p["sys"], DIM[p["sys"]]
    theta0, theta1 = thetas(name)[0], thetas(name)[1]
    sig0 = 0.5
    sig1 = 1.7 if name in ONE else ref.spd(d, 3, 0.5)
    m = make(name, sig0, theta0, p["seed"])
    t, s = theta0, sig0
    rec.trace()
    for op in p["order"] + ["path"]:
        if op == "sigma":
            m.sigma, s = sig1, sig1
        elif op == "theta":
            t = theta1
            m.theta = np.array(t) if name == "L63" else t
        else:
            state = m.rng.bit_generator.state
            m.make_trajectory(0.0, 0.3, 0.005)
            q = make(name, unit_noise(name, d), t, p["seed"])
            q.rng.bit_generator.state = state
            q.make_trajectory(0.0, 0.3, 0.005)
            e = residuals(name, t, np.array(m.sample_path), 0.005).reshape(-1, d)
            e1 = residuals(name, t, np.array(q.sample_path), 0.005).reshape(-1, d)
            M, *_ = np.linalg.lstsq(e1, e, rcond=None)
            label = f"{name} path after {p['order']}"
            rec.close(f"{label}: increments", e1 @ M, e, 1e-8, scale=np.abs(e).max(), atol=1e-9)
            S = np.asarray(s) * np.eye(d) if np.ndim(s) == 0 else s
            rec.close(f"{label}: covariance", M.T @ M, S, 1e-6, scale=np.abs(S).max())
            rec.step(len(e))
        rec.state((name, p["seed"], tuple(p["order"]), op))


CONT = {"first": (0.0, 0.2, 0.01), "next": (0.2, 0.4, 0.01), "same": (0.0, 0.2, 0.01), "finer": (0.0, 0.1, 0.005),
        "later": (1.0, 1.3, 0.01), "back": (-0.2, 0.0, 0.01), "third": (0.4, 0.6, 0.01)}


def gen_windows(tier):
    for name in ("OU", "DW", "L63", "L96"):
        n = 3 if name != "L96" else 2
        for seq in itertools.product(CONT, repeat=n + (tier == "thorough")):
            yield {"sys": name, "seq": list(seq)}


_STARTS = {}


def run_windows(p, rec):
    """Several windows on one process: each path starts anew and has its own noise; earlier ones stay as they were."""
    name, seed, d = p["sys"], 4, DIM[p["sys"]]
    m = make(name, 0.5, MILD[name], seed)
    held = []
    if name in ("L63", "L96") and name not in _STARTS:
        _STARTS[name] = path(name, 0.5, MILD[name], 0, 0.0, 0.1, 0.01)[1][0]
    for k, w in enumerate(p["seq"]):
        t0, tf, dt = CONT[w]
        label = f"{name} path {k} of {p['seq']}"
        m.make_trajectory(t0, tf, dt)
        tk, x = m.time_window, m.sample_path
        rec.close(f"{label}: window", np.asarray(tk, float), t0 + dt * np.arange(len(tk)), 1e-9, scale=1.0)
        rec.check(len(tk) == int(round((tf - t0) / dt)) + 1, f"{label}: {len(tk)} points")
        rec.close(f"{label}: time_step", float(m.time_step), dt, 1e-9)
        y = np.array(x, float)
        if rec.check(y.shape == ((len(tk),) if d == 1 else (len(tk), d)), f"{label}: shape {y.shape}"):
            if name == "OU":
                rec.check(y[0] == 0.0, f"{label} starts at {y[0]}, not at its mean")
            elif name == "DW":
                off = abs(abs(y[0]) - MILD[name])
                rec.check(off <= 7.5 * np.sqrt(0.5 * dt), f"{label} starts at {y[0]}, wells +-{MILD[name]}")
            else:
                rec.close(f"{label}: start", y[0], _STARTS[name], 1e-12)
            z = np.abs(residuals(name, MILD[name], y, dt)) / np.sqrt(0.5 * dt)
            rec.check(0.1 < np.median(z) < 2.0 and z.max() < 7.5, f"{label}: noise of the wrong size")
        for what, v, was in held:
            rec.same(f"{label}: {what}", np.asarray(v), was)
            if what.startswith("path"):
                a, b = np.diff(was, axis=0).ravel(), np.diff(y, axis=0).ravel()
                rec.check(len(np.intersect1d(a, b)) == 0, f"{label}: shares increments with {what}")
        held += [(f"path {k}", x, np.array(x)), (f"window {k}", tk, np.array(tk))]
        rec.state((name,) + tuple(p["seq"][:k + 1]))
        rec.step(len(y))
    rec.trace()


FAMILIES = [
    Family("window", gen_window, run_window, "4 systems x 5 starts x 7 (9) durations x 9 steps"),
    Family("unit", gen_unit, run_unit, "4 systems x 10 (40) seeds x 2 steps, 500-1500 points each"),
    Family("long", gen_long, run_long, "paths of up to 70000 (200000) steps, judged in eight blocks"),
    Family("noise", gen_noise, run_noise, "4 systems x 5-21 noise arguments x 3 drift parameters x 2 seeds"),
    Family("start", gen_start, run_start, "4 systems x 3 parameters x 3 t0 (x 4 means), 4-24 seeds"),
    Family("scale", gen_scale, run_scale, "2-6 parameters x 5 steps 1e-2..1e-6 x 4 noises 1e-6..30 per "
           "system, two windows and two seeds each"),
    Family("seeds", gen_seeds, run_seeds, "4 systems x all pairs of 10 seeds, three repetitions"),
    Family("unseeded", gen_unseeded, run_unseeded, "4 systems without a seed: all pairs of twelve paths of six "
           "processes; default step"),
    Family("streams", gen_streams, run_streams, "sequences of 4 (5) constructions/paths/global draws"),
    Family("windows", gen_windows, run_windows, "all sequences of 3 (4; Lorenz-96 2, 3) of 7 windows (consecutive, "
           "equal, overlapping, finer, backwards) on one process"),
    Family("update", gen_update, run_update, "all orders of updating noise, drift and making the path"),
]
