"""P22: the initial variational parameters."""
import itertools

import numpy as np
from scipy.interpolate import make_interp_spline

from mc import ref
from mc import almost
from mc import systems as sy
from mc.core import Family, subsets
from mc.pipeline import SYSTEMS, Problem, UserLinear, lin_drift
from src.var_bayes.fwd_ode import FwdOde

ID = "P22"
RULE = ("every non-empty set of observation times of every window length in the bounds, for every "
        "system, noise level and window; compared with an independently built interpolant, and with the "
        "real Euler forward sweep started on it; every short history of evaluations before a repeated call")
ASSUMPTIONS = ["observation times are distinct and in order"]
NOISE = {"OU": [0.7, 3.0, 1], "DW": [0.8, 0.05], "L63": [10.0, [1.0, 2.0, 1.5]], "L96": [2.0, None],
         "LIN1": [0.6, 5.0], "LIN1M": [0.6], "LIN2": [[0.5, 0.8], "full"], "LIN3": [[0.5, 0.8, 1.1], "full"]}


def spline(t, obs, y):
    """Cubic through the observations with the end values repeated where the ends are not observed
    (a parabola or a line when there are only 3 or 2 points)."""
    x, z = t[obs], y
    if obs[0] != 0:
        x, z = np.concatenate((t[:1], x)), np.vstack((z[:1], z))
    if obs[-1] != len(t) - 1:
        x, z = np.concatenate((x, t[-1:])), np.vstack((z, z[-1:]))
    if len(x) <= 3:
        out = np.zeros((len(t), z.shape[1]))
        for i in range(len(x)):
            w = np.ones(len(t))
            for j in range(len(x)):
                if j != i:
                    w = w * (t - x[j]) / (x[i] - x[j])
            out += w[:, None] * z[i]
        return out
    return make_interp_spline(x, z, k=3)(t)


def gen_sets(tier):
    deep = tier == "thorough"
    for name in SYSTEMS:
        big = name in ("L63", "L96")
        for N in (2, 3, 5, 7, 8) + ((9, 10) if deep and not big else ()) if not big else (2, 3, 5, 6, 8):
            for obs in subsets(range(N), 1):
                if not deep and len(obs) not in (1, 2, N - 2, N - 1, N) and (name == "L96" or N > 6):
                    continue
                if name == "L96" and not deep and N > 3 and len(obs) == 2 and obs[0] and obs[1] - obs[0] > 2:
                    continue
                yield {"sys": name, "N": N, "obs": obs}
        for N, step in ((51, 7), (200, 20), (101, 1), (1501, 100)):
            yield {"sys": name, "N": N, "obs": list(range(step, N - 1, step))}
            yield {"sys": name, "N": N, "obs": list(range(0, N, step))}


def make(p, sigma, t0, dt, kind):
    full = isinstance(sigma, str)
    kw = {} if sigma is None or full else {"sigma": sigma}
    q = Problem(p["sys"], "Euler", p["N"], dt, p["obs"], kind, **kw)
    if full:
        F, c = lin_drift(q.d)
        q.Sigma = 0.7 * ref.spd(q.d, 5)
        q.model = UserLinear(F, c, q.Sigma, False)
        q.model.sample_path = np.zeros((q.N, q.d))
    q.model.time_window = t0 + dt * np.arange(p["N"])
    q.vgp = q.make()
    return q


def run_sets(p, rec):
    N, obs = p["N"], p["obs"]
    for sigma in NOISE[p["sys"]]:
        for t0, dt in ((0.0, 0.05), (-1.0, 0.01), (4.0, 0.5)):
            for kind in (0, 1):
                q = make(p, sigma, t0, dt, kind)
                d = q.d
                y = np.array(q.y)
                if kind == 1:
                    y = np.round(3 * y)             # repeated levels
                    q.y = y.copy()
                    q.vgp = q.make()
                label = f"{p['sys']} N={N} obs={obs} sigma={sigma} t0={t0} dt={dt}"
                t = t0 + dt * np.arange(N)
                want = spline(t, obs, y)
                x = q.vgp.initialization()
                if not rec.check(np.shape(x) == (N * d * d + N * d,),
                                 f"{label}: {np.shape(x)} parameters for {N} points in {d} dimensions"):
                    return
                A, b = x[:N * d * d].reshape(N, d, d), x[N * d * d:].reshape(N, d)
                S = np.asarray(q.Sigma, float).reshape(d, d)
                wa = np.tile(np.diag(2 * np.diag(S)), (N, 1, 1))
                rec.close(label + ": linear part", A, wa, 1e-12)
                top = np.abs(want).max() + 1e-3
                if q.single:
                    rec.close(label + ": offset is the spline;", b, want, 1e-8, scale=top)
                    rec.close(label + ": offset at the observations", b[obs], y, 1e-8, scale=top)
                else:
                    wb = np.einsum("nij,nj->ni", wa, want)
                    wb[:-1] += np.diff(want, axis=0) / dt
                    rec.close(label + ": offset", b, wb, 1e-8, scale=np.abs(wb).max() + top / dt)
                    if 2 * np.diag(S).max() * dt <= 2:      # else Euler amplifies rounding errors
                        m, _ = FwdOde(dt, "Euler", False)(A, b, want[0], 0.25 * np.eye(d), S)
                        rec.close(label + ": mean of the forward sweep", m, want, 1e-8, scale=top)
                        rec.close(label + ": mean at the observations", m[obs], y, 1e-8, scale=top)
                        rec.outcome("followed by the forward sweep")
                rec.same(label + ": observations", np.ravel(q.vgp.obs_y), np.ravel(y))
                rec.check([int(o) for o in q.vgp.obs_t] == list(obs), label + ": observation times changed")
                rec.same(label + ": second call", q.vgp.initialization(), x)
                rec.array_state(x)
                rec.step(N)
                rec.trace()


def gen_levels(tier):
    levels = [1e-9, 1e-6, 1e-4, 1e-2, 1e2, 1e5] + ([1e-12, 1e-3, 1.0, 1e8] if tier == "thorough" else [])
    for name in SYSTEMS:
        for s in levels:
            for y in (1e-6, 1.0, 1e4):
                for t0, dt in ((0.0, 1e-4), (1000.0, 0.01), (-30.0, 5.0)):
                    yield {"sys": name, "noise": s, "data": y, "t0": t0, "dt": dt}


def run_levels(p, rec):
    """Noise and data of any magnitude, steps and starting times of any size."""
    N, obs = 8, [2, 3, 5]
    dt, t0 = p["dt"], p["t0"]
    d = Problem(p["sys"], "Euler").d
    one = Problem(p["sys"], "Euler").single
    for shape in ("equal", "ramp", "first"):
        s = p["noise"] * {"equal": np.ones(d), "ramp": 1.0 + np.arange(d),
                          "first": np.where(np.arange(d) == 0, 1.0, 1e3)}[shape]
        q = make({"sys": p["sys"], "N": N, "obs": obs}, float(s[0]) if one or p["sys"] == "LIN1M" else s, t0, dt, 0)
        q.y = np.array(q.y) * p["data"]
        q.vgp = q.make()
        x = q.vgp.initialization()
        A, b = x[:N * d * d].reshape(N, d, d), x[N * d * d:].reshape(N, d)
        label = f"{p} {shape}"
        wa = np.tile(np.diag(2 * s), (N, 1, 1))
        for i in range(d):
            rec.close(f"{label}: linear part {i}", A[:, i, i], wa[:, i, i], 1e-11, scale=s[i], atol=0)
        rec.check(np.count_nonzero(A) == N * d, f"{label}: linear part is not diagonal")
        want = spline(t0 + dt * np.arange(N), obs, q.y)
        # The time points themselves are only known to rounding.
        loose = 1e-8 + 1e-12 * abs(t0) / dt
        for i in range(d):
            top = np.abs(want[:, i]).max()
            if one:
                w = want[:, i]
                scale = top
            else:
                w = 2 * s[i] * want[:, i]
                w[:-1] += np.diff(want[:, i]) / dt
                scale = 2 * s[i] * top + top / dt
            rec.close(f"{label}: offset {i}", b[:, i], w, loose, scale=scale, atol=0)
        rec.array_state(x)
        rec.step(N)
        rec.trace()


OPS = ["init", "free", "grad", "other"]


def gen_history(tier):
    for name in SYSTEMS:
        deep = 4 if tier == "thorough" and name not in ("L63", "L96") else 3
        for method in ref.METHODS:
            for seq in itertools.product(OPS, repeat=deep if name not in ("L63", "L96") else 2):
                yield {"sys": name, "method": method, "seq": list(seq)}


def run_history(p, rec):
    first = Problem(p["sys"], "Euler", 6, 0.05, [1, 3]).vgp.initialization()
    q = Problem(p["sys"], p["method"], 6, 0.05, [1, 3])
    other = Problem(p["sys"], p["method"], 9, 0.05, [2, 4, 5], kind=1)
    for n, op in enumerate(p["seq"]):
        A, b = q.params(n % 2)
        if op == "init":
            rec.same(f"{p['sys']} {p['seq'][:n + 1]}", q.vgp.initialization(), first)
        elif op == "free":
            q.vgp.free_energy(q.flat(A, b))
        elif op == "grad":
            q.vgp.gradient(q.flat(A, b), eval_fun=True)
        else:
            other.vgp.initialization()
        rec.step()
        rec.state((p["sys"], p["method"], tuple(p["seq"][:n + 1])))
    x = q.vgp.initialization()
    rec.same(f"{p['sys']} after {p['seq']}", x, first)
    # Different initial moments, prior and observation noise: the same parameters.
    q.m0, q.S0 = q.m0 + 1.0, 2.0 * q.S0
    q.mu, q.tau, q.R = q.mu - 0.5, 3.0 * q.tau, 0.5 * q.R
    rec.same(f"{p['sys']}: with other moments, prior and observation noise", q.make().initialization(), first)
    f = q.vgp.free_energy(x.copy())
    rec.check(np.isfinite(f), f"{p['sys']}: free energy of the initial parameters is {f}")
    rec.trace()


def gen_almost(tier):
    for name in SYSTEMS:
        for e in almost.LEVELS:
            for y in ("const", "pairs", "zero", "equal", "late", "line", None):
                for noise in (False, True):
                    yield {"sys": name, "e": e, "y": y, "noise": noise}


def run_almost(p, rec):
    """Observations almost constant, repeated, zero, on a line; noises almost equal."""
    N, obs, e, dt = 12, [2, 3, 5, 8, 9], p["e"], 0.05
    d = Problem(p["sys"], "Euler").d
    one = Problem(p["sys"], "Euler").single
    s = 1.0 + e * np.arange(d) if p["noise"] else 0.5 + 0.2 * np.arange(d)
    q = make({"sys": p["sys"], "N": N, "obs": obs}, float(s[0]) if d == 1 else s, 0.0, dt, 0)
    if p["y"] == "line":
        q.y = np.array(obs)[:, None] * dt * (1.0 + np.arange(d)) + e * ref.wave(len(obs), d, seed=4)
    elif p["y"] is not None:
        q.y = almost.vectors(p["y"], e, len(obs), d, 3)
    q.vgp = q.make()
    x = q.vgp.initialization()
    want = spline(dt * np.arange(N), obs, q.y)
    rec.close(f"{p}: linear part", x[:N * d * d].reshape(N, d, d), np.tile(np.diag(2 * s), (N, 1, 1)), 1e-12)
    w = want
    if not one:
        w = 2 * s * want
        w[:-1] += np.diff(want, axis=0) / dt
    rec.close(f"{p}: offset", x[N * d * d:].reshape(N, d), w, 1e-8, scale=np.abs(w).max() + np.abs(want).max() / dt)
    rec.array_state(x)
    rec.step()
    rec.trace()


FAMILIES = [
    Family("almost", gen_almost, run_almost, "inputs exactly or almost (by 1e-2 .. 1e-7) constant, repeated, diagonal, symmetric, isotropic, equal or zero, each "
           "alone and together"),
    Family("sets", gen_sets, run_sets, "8 systems x all non-empty observation sets (quick: of 1, 2 or nearly all points when the window "
           "is longer than 6), up to 8 (10) "
           "points, and three long windows x 2-3 noise levels x 3 windows x 2 data sets"),
    Family("levels", gen_levels, run_levels, "8 systems x 6 (10) noise magnitudes x 3 data magnitudes x 3 windows "
           "x 3 patterns over the components"),
    Family("history", gen_history, run_history, "all sequences of 3 (4) operations before a repeated call"),
]
