"""Shared drivers: builds the shipped systems in a chosen state and compares their SDE energy."""
import itertools

import numpy as np

from mc import almost
from mc import ref
from mc.core import hamming, subsets
from src.dynamics.double_well import DoubleWell
from src.dynamics.lorenz_63 import Lorenz63
from src.dynamics.lorenz_96 import Lorenz96
from src.dynamics.ornstein_uhlenbeck import OrnsteinUhlenbeck

CLASSES = {"OU": OrnsteinUhlenbeck, "DW": DoubleWell, "L63": Lorenz63}
DRIFTS = {"OU": ref.OU, "DW": ref.DW, "L63": ref.L63}


def build(name, sigma, theta, N, dt, t0=0.0, seed=1, dim=10):
    """A real system whose window is set through its public setter."""
    if name == "L96":
        model = Lorenz96(sigma, theta, seed, dim)
    else:
        model = CLASSES[name](sigma, theta, seed)
    model.time_window = t0 + dt * np.arange(N)
    return model


def point_fun(name, theta):
    if name == "L96":
        return lambda A, b, m, S, w: ref.l96_point(np.asarray(theta, float), A, b, m, S, w)
    drift = DRIFTS[name](theta)
    return lambda A, b, m, S, w: ref.sde_point(drift, A, b, m, S, w)


def noise_diag(sigma, d):
    s = np.asarray(sigma, float)
    if s.ndim == 0:
        return np.full(d, float(s))
    return s if s.ndim == 1 else np.diag(s)


def dim_of(name, dim=10):
    return {"OU": 1, "DW": 1, "L63": 3}.get(name, dim)


def energy_pair(name, sigma, theta, A, b, m, S, dt, obs_t, t0=0.0, model=None):
    """(implementation result, reference) for matrix-form inputs A (N,d,d), ..."""
    N, d = b.shape
    dt = float(dt)
    model = model or build(name, sigma, theta, N, dt, t0, dim=d)
    if d == 1 and name != "L96":
        got = model.energy(A.reshape(N), b.reshape(N), m.reshape(N), S.reshape(N), obs_t)
    else:
        got = model.energy(A, b, m, S, obs_t)
    want = ref.sde(point_fun(name, theta), A, b, m, S, 1.0 / noise_diag(sigma, d), dt)
    return got, want


def term_scale(name, theta, A, b, m, S, isig):
    """Magnitude of the summed terms of the integrand: what rounding errors are relative to."""
    d = len(m)
    x = np.abs(m) + 3.0 * np.sqrt(np.abs(np.diag(S)))
    if name == "DW":
        f = 4.0 * x * (abs(theta) + x * x)
    elif name == "OU":
        f = abs(theta) * x
    elif name == "L63":
        s, r, q = np.abs(np.asarray(theta, float))
        f = np.array([s * (x[0] + x[1]), x[0] * (r + x[2]) + x[1], x[0] * x[1] + q * x[2]])
    else:
        f = (np.roll(x, -1) + np.roll(x, 2)) * np.roll(x, 1) + x + np.abs(np.asarray(theta, float))
    r = f + np.abs(A) @ x + np.abs(b)
    return float(np.sum(isig * r * r)) + 1e-12, float(np.max(x)), float(np.max(r))


def check_energy(rec, label, name, sigma, theta, A, b, m, S, dt, obs_t, what, t0=0.0, rtol=1e-8,
                 model=None):
    """what: subset of 'value', 'gradient'."""
    got, want = energy_pair(name, sigma, theta, A, b, m, S, dt, obs_t, t0, model)
    E, (Ef, Edf), (gm, gS, gth, gsig) = got
    N, d = b.shape
    one = d == 1 and name != "L96"
    isig = 1.0 / noise_diag(sigma, d)
    T = dt * (N - 1)
    sc = [term_scale(name, theta, A[t], b[t], m[t], S[t], isig) for t in range(N)]
    es = max(s[0] for s in sc)
    xs = max(s[1] for s in sc)
    rs = max(s[2] for s in sc)
    cut = (lambda v: v.reshape(N)) if one else (lambda v: v)
    if "value" in what:
        rec.check(np.ndim(E) == 0 or np.size(E) == 1, f"{label}: energy is not a number")
        rec.close(f"{label} Esde", np.asarray(E, float).reshape(()), want["E"], rtol, scale=es * T)
        rec.check(float(np.asarray(E).reshape(())) >= -rtol * es * T, f"{label}: negative energy {E}")
        rec.close(f"{label} Ef", Ef, cut(want["Ef"]), rtol, scale=rs)
        rec.close(f"{label} Edf", Edf, cut(want["Edf"]), rtol, scale=rs / max(xs, 1e-3) + 1.0)
    if "gradient" in what:
        # derivative scales: the integrand over the natural length of the state
        ln = max(1e-3, xs)
        gs = es / ln + float(np.max(np.abs(want["dm"]))) + es
        rec.close(f"{label} dE/dm", gm, cut(want["dm"]), rtol, scale=gs)
        gs = es / ln ** 2 + float(np.max(np.abs(want["dS"]))) + es
        rec.close(f"{label} dE/dS", gS, cut(want["dS"]), rtol, scale=gs)
        wt = want["dtheta"]
        ts = (es + float(np.max(np.abs(wt)))) * max(T, dt)
        if one:
            rec.close(f"{label} dE/dtheta", np.asarray(gth, float).reshape(()), wt[0], rtol, scale=ts)
            rec.close(f"{label} dE/dsigma", np.asarray(gsig, float).reshape(()), want["dsigma"][0], rtol,
                      scale=es * T * isig[0])
        else:
            rec.close(f"{label} dE/dtheta", gth, wt, rtol, scale=ts)
            g = np.asarray(gsig, float)
            if g.ndim == 2:
                g = np.diag(g)
            rec.close(f"{label} dE/dSigma", g, want["dsigma"], rtol,
                      scale=T * es * float(isig.max()))
    for t in range(N):
        rec.array_state(A[t], b[t], m[t], S[t], np.asarray(theta, float), isig)
    rec.step(N)
    rec.trace()
    return got


# ---- case spaces

A1 = [0.9, 0.0, -3.0, 8.0]
B1 = [0.4, 0.0, -2.0]
M1 = [0.6, 0.0, 1.0, -1.7]
S1 = [0.3, 0.0, 1.0, 2.5]


def gen_1d(tier):
    for name in ("OU", "DW"):
        for th in [1.0, 0.4, 2.5] + ([-0.7, 0.0] if name == "DW" else []):
            for sg in [0.8, 0.1, 4.0]:
                for a in A1 if tier == "quick" else A1 + [0.31, -0.77, 40.0]:
                    yield {"sys": name, "theta": th, "sigma": sg, "a": a}


def cases_1d(p):
    for b in B1:
        for m in M1:
            for s in S1:
                o = np.ones(2)
                yield (f"b={b} m={m} s={s}", o.reshape(2, 1, 1) * p["a"], o.reshape(2, 1) * b,
                       o.reshape(2, 1) * m, o.reshape(2, 1, 1) * s)


L63_VARS = (["A%d%d" % (i, j) for i in range(3) for j in range(3)] + ["b0", "b1", "b2"]
            + ["m0", "m1", "m2"] + ["L00", "L10", "L11", "L20", "L21", "L22"]
            + ["t0", "t1", "t2"] + ["n0", "n1", "n2"])


def l63_factors(base, tier):
    f = {}
    g = ref.wave(len(L63_VARS), seed=11, amp=1.2)
    for k, v in enumerate(L63_VARS):
        dflt = float(np.round(g[k], 4))
        if base == "zero":
            dflt = 0.0
        if v[0] == "L" and v[1] == v[2]:
            alts = [0.9 + 0.1 * k / 30, 0.0, 1.7]
        elif v[0] == "n":
            alts = [0.7 + 0.1 * (k % 3), 2.0, 0.25]
        elif v[0] == "t":
            alts = [[10.0, 28.0, 2.667][int(v[1])] if base == "generic" else dflt, 1.3, -0.6]
        else:
            alts = [dflt, 1.0, -1.6] + ([0.0] if base == "generic" else [])
        f[v] = alts
    return f


def gen_l63(tier):
    """Every case fixes the deviations in two blocks; pairs within are all enumerated."""
    for base in ("generic", "zero"):
        names = L63_VARS
        for i in range(len(names)):
            for j in range(i, len(names)):
                yield {"base": base, "i": names[i], "j": names[j]}
    if tier == "thorough":
        import itertools
        for c in itertools.combinations(L63_VARS, 3):
            yield {"base": "zero", "i": c[0], "j": c[1], "k": c[2]}


def cases_l63(p):
    f = l63_factors(p["base"], "quick")
    keys = [p["i"], p["j"]] if p["i"] != p["j"] else [p["i"]]
    if "k" in p:
        keys.append(p["k"])
    import itertools
    for alts in itertools.product(*[f[k] for k in keys]):
        v = {k: f[k][0] for k in f}
        v.update(zip(keys, alts))
        A = np.array([[v["A%d%d" % (i, j)] for j in range(3)] for i in range(3)])
        b = np.array([v["b%d" % i] for i in range(3)])
        m = np.array([v["m%d" % i] for i in range(3)])
        L = np.array([[v.get("L%d%d" % (i, j), 0.0) for j in range(3)] for i in range(3)])
        o = np.ones((2, 1, 1))
        yield (json_like(dict(zip(keys, alts))), [v["t%d" % i] for i in range(3)],
               [v["n%d" % i] for i in range(3)], o * A, o[:, 0] * b, o[:, 0] * m, o * (L @ L.T))


def json_like(d):
    return " ".join(f"{k}={v:g}" for k, v in d.items())


def window_data(name, N, seed=0, dim=10):
    """Generic, time-varying parameters and moments."""
    d = dim_of(name, dim)
    A = ref.wave(N, d, d, seed=1 + seed, amp=1.0 / np.sqrt(d)) + 1.2 * np.eye(d)
    b = ref.wave(N, d, seed=2 + seed, amp=2.0)
    m = ref.wave(N, d, seed=3 + seed, amp=1.5)
    S = np.array([ref.spd(d, 1 + ((k + seed) % 4), 0.3) * (0.2 + 0.05 * (k % 7)) for k in range(N)])
    return A, b, m, S


THETA = {"OU": 1.3, "DW": 0.9, "L63": [10.0, 28.0, 2.667], "L96": 8.0}
SIGMA = {"OU": 0.7, "DW": 0.8, "L63": [10.0, 2.0, 5.0], "L96": 4.0}


def gen_obs(tier):
    for name in ("OU", "DW", "L63"):
        for N in (2, 3, 4, 6) + ((8,) if tier == "thorough" else ()):
            for s in subsets(range(N)):
                yield {"sys": name, "N": N, "obs": s}
        for N in (2, 4):
            for s in unordered(N):
                yield {"sys": name, "N": N, "obs": s}


def unordered(N, most=3):
    """Lists of 2..most observation times that repeat one or are not in order."""
    for k in range(2, most + 1):
        for s in itertools.product(range(N), repeat=k):
            if list(s) != sorted(set(s)):
                yield list(s)


def gen_window(tier):
    lens = [2, 3, 4, 7, 20, 101] + ([500, 2001] if tier == "thorough" else [])
    for name, N in (("OU", 3000), ("DW", 3000), ("L63", 600)):
        yield {"sys": name, "N": N, "dt": 0.01, "t0": 0.0}
    for name in ("OU", "DW", "L63"):
        for N in lens:
            for dt in (0.01, 0.25, 1e-4, 1 / 3000, 3.3e-7):
                for t0 in (0.0, -3.0, 11.5):
                    yield {"sys": name, "N": N, "dt": dt, "t0": t0}


def gen_noise(tier):
    """Forms of the noise argument of Lorenz-63."""
    import itertools
    alpha = [0.5, 1.0, 20.0]
    for form in ("scalar", "vector", "matrix"):
        for n in itertools.product(alpha, repeat=1 if form == "scalar" else 3):
            yield {"form": form, "n": list(n)}


def noise_arg(p):
    if p["form"] == "scalar":
        return p["n"][0]
    return p["n"] if p["form"] == "vector" else np.diag(p["n"])


# ---- magnitudes

def gen_magnitude(tier):
    for name in ("OU", "DW"):
        for th in [1e-6, 1.0, 300.0] + ([-50.0] if name == "DW" else []):
            for sg in (1e-8, 1.0, 1e6):
                yield {"sys": name, "theta": th, "sigma": sg}
    for f in hamming({"m": [1.0, 1e-5, 40.0, 0.0], "S": [1.0, 1e-10, 1e4, 1e-4], "A": [1.0, 0.0, 1e4, 1e-4],
                      "b": [1.0, 0.0, 1e5], "theta": [1.0, 1e-4, 50.0], "sigma": [1.0, 1e-6, 1e6]},
                     6 if tier == "thorough" else 4):
        yield {"sys": "L63", **f}


def cases_magnitude(p):
    import itertools
    if p["sys"] == "L63":
        A, b, m, S = window_data("L63", 3, 2)
        yield ("", (np.array([1.5, 1.2, 0.8]) * p["theta"]).tolist(), (np.array([1.0, 2.0, 1.5]) * p["sigma"]).tolist(),
               A * p["A"], b * p["b"], m * p["m"], S * p["S"])
        return
    o = np.ones((2, 1, 1))
    for a, b, m, s in itertools.product((0.0, 1.3, -700.0, 1e-5), (0.0, 0.7, -4000.0), (0.0, 1e-5, 0.9, -60.0, 1e4),
                                        (0.0, 1e-12, 1e-5, 1.0, 400.0, 1e6)):
        yield f"a={a} b={b} m={m} s={s}", p["theta"], p["sigma"], o * a, o[:, 0] * b, o[:, 0] * m, o * s


# ---- memory layouts and number types of the arguments

LAYOUTS = ["f", "readonly", "strided", "neg", "swapped", "float32", "int"]


def lay_out(x, layout):
    """The same numbers (rounded for float32 and int) in another memory layout or type."""
    x = np.asarray(x)
    if layout == "f":
        return np.asfortranarray(x)
    if layout == "readonly":
        x = x.copy()
        x.setflags(write=False)
    elif layout == "strided" and x.ndim:
        big = np.full((2 * x.shape[0],) + x.shape[1:], 99.0)
        big[::2] = x
        return big[::2]
    elif layout == "neg" and x.ndim:
        return x[::-1].copy()[::-1]
    elif layout == "swapped" and x.ndim > 1:
        return np.ascontiguousarray(np.moveaxis(x, 0, -1)).transpose((x.ndim - 1,) + tuple(range(x.ndim - 1)))
    elif layout == "float32":
        return x.astype(np.float32)
    elif layout == "int":
        return np.round(3 * x).astype(int)
    return x


def gen_layout(tier):
    import itertools
    for name in ("OU", "DW", "L63"):
        for lay in LAYOUTS:
            for which in itertools.product((0, 1), repeat=4):
                if any(which):
                    yield {"sys": name, "layout": lay, "which": list(which)}


def layout_args(p, N=4, dim=10):
    v = list(window_data(p["sys"], N, 3, dim))
    if p["layout"] == "int" and p["which"][3]:
        d = v[3].shape[-1]
        v[3] = np.array([(1 + k) * (np.eye(d) + (0.0 if d == 1 else 1.0 / 3.0)) for k in range(N)])
    return [lay_out(x, p["layout"]) if w else x for x, w in zip(v, p["which"])]


def run_layout(p, rec, what, dim=10):
    """Some of A, b, m, S in another layout or type: the same energies."""
    name = p["sys"]
    A, b, m, S = layout_args(p, 4, dim)
    rtol = 2e-5 if p["layout"] == "float32" else 1e-8
    N, d = b.shape
    model = build(name, SIGMA[name], THETA[name], N, 0.1, dim=d)
    args = [A, b, m, S]
    if d == 1 and name != "L96":
        # The layout of the vectors that are handed over, not of their matrix forms.
        args = [np.asarray(x, float).reshape(N) if not w else lay_out(np.asarray(x).reshape(N), "same" if
                p["layout"] in ("int", "float32") else p["layout"]) for x, w in zip(args, p["which"])]

    class Call:
        """Hands the laid-out arguments to the system."""
        def energy(self, *a):
            return model.energy(*args, a[4])
    f = [np.asarray(x, float) for x in (A, b, m, S)]
    check_energy(rec, f"{name} {p['layout']} {p['which']}", name, SIGMA[name], THETA[name], *f, 0.1, [1, 3], what,
                 rtol=rtol, model=Call())


# ---- almost special arguments

def gen_almost(tier, names=("OU", "DW", "L63"), dims=(0,)):
    for name in names:
        for D in dims:
            for c in almost.cases(A=almost.MATRICES, b=almost.VECTORS, m=almost.VECTORS, S=almost.COVARIANCES):
                yield dict(c, sys=name, D=D)
            for e in almost.LEVELS:
                yield {"sys": name, "D": D, "e": e, "theta": 1}
                yield {"sys": name, "D": D, "e": e, "sigma": 1}


def run_almost(p, rec, what, rtol=1e-8):
    name, e, N = p["sys"], p["e"], 5
    d = dim_of(name, p["D"])
    A, b, m, S = window_data(name, N, 1, d)
    theta, sigma = THETA[name], SIGMA[name]
    if "A" in p:
        A = almost.matrices(p["A"], e, N, d)
    if "b" in p:
        b = almost.vectors(p["b"], e, N, d, 2)
    if "m" in p:
        m = almost.vectors(p["m"], e, N, d, 3)
    if "S" in p:
        S = almost.covariances(p["S"], e, N, d, 4)
    if "theta" in p and name == "L63":
        theta = [2.0 + e, 2.0, 2.0 - e]
    elif "theta" in p and name == "OU":
        A = np.full((N, 1, 1), theta + e)       # the posterior drift is almost that of the process
    elif "theta" in p and name == "L96":
        theta = (8.0 + e * np.arange(d)).tolist()
    if "sigma" in p and d > 1:
        sigma = (2.0 + e * np.arange(d)).tolist()
    elif "sigma" in p:
        sigma = 1.0 + e
    check_energy(rec, f"{p}", name, sigma, np.array(theta) if name == "L96" else theta, A, b, m, S, 0.1, [1, 3], what,
                 rtol=rtol)
