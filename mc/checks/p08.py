"""P08: observation energy against the closed-form expected Gaussian log-likelihood."""
import itertools
import math

import numpy as np

from mc import ref
from mc import almost
from mc.core import Family, hamming, subsets
from mc.systems import LAYOUTS, lay_out
from src.var_bayes.gaussian_like import GaussianLikelihood

ID = "P08"
RULE = ("every non-empty subset of observation times, every listed form of noise and operator, and "
        "every bounded deviation of observations and marginals; the real likelihood is compared "
        "with -E log N in closed form, its gradients with the exact derivatives")
ASSUMPTIONS = ["at least one observation"]


def check_nd(rec, label, like, y, obs_t, m, S, H, R, rtol=1e-9):
    E, dm, dS = ref.obs_energy(y, obs_t, m, S, H, R)
    iR = np.abs(np.linalg.inv(R)).max()
    mag = len(obs_t) * (1.0 + iR * (np.abs(y).max() + np.abs(H).sum(1).max() * np.abs(m).max()) ** 2
                        + iR * np.abs(H).max() ** 2 * np.abs(S).sum()
                        + abs(np.linalg.slogdet(R)[1])) + 1.0
    got = like(m, S)
    rec.close(f"{label} Eobs", np.asarray(got, float).reshape(()), E, rtol, scale=mag)
    g = like.gradients(m, S)
    rec.close(f"{label} dEobs/dm", g[0], dm, rtol, scale=mag)
    rec.close(f"{label} dEobs/dS", g[1], dS, rtol, scale=mag)
    off = [t for t in range(len(m)) if t not in set(int(k) for k in obs_t)]
    rec.check(not np.any(np.asarray(g[0])[off]) and not np.any(np.asarray(g[1])[off]),
              f"{label}: gradient away from the observation times")
    rec.array_state(y, np.asarray(obs_t, float), m, S, H, R)
    rec.step(2)
    rec.trace()


def check_1d(rec, label, like, y, obs_t, m, s, h, r, rtol=1e-9):
    N = len(m)
    E, dm, dS = ref.obs_energy(y[:, None], obs_t, m[:, None], s[:, None, None], np.array([[h]]),
                               np.array([[r]]))
    ot = np.asarray(obs_t, int)
    q = (y - h * m[ot]) ** 2 + h * h * s[ot]
    mag = 1.0 + len(ot) * (1.0 + (np.abs(y).max() + abs(h) * np.abs(m).max()) ** 2 / r
                           + h * h * np.abs(s).max() / r + abs(math.log(r)))
    rec.close(f"{label} Eobs", np.asarray(like(m, s), float).reshape(()), E, rtol, scale=mag)
    g = like.gradients(m, s)
    rec.close(f"{label} dEobs/dm", g[0], dm.ravel(), rtol, scale=mag)
    rec.close(f"{label} dEobs/ds", g[1], dS.ravel(), rtol, scale=mag)
    dr = np.zeros(N)
    np.add.at(dr, ot, -0.5 * q / r ** 2 + 0.5 / r)
    rec.close(f"{label} dEobs/dr", g[2], dr, rtol, scale=mag / r)
    off = [t for t in range(N) if t not in set(ot.tolist())]
    rec.check(not any(np.any(np.asarray(x)[off]) for x in g),
              f"{label}: gradient away from the observation times")
    rec.array_state(y, ot.astype(float), m, s, np.array([h, r]))
    rec.step(2)
    rec.trace()


# ---- times

def gen_times(tier):
    for N in (1, 2, 3, 5, 6) + ((8,) if tier == "thorough" else ()):
        for s in subsets(range(N), 1):
            for d in (0, 1, 2, 3):
                yield {"N": N, "obs": s, "d": d}


def run_times(p, rec):
    N, d, obs = p["N"], p["d"], p["obs"]
    M = len(obs)
    for form in (list, np.array, tuple):
        ot = form(obs)
        if d == 0:
            y, m, s = ref.wave(M, seed=1, amp=2.0), ref.wave(N, seed=2), 0.6 + 0.5 * ref.wave(N, seed=3)
            check_1d(rec, "1d", GaussianLikelihood(y, ot, 0.3, None, True), y, obs, m, s, 1.0, 0.3)
        else:
            y, m = ref.wave(M, d, seed=1, amp=2.0), ref.wave(N, d, seed=2)
            S = np.array([ref.spd(d, k) for k in range(N)])
            R = ref.spd(d, 5)
            check_nd(rec, "nd", GaussianLikelihood(y, ot, R, None, False), y, obs, m, S, np.eye(d), R)


# ---- scalar settings

def gen_scalar(tier):
    yield from hamming({"h": [None, 1.0, 2.0, -0.5, 0.0, 3], "r": [0.04, 1.0, 9.0, 1e-4, 2],
                        "y": [0.7, 0.0, -3.0, 50.0], "m": [0.2, 0.0, 4.0, -1.0],
                        "s": [0.3, 0.0, 5.0, 1e-6], "form": ["float", "array"]},
                       6 if tier == "thorough" else 4)


def run_scalar(p, rec):
    obs = [1, 2, 4]
    y = p["y"] + np.array([0.0, 0.3, -0.2])
    m, s = p["m"] + 0.1 * np.arange(6), p["s"] * (1 + np.arange(6))
    h, r = p["h"], p["r"]
    if p["form"] == "array":
        h, r = h if h is None else np.array(h), np.array(r)
    like = GaussianLikelihood(y, obs, r, h, True)
    check_1d(rec, "scalar", like, y, obs, m, s, 1.0 if h is None else float(h), float(r))


# ---- operators and noises

def operator(kind, d):
    if kind == "none":
        return None
    if kind == "eye":
        return np.eye(d)
    if kind == "generic":
        return ref.wave(d, d, seed=6, amp=1.5)
    if kind == "perm":
        return np.roll(np.eye(d), 1, axis=1)
    if kind == "first":
        return np.eye(d)[:1]
    if kind == "last":
        return np.eye(d)[-1:]
    if kind == "sum":
        return np.ones((1, d))
    if kind == "drop":
        return np.eye(d)[1:] if d > 1 else np.eye(d)
    if kind == "tall":
        return ref.wave(d + 2, d, seed=8)
    if kind == "wide":
        return ref.wave(max(1, d - 1), d, seed=9)
    if kind == "zero":
        return np.zeros((2, d))
    i, j = divmod(int(kind[1:]), d)
    e = np.zeros((d, d))
    e[i, j] = 1.0
    return e


OPS = ["none", "eye", "generic", "perm", "first", "last", "sum", "drop", "tall", "wide", "zero"]


def noise(kind, o):
    if kind == "scaled":
        return 0.5 * np.eye(o)
    if kind == "diag":
        return np.diag(0.2 + 0.3 * np.arange(o))
    if kind == "full":
        return ref.spd(o, 3)
    if kind == "strong":
        return 0.2 * np.eye(o) + 0.8 * np.ones((o, o))
    if kind == "small":
        return 1e-3 * ref.spd(o, 2)
    if kind == "large":
        return 1e3 * ref.spd(o, 4)
    if kind == "negcorr":
        return np.eye(o) - 0.9 / o * np.ones((o, o)) if o > 1 else np.eye(1)
    if kind == "int":
        return (2 * np.eye(o) + np.ones((o, o))).astype(int)
    raise KeyError(kind)


NOISES = ["full", "scaled", "diag", "strong", "small", "large", "negcorr", "int"]


def gen_matrix(tier):
    for d in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 8):
        for h in OPS + ["e%d" % k for k in range(d * d)]:
            for r in NOISES:
                yield {"d": d, "H": h, "R": r}


def run_matrix(p, rec):
    d, N = p["d"], 5
    Hin = operator(p["H"], d)
    H = np.eye(d) if Hin is None else Hin
    R = noise(p["R"], len(H))
    for obs in ([2], [0, 4], [1, 2, 3]):
        y = ref.wave(len(obs), len(H), seed=1, amp=2.0)
        m = ref.wave(N, d, seed=2)
        S = np.array([ref.spd(d, k) for k in range(N)])
        like = GaussianLikelihood(y, obs, R, Hin, False)
        check_nd(rec, f"obs={obs}", like, y, obs, m, S, H, np.asarray(R, float),
                 rtol=1e-8 if p["R"] in ("small", "negcorr") else 1e-9)


# ---- unit changes of marginals and observations

def gen_unit(tier):
    for d in (2, 3):
        for h in ("none", "generic", "wide", "tall"):
            for what in ("y", "m", "S"):
                yield {"d": d, "H": h, "what": what}


def run_unit(p, rec):
    d, N, obs = p["d"], 4, [1, 3]
    Hin = operator(p["H"], d)
    H = np.eye(d) if Hin is None else Hin
    o = len(H)
    R = ref.spd(o, 3)
    for base in (0.0, 1.0):
        cells = {"y": [(n, i) for n in range(2) for i in range(o)],
                 "m": [(n, i) for n in range(N) for i in range(d)],
                 "S": [(n, i, j) for n in range(N) for i in range(d) for j in range(i + 1)]}[p["what"]]
        for c in cells:
            y, m = base * ref.wave(2, o, seed=1), base * ref.wave(N, d, seed=2)
            S = np.array([base * ref.spd(d, k) for k in range(N)])
            if p["what"] == "y":
                y[c] += 1.3
            elif p["what"] == "m":
                m[c] -= 0.8
            else:
                S[c] += 0.25
                S[c[0], c[2], c[1]] = S[c]
            like = GaussianLikelihood(y, obs, R, Hin, False)
            check_nd(rec, f"{p['what']}{c} base={base}", like, y, obs, m, S, H, R)


# ---- noise updates: sequences of changes and evaluations

def gen_update(tier):
    n = 4 if tier == "thorough" else 3
    for d in (0, 1, 2, 3):
        for k in range(1, n + 1):
            for seq in itertools.product(range(3), repeat=k):
                yield {"d": d, "seq": list(seq)}


def run_update(p, rec):
    d, N, obs = p["d"], 4, [1, 2]
    m = ref.wave(N, max(d, 1), seed=2)
    S = np.array([ref.spd(max(d, 1), k) for k in range(N)])
    y = ref.wave(2, max(d, 1), seed=1)
    if d == 0:
        like = GaussianLikelihood(y.ravel(), obs, 0.7, None, True)
    else:
        like = GaussianLikelihood(y, obs, ref.spd(d, 9), None, False)
    rec.outcome(tuple(p["seq"]))
    for n, k in enumerate(p["seq"]):
        if d == 0:
            r = (0.1, 2.0, 30.0)[k]
            like.noise = r
            rec.check(float(like.noise) == r, "noise reads back")
            check_1d(rec, f"update {n}", like, y.ravel(), obs, m.ravel(), S.ravel(), 1.0, r)
        else:
            R = (ref.spd(d, 2), 0.2 * np.eye(d), 7.0 * ref.spd(d, 6))[k]
            like.noise = R
            rec.check(np.array_equal(like.noise, R), "noise reads back")
            check_nd(rec, f"update {n}", like, y, obs, m, S, np.eye(d), R)


# ---- the number of observations, and scalar against matrix form

def gen_size(tier):
    for M in [1, 2, 3, 10, 40] + ([300] if tier == "thorough" else []):
        for d in (1, 2, 5, 12, 40):
            yield {"M": M, "d": d}


def run_size(p, rec):
    M, d = p["M"], p["d"]
    if M * d > 1000:
        M = max(1, 1000 // d)
    N = 2 * M + 1
    obs = list(range(1, N, 2))[:M]
    y, m = ref.wave(M, d, seed=1, amp=2.0), ref.wave(N, d, seed=2)
    S = np.array([ref.spd(d, k % 5) / d for k in range(N)])
    R = ref.spd(d, 2)
    check_nd(rec, f"M={M} d={d}", GaussianLikelihood(y, obs, R, None, False), y, obs, m, S, np.eye(d), R,
             rtol=1e-8)
    if d == 1:
        one = GaussianLikelihood(y.ravel(), obs, float(R[0, 0]), None, True)
        many = GaussianLikelihood(y, obs, R, None, False)
        rec.close("scalar and matrix form agree", float(one(m.ravel(), S.ravel())), float(many(m, S)))


def gen_order(tier):
    for N, M in ((4, 2), (4, 3), (6, 3), (4, 4)) + (((7, 5),) if tier == "thorough" else ()):
        for obs in itertools.permutations(range(N), M):
            for d in (0, 1, 2, 3):
                yield {"N": N, "obs": list(obs), "d": d}


def run_order(p, rec):
    """Observations listed in any order: values belong to the times at the same place in the list."""
    N, d, obs = p["N"], p["d"], p["obs"]
    y = np.array([ref.wave(N, max(d, 1), seed=1, amp=2.0)[t] for t in obs])
    m = ref.wave(N, max(d, 1), seed=2)
    S = np.array([ref.spd(max(d, 1), k) for k in range(N)])
    for form in (list, np.array):
        if d == 0:
            check_1d(rec, "1d", GaussianLikelihood(y.ravel(), form(obs), 0.3, None, True), y.ravel(), obs,
                     m.ravel(), S.ravel(), 1.0, 0.3)
        else:
            R = ref.spd(d, 5)
            check_nd(rec, "nd", GaussianLikelihood(y, form(obs), R, None, False), y, obs, m, S, np.eye(d), R)


def gen_repeat(tier):
    for N, M in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 3), (2, 4)) + (((3, 4), (4, 4)) if tier == "thorough" else ()):
        for obs in itertools.product(range(N), repeat=M):
            if len(set(obs)) < M:
                for d in (0, 1, 2, 3):
                    for h in ("none", "generic", "first"):
                        yield {"N": N, "obs": list(obs), "d": d, "H": h}


def run_repeat(p, rec):
    """Several observations of one time: each contributes to energy and gradients."""
    N, d, obs = p["N"], p["d"], p["obs"]
    n, M = max(d, 1), len(p["obs"])
    H = operator(p["H"], n)
    full = np.eye(n) if H is None else H
    y, m = ref.wave(M, len(full), seed=1, amp=2.0), ref.wave(N, n, seed=2)
    S = np.array([ref.spd(n, k) for k in range(N)])
    for form in (list, np.array):
        if d == 0:
            h = None if H is None else float(H[0, 0])
            check_1d(rec, f"{obs}", GaussianLikelihood(y.ravel(), form(obs), 0.3, h, True), y.ravel(), obs,
                     m.ravel(), S.ravel(), 1.0 if h is None else h, 0.3)
        else:
            R = ref.spd(len(full), 5)
            check_nd(rec, f"{obs}", GaussianLikelihood(y, form(obs), R, H, False), y, obs, m, S, full, R)


def gen_extreme(tier):
    for d in (1, 2, 8, 40, 100):
        for a in range(-14, 15, 2 if tier == "thorough" else 4):
            for kind in ("eye", "diag", "full"):
                yield {"d": d, "noise": a, "kind": kind}


def run_extreme(p, rec):
    """Very precise and very poor observations, up to determinants far outside the range of floats."""
    d, N, obs = p["d"], 4, [1, 2]
    R = 10.0 ** p["noise"] * {"eye": np.eye(d), "diag": np.diag(1.0 + 0.3 * ref.wave(d, seed=1)),
                              "full": ref.spd(d, 2)}[p["kind"]]
    y, m = ref.wave(2, d, seed=1, amp=2.0), ref.wave(N, d, seed=2)
    S = np.array([ref.spd(d, k) / d for k in range(N)])
    check_nd(rec, "extreme", GaussianLikelihood(y, obs, R, None, False), y, obs, m, S, np.eye(d), R, rtol=1e-8)
    if d == 1:
        check_1d(rec, "extreme scalar", GaussianLikelihood(y.ravel(), obs, R[0, 0], None, True), y.ravel(), obs,
                 m.ravel(), S.ravel(), 1.0, float(R[0, 0]), rtol=1e-8)


def gen_layout(tier):
    for lay in LAYOUTS:
        for d in (0, 1, 2, 3):
            for which in itertools.product((0, 1), repeat=5):
                if any(which) and not (d == 0 and which[2] and not any(which[:2] + which[3:])):
                    yield {"layout": lay, "d": d, "which": list(which)}


def run_layout(p, rec):
    """Observations, noise, operator and marginals in another memory layout or number type."""
    d, N, obs = p["d"], 5, [1, 2, 4]
    n = max(d, 1)
    y, m = ref.wave(3, n, seed=1, amp=2.0), ref.wave(N, n, seed=2)
    spd = lambda k: np.eye(n) * (1 + k) + (1.0 / 3.0 if d > 1 else 0.0)
    Rm, S = spd(1), np.array([spd(k) for k in range(N)])
    H = 0.5 * np.eye(n) + ref.wave(n, n, seed=6)
    lay = lambda x, w: lay_out(x, p["layout"]) if w else x
    rtol = 1e-5 if p["layout"] == "float32" else 1e-9
    if d == 0:
        y, m, S = y.ravel(), m.ravel(), S.ravel()
        args = [lay(v, w) for v, w in zip((y, Rm[0, 0], 0.7, m, S), p["which"])]
        y, r, h, m, S = args
        like = GaussianLikelihood(y, obs, r, None if not p["which"][2] else 0.7, True)
        check_1d(rec, f"{p}", like, y.astype(float), obs, m.astype(float), S.astype(float),
                 0.7 if p["which"][2] else 1.0, float(r), rtol=rtol)
        return
    y, Rm, H, m, S = [lay(v, w) for v, w in zip((y, Rm, H, m, S), p["which"])]
    f = lambda v: np.asarray(v, float)
    check_nd(rec, f"{p}", GaussianLikelihood(y, obs, Rm, H, False), f(y), obs, f(m), f(S), f(H), f(Rm), rtol=rtol)


def gen_almost(tier):
    for d in (0, 1, 2, 3):
        for c in almost.cases(m=almost.VECTORS, y=["equal", "const", "zero", "fit"], S=almost.COVARIANCES,
                              R=["diag", "eye", "iso"], H=["diag", "eye", "zero", "symmetric"]):
            yield dict(c, d=d)


def run_almost(p, rec):
    d, N, obs, e = max(p["d"], 1), 6, [1, 2, 4], p["e"]
    y, m = ref.wave(3, d, seed=1, amp=2.0), ref.wave(N, d, seed=2)
    S = np.array([0.4 * ref.spd(d, k) for k in range(N)])
    R, H = ref.spd(d, 5), ref.wave(d, d, seed=6, amp=1.5) + 0.3
    if "m" in p:
        m = almost.vectors(p["m"], e, N, d, 2)
    if "S" in p:
        S = almost.covariances(p["S"], e, N, d, 3)
    if "R" in p:
        R = almost.covariances(p["R"], e, 1, d, 4)[0]
    if "H" in p:
        H = almost.matrices(p["H"], e, 1, d, 5)[0]
    if "y" in p:
        y = m[obs] @ H.T + almost.vectors("zero", e, 3, d, 6) if p["y"] == "fit" else almost.vectors(p["y"], e, 3, d, 6)
    if p["d"] == 0:
        check_1d(rec, f"{p}", GaussianLikelihood(y.ravel(), obs, float(R[0, 0]), float(H[0, 0]), True), y.ravel(), obs,
                 m.ravel(), S.ravel(), float(H[0, 0]), float(R[0, 0]))
    else:
        check_nd(rec, f"{p}", GaussianLikelihood(y, obs, R, H, False), y, obs, m, S, H, R)


FAMILIES = [
    Family("almost", gen_almost, run_almost, "inputs exactly or almost (by 1e-2 .. 1e-7) constant, repeated, diagonal, symmetric, isotropic, equal or zero, each "
           "alone and together"),
    Family("times", gen_times, run_times, "every non-empty subset of N=1,2,3,5,6 (8) times; d=1 scalar "
           "and matrix, 2, 3; list, tuple, array"),
    Family("scalar", gen_scalar, run_scalar, "<=4 deviations of operator, noise, data, marginals (all)"),
    Family("matrix", gen_matrix, run_matrix, "d=1..4 (8): 11 operators + all unit operators x 8 noises"),
    Family("unit", gen_unit, run_unit, "unit change of each entry of y, m, S"),
    Family("update", gen_update, run_update, "all noise update sequences up to length 3 (4)"),
    Family("order", gen_order, run_order, "all orders of 2-4 (5) observations on 4, 6 (7) times, d=1 scalar and "
           "matrix, 2, 3"),
    Family("repeat", gen_repeat, run_repeat, "all sequences of 2-4 observations on 1-3 (4) times with at least one time "
           "observed more than once, three operators, d=1 scalar and matrix, 2, 3"),
    Family("extreme", gen_extreme, run_extreme, "noise variances 1e-14..1e14, d=1..100"),
    Family("layout", gen_layout, run_layout, "every non-empty subset of observations, noise, operator, means and "
           "covariances in 7 memory layouts and types, d=1 scalar and matrix, 2, 3"),
    Family("size", gen_size, run_size, "1..40 (300) observations, d up to 40"),
]
