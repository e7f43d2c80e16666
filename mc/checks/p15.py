"""P15: observations."""
import itertools

import numpy as np

from mc import ref
from mc.checks.p14 import MILD, make, normality
from mc.core import Family, subsets

ID = "P15"
RULE = ("all windows x densities (every density the sampling rate allows, and beyond) x noise forms x "
        "masks in the bounds; values minus the path at the returned indices must be M times the unit "
        "noise of the same seed with M M' = R")
ASSUMPTIONS = ["a full noise matrix is used through its diagonal (documented in the code)"]

DIM = {"OU": 1, "DW": 1, "L63": 3, "L96": 10}


def model(name, N, dt, t0=0.0, seed=1):
    m = make(name, 0.5, MILD[name], seed)
    d = DIM[name]
    m.time_window = t0 + dt * np.arange(N)
    x = ref.wave(N, d, seed=3, amp=3.0)
    m.sample_path = x[:, 0].copy() if d == 1 else x
    return m, x


def indices(rec, label, obs_t, N, dt, t0, density):
    idx = [int(i) for i in obs_t]
    rec.check(all(float(i) == float(int(i)) for i in obs_t), f"{label}: times are not indices")
    v = dt * (N - 1) * density
    allowed = {int(np.floor(v - 1e-9)), int(np.floor(v + 1e-9))}
    ok = rec.check(len(idx) in allowed, f"{label}: {len(idx)} observations, expected {sorted(allowed)}")
    if not idx:
        return idx
    rec.check(all(a < b for a, b in zip(idx, idx[1:])), f"{label}: indices {idx[:20]} not increasing")
    rec.check(idx[0] >= 1 and idx[-1] <= N - 1, f"{label}: indices {idx[0]}..{idx[-1]} of {N} points")
    gaps = [b - a for a, b in zip(idx, idx[1:])]
    if gaps:
        rec.check(max(gaps) - min(gaps) <= 1, f"{label}: uneven gaps {min(gaps)}..{max(gaps)}")
    s = (N - 0.5) / (len(idx) + 1)
    far = max(abs(i - (k + 1) * s) for k, i in enumerate(idx))
    rec.check(far <= 1.5, f"{label}: an index is {far:.1f} points from its even position")
    return idx if ok else None


# ---- indices

def gen_indices(tier):
    Ns = list(range(2, 42)) + [51, 77, 101, 150, 201, 333, 500, 1001, 5001] if tier == "quick" else list(
        range(2, 160)) + [201, 333, 500, 777, 1001, 2001, 5001, 20001]
    for N in Ns:
        for dt in (0.01, 0.02, 0.05, 0.1, 0.25, 0.5, 0.07, 0.3):
            yield {"N": N, "dt": dt}


def run_indices(p, rec):
    N, dt = p["N"], p["dt"]
    top = int(np.floor(1.0 / dt + 1e-9))
    m, x = model("OU", N, dt)
    dens = sorted(set([1, 2, 3, 4, 5, 7, 8, 10, 13, 20, 33, 50, 99, 0.5, 1.5, top - 1, top]))
    for d in dens:
        if d < 0.5 or d > top:
            continue
        label = f"N={N} dt={dt} density={d}"
        obs_t, y, R = m.collect_obs(d, 0.04)
        idx = indices(rec, label, obs_t, N, dt, 0.0, d)
        if idx:
            y = np.asarray(y, float)
            rec.check(y.shape == (len(idx),), f"{label}: values have shape {y.shape}")
            z = np.abs(y - x[idx, 0]) / 0.2
            rec.check(z.max() < 7.5, f"{label}: value {z.max():.1f} standard deviations from the path")
            rec.state((N, dt, d, len(idx)))
        rec.step(len(idx or []))
        rec.trace()
    for d in (top + 1, top + 2, 2 * top + 1, 10 * top + 10):
        rec.raises(f"N={N} dt={dt} density={d}", lambda: m.collect_obs(d, 0.04), ValueError)
    rec.same("path", np.asarray(m.sample_path), x[:, 0])
    # The same relative to a shifted or real window.
    for t0 in (-3.0, 5.0):
        m2, _ = model("OU", N, dt, t0)
        for d in (1, 2, 5):
            if d < top:
                indices(rec, f"N={N} dt={dt} t0={t0} density={d}", m2.collect_obs(d, 1.0)[0], N, dt, t0, d)


# ---- noise and masks

def noise_forms(o):
    """o observed components: (argument, expected matrix)."""
    if o == 1:
        for r in (1e-4, 0.04, 1, 2.5, 30.0):
            yield r, [[r]]
        return
    for r in (0.04, 1, 2.5):
        yield r, (r * np.eye(o)).tolist()
    for v in ([0.3 + 0.5 * i for i in range(o)], [4.0 / (1 + i) for i in range(o)], list(range(1, o + 1))):
        yield v, np.diag(np.array(v, float)).tolist()
    yield (2.0 * np.eye(o)).tolist(), (2.0 * np.eye(o)).tolist()
    v = 0.5 + np.arange(o) ** 2 * 0.3
    yield np.diag(v).tolist(), np.diag(v).tolist()
    full = ref.spd(o, 2)
    yield full.tolist(), np.diag(np.diag(full)).tolist()


def masks(name, tier):
    d = DIM[name]
    yield None, list(range(d))
    if d == 1:
        return
    pool = range(d) if d == 3 else range(4)
    for s in subsets(pool, 1):
        b = [i in s for i in range(d)]
        yield {"bool": b}, s
        yield {"array": b}, s
        yield {"ints": s}, s
    if d == 10:
        for s in ([0, 9], [9], list(range(10)), [1, 3, 5, 7, 9]):
            yield {"bool": [i in s for i in range(d)]}, s
            yield {"ints": s}, s


def gen_noise(tier):
    for name in ("OU", "DW", "L63", "L96"):
        for mask, comp in masks(name, tier):
            for R, want in noise_forms(len(comp)):
                for N, density in ((41, 8), (26, 3)) + (((200, 9), (11, 10)) if tier != "quick" else ()):
                    yield {"sys": name, "mask": mask, "comp": comp, "R": R, "want": want, "N": N,
                           "density": density}


def arg(mask):
    if mask is None:
        return None
    if "bool" in mask:
        return list(mask["bool"])
    if "array" in mask:
        return np.array(mask["array"])
    return list(mask["ints"])


def collect(name, N, density, R, mask, seed):
    m, x = model(name, N, 0.1, seed=seed)
    return m, x, m.collect_obs(density, R, arg(mask))


def run_noise(p, rec):
    name, comp = p["sys"], p["comp"]
    o = len(comp)
    rows, units = [], []
    want = np.array(p["want"], float)
    label = f"{name} mask={p['mask']} R={p['R'] if np.ndim(p['R']) < 2 else 'matrix'}"
    for seed in (0, 1, 2, 3):
        for as_array in (False, True):
            R = np.array(p["R"]) if as_array or np.ndim(p["R"]) else p["R"]
            keep = np.array(R, copy=True)
            m, x, (obs_t, y, noise) = collect(name, p["N"], p["density"], R, p["mask"], seed)
            m1, x1, (obs_t1, y1, _) = collect(name, p["N"], p["density"], 1.0, p["mask"], seed)
            rec.same(f"{label}: the path", np.asarray(m.sample_path), x[:, 0] if DIM[name] == 1 else x)
            rec.same(f"{label}: the noise argument", np.asarray(R), keep)
            idx = indices(rec, label, obs_t, p["N"], 0.1, 0.0, p["density"])
            if idx is None:
                return
            rec.check([int(i) for i in obs_t1] == idx, f"{label}: indices depend on the noise")
            y, y1 = np.asarray(y, float), np.asarray(y1, float)
            shape = (len(idx),) if DIM[name] == 1 else (len(idx), o)
            if not rec.check(y.shape == shape, f"{label}: values have shape {y.shape}, expected {shape}"):
                return
            clean = x[idx][:, comp].reshape(len(idx), o)
            e, e1 = y.reshape(len(idx), o) - clean, y1.reshape(len(idx), o) - clean
            noise = np.asarray(noise, float)
            if o == 1:
                rec.check(noise.size == 1, f"{label}: noise of shape {noise.shape}")
                rec.close(f"{label}: reported noise", noise.reshape(()), want[0, 0], 1e-12)
            else:
                rec.close(f"{label}: reported noise", noise, want, 1e-12)
            if not as_array:
                rows.append(e)
                units.append(e1)
            else:
                rec.close(f"{label}: array argument gives other values", e, rows[-1], 1e-12)
            rec.array_state(y)
            rec.step(len(idx))
            rec.trace()
    e, u = np.vstack(rows), np.vstack(units)
    M, *_ = np.linalg.lstsq(u, e, rcond=None)
    rec.close(f"{label}: noise is not a linear image of the unit noise;", u @ M, e, 1e-9,
              scale=np.abs(e).max(), atol=1e-12)
    if len(u) >= o:
        rec.close(f"{label}: covariance of the noise", M.T @ M, want, 1e-7, scale=want.max())


def gen_normal(tier):
    for name in ("OU", "L63", "L96"):
        for seed in range(10 if tier == "quick" else 60):
            yield {"sys": name, "seed": seed}


def run_normal(p, rec):
    N = 401 if p["sys"] == "OU" else 201
    m, x, (obs_t, y, _) = collect(p["sys"], N, 9, 1.0, None, p["seed"])
    idx = [int(i) for i in obs_t]
    e = np.asarray(y, float).reshape(len(idx), -1) - x[idx]
    normality(rec, f"{p['sys']} seed {p['seed']}", e)
    rec.array_state(e)
    rec.step(len(e))
    rec.trace()


# ---- repeated collections on one process

ARGS = [(2, 0.1), (5, 2.0), (9, 1.0), (99, 1.0)]


def gen_repeat(tier):
    n = 4 if tier == "thorough" else 3
    for name in ("OU", "L63"):
        for seq in itertools.product(range(len(ARGS)), repeat=n):
            yield {"sys": name, "seq": list(seq)}


def run_repeat(p, rec):
    name = p["sys"]
    m, x = model(name, 21, 0.1, seed=2)
    held, used = [], []
    for k in p["seq"]:
        density, R = ARGS[k]
        if density > 10:
            rec.raises("density 99", lambda: m.collect_obs(density, R), ValueError)
            continue
        m.rng.bit_generator.state, state = (lambda s: (s, s))(m.rng.bit_generator.state)
        g = np.random.get_state()[1:3]
        obs_t, y, _ = m.collect_obs(density, R)
        rec.check(np.random.get_state()[2] == g[1], "the shared numpy generator was used")
        q, _ = model(name, 21, 0.1, seed=77)
        q.rng.bit_generator.state = state
        t2, y2, _ = q.collect_obs(density, R)
        rec.check([int(i) for i in t2] == [int(i) for i in obs_t], "indices depend on the history")
        rec.same("values from the same generator state", y, y2)
        e = (np.asarray(y, float).reshape(len(obs_t), -1) - x[[int(i) for i in obs_t]]) / np.sqrt(R)
        for u in used:
            n = min(len(u), len(e))
            rec.check(not np.any(np.isclose(u[:n], e[:n], rtol=1e-9, atol=0)), "noise is repeated")
        used.append(e)
        held.append((np.array(y, copy=True), y))
        for a, b in held:
            rec.same("values returned earlier", b, a)
        rec.same("the path", np.asarray(m.sample_path), x[:, 0] if name == "OU" else x)
        rec.state((name, k, len(held)))
        rec.step()
    rec.trace()


def gen_before(tier):
    for name in ("OU", "DW", "L63", "L96"):
        for have in ("nothing", "path", "window"):
            for args in ((1, 0.1), (3, 1.0), (1000, 0.1)):
                yield {"sys": name, "have": have, "args": list(args)}


def run_before(p, rec):
    m = make(p["sys"], 0.5, MILD[p["sys"]], 1)
    d = DIM[p["sys"]]
    if p["have"] == "path":
        m.sample_path = np.zeros(11) if d == 1 else np.zeros((11, d))
    if p["have"] == "window":
        m.time_window = 0.1 * np.arange(11)
    for mask in (None, [0] if d > 1 else None):
        rec.raises(f"{p}", lambda: m.collect_obs(p["args"][0], p["args"][1], mask), NotImplementedError)
        rec.step()
    rec.state((p["sys"], p["have"], tuple(p["args"])))
    rec.trace()


def gen_made(tier):
    """On windows made by the systems themselves."""
    for name in ("OU", "DW", "L63"):
        for t0, tf, dt in ((0.0, 2.0, 0.01), (0.0, 1.0, 0.05), (2.0, 5.0, 0.02), (-1.0, 1.5, 0.25)):
            for density in (1, 2, 3):
                yield {"sys": name, "t0": t0, "tf": tf, "dt": dt, "density": density}


def run_made(p, rec):
    m = make(p["sys"], 0.3, MILD[p["sys"]], 5)
    m.make_trajectory(p["t0"], p["tf"], p["dt"])
    x = np.array(m.sample_path, copy=True)
    N = len(x)
    obs_t, y, R = m.collect_obs(p["density"], 0.01)
    idx = indices(rec, f"{p}", obs_t, N, p["dt"], p["t0"], p["density"])
    rec.same("path", m.sample_path, x)
    if idx:
        z = np.abs(np.asarray(y, float) - x[idx]) / 0.1
        rec.check(z.max() < 7.5, f"value {z.max():.1f} standard deviations from the path")
    rec.state(tuple(p.values()))
    rec.step(len(idx or []))
    rec.trace()


FAMILIES = [
    Family("indices", gen_indices, run_indices, "window lengths 2..41 and up to 1001 (2..159, 2001) x 8 "
           "steps x up to 17 densities, 4 excessive densities"),
    Family("noise", gen_noise, run_noise, "4 systems x all masks (<=4 components; lists, arrays, index "
           "lists) x 5-10 noise arguments x 2 (4) windows x 4 seeds"),
    Family("normal", gen_normal, run_normal, "3 systems x 10 (60) seeds"),
    Family("repeat", gen_repeat, run_repeat, "all sequences of 3 (4) collections"),
    Family("before", gen_before, run_before, "no path, no window, or neither"),
    Family("made", gen_made, run_made, "windows made by three systems"),
]
