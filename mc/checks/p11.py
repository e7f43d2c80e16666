"""P11: the gradient handed to the optimizer."""
import itertools

import numpy as np

from mc import ref
from mc.core import Family, subsets
from mc.checks.p10 import almost_special, gen_almost, gen_layout, laid_out
from mc.pipeline import SYSTEMS, Problem

ID = "P11"
RULE = ("(a) the real gradient against the adjoint formula evaluated by an independent pipeline "
        "(quadrature, tableau integrators, closed-form likelihood) in every bounded case; (b) the "
        "real gradient against numerical directional derivatives of the real free energy on a "
        "sequence of halved time steps: the error must vanish at first order; (c) all short "
        "sequences of evaluations before a gradient request")
ASSUMPTIONS = ["Lorenz-96: formula only (its energy gradients are sigma-point estimates)"]


def gen_formula(tier):
    for name in SYSTEMS:
        for method in ref.METHODS:
            for kind in (0, 1, 2):
                for N in (2, 3, 6) + ((12,) if tier == "thorough" else ()):
                    for H in (False, True):
                        yield {"sys": name, "method": method, "kind": kind, "N": N, "H": H}
            yield {"sys": name, "method": method, "kind": 0, "N": 60 if name == "L96" else 400, "H": False}


def run_formula(p, rec):
    N = p["N"]
    big = p["sys"] in ("L63", "L96")
    sets = [list(range(1, N, max(2, N // 9)))] if N > 50 else [[0], [N - 1], list(range(N)), [N // 2]] if big else list(subsets(range(N), 1))
    if N == 6:
        sets = sets + [[2, 2], [0, 3, 3, 3], [1, 4, 1]]
    if p["H"]:
        sets = sets[-1:]
    for obs in sets:
        for dt in (0.05, 0.2):
            H = None
            if p["H"]:
                d = Problem(p["sys"], p["method"], N, dt, obs).d
                H = np.array([[1.7]]) if d == 1 else ref.wave(d - 1 if d > 1 else 1, d, seed=41)
                if d == 1 and p["sys"] not in ("OU", "DW", "LIN1", "LIN1M"):
                    continue
            prob = Problem(p["sys"], p["method"], N, dt, obs, p["kind"], H=H)
            for k in range(2):
                A, b = prob.params(k)
                want = prob.reference(A, b)
                x = prob.flat(A, b)
                x0 = x.copy()
                label = f"{p['sys']} obs={obs} dt={dt}"
                w = prob.flat(want["gA"], want["gb"])
                if k == 0:
                    prob.vgp.free_energy(x)
                    g = prob.vgp.gradient(x)
                else:
                    g = prob.vgp.gradient(x, eval_fun=True)
                rec.check(np.shape(g) == x.shape, f"{label}: gradient shape {np.shape(g)}")
                rec.close(label + " gradient", g, w, 1e-8, scale=np.abs(w).max() + 1e-3)
                rec.same(label + " parameter vector", x, x0)
                rec.array_state(x, w, np.array([dt]))
                rec.step()
                rec.trace()


def direction(prob, what, i, j, shape):
    t = np.arange(prob.N) * prob.dt
    w = {"one": np.ones_like(t), "sin": np.sin(2 * t + 0.3), "ramp": t - 0.3,
         "early": np.exp(-4.0 * t), "late": np.exp(4.0 * (t - 1.0))}[shape]
    A, b = np.zeros((prob.N, prob.d, prob.d)), np.zeros((prob.N, prob.d))
    if what == "A":
        A[:, i, j] = w
    else:
        b[:, i] = w
    return prob.flat(A, b)


def gen_limit(tier):
    for name in ("OU", "DW", "L63", "LIN1", "LIN1M", "LIN2", "LIN3"):
        d = {"L63": 3, "LIN3": 3, "LIN2": 2}.get(name, 1)
        for method in ref.METHODS:
            for obs in ("two", "dense", "edge", "last"):
                if tier == "quick" and obs in ("dense", "edge") and (d == 3 or method in ("heun", "rk2")):
                    continue
                for i in range(d):
                    yield {"sys": name, "method": method, "obs": obs, "i": i}


def run_limit(p, rec):
    d = {"L63": 3, "LIN3": 3, "LIN2": 2}.get(p["sys"], 1)
    shapes = ("one", "sin", "ramp", "early", "late")[:2 if d == 3 else 5]
    err = {}
    for n in (50, 100):
        f = lambda u: int(round(n * u))
        obs = {"two": [f(0.4), f(0.8)], "dense": [f(0.1 * k) for k in range(1, 10)],
               "edge": [0, f(0.5)], "last": [f(0.3), n]}[p["obs"]]
        prob = Problem(p["sys"], p["method"], n + 1, 1.0 / n, obs, fun=lambda t, i: 0.5 * np.sin(3 * t + i))
        t = np.arange(prob.N) * prob.dt
        cell = np.arange(d * d).reshape(d, d)
        A = np.array([(1.0 + 0.3 * np.sin(s)) * np.eye(d) + 0.3 * np.cos(s + cell) for s in t])
        b = np.array([np.cos(2 * s + np.arange(d)) for s in t])
        x = prob.flat(A, b)
        g = prob.vgp.gradient(x, eval_fun=True)
        for what, j in [("A", j) for j in range(d)] + [("b", 0)]:
            for shape in shapes:
                v = direction(prob, what, p["i"], j, shape)
                h = 1e-4
                D = (prob.vgp.free_energy(x + h * v) - prob.vgp.free_energy(x - h * v)) / (2 * h)
                err.setdefault((what, j, shape), []).append((float(g @ v) - D, D))
                rec.step(2)
        rec.array_state(x)
    for key, ((e1, _), (e2, D)) in err.items():
        # First order: halving dt halves the error, so 2*e2 - e1 is of second order.
        rec.check(abs(2 * e2 - e1) <= 0.3 * abs(e1) + 2e-3 * (abs(D) + 0.1),
                  f"{p['sys']} {p['method']} direction {key} of row {p['i']}: gradient minus directional "
                  f"derivative is {e1:.3e} at dt=1/50 and {e2:.3e} at dt=1/100 (derivative {D:.3e}): "
                  f"does not vanish with dt")
        rec.trace()
    rec.state((p["sys"], p["method"], p["obs"], p["i"]))


OPS = ["f0", "f1", "f2", "g0", "g1", "g2"]
_TABLE = {}


def gen_history(tier):
    depth = 3 if tier == "thorough" else 2
    for name in SYSTEMS:
        for method in ref.METHODS:
            for n in range(0, depth + 1):
                for seq in itertools.product(OPS, repeat=n):
                    yield {"sys": name, "method": method, "seq": list(seq)}


def run_history(p, rec):
    """After any history: g(x, eval) and f(x); g(x) are the gradient of x."""
    key = (p["sys"], p["method"])
    if key not in _TABLE:
        q = Problem(*key)
        _TABLE[key] = []
        for k in range(3):
            w = q.reference(*q.params(k))
            _TABLE[key].append((q.flat(*q.params(k)), q.flat(w["gA"], w["gb"])))
    prob = Problem(*key)
    for op in p["seq"]:
        x = _TABLE[key][int(op[1])][0].copy()
        prob.vgp.free_energy(x) if op[0] == "f" else prob.vgp.gradient(x, eval_fun=True)
    for k in range(3):
        x, w = _TABLE[key][k]
        s = np.abs(w).max() + 1e-3
        rec.close(f"{p['sys']} g{k} with re-evaluation after {p['seq']}",
                  prob.vgp.gradient(x.copy(), eval_fun=True), w, 1e-8, scale=s)
        x2, w2 = _TABLE[key][(k + 1) % 3]
        prob.vgp.free_energy(x2.copy())
        rec.close(f"{p['sys']} g after f({(k + 1) % 3}) after {p['seq']}",
                  prob.vgp.gradient(x2.copy()), w2, 1e-8, scale=np.abs(w2).max() + 1e-3)
        rec.close(f"{p['sys']} repeated g", prob.vgp.gradient(x2.copy()), w2, 1e-8,
                  scale=np.abs(w2).max() + 1e-3)
        rec.step(3)
    rec.state((p["sys"], p["method"], tuple(p["seq"])))
    rec.trace()


def gen_inplace(tier):
    for name in SYSTEMS:
        for method in ref.METHODS:
            n = 3 if tier == "thorough" else 1 if name in ("L63", "L96") else 2
            for seq in itertools.product(OPS, repeat=n):
                yield {"sys": name, "method": method, "seq": list(seq)}


def run_inplace(p, rec):
    """One array is overwritten with each new parameter vector, as an in-place optimizer would do."""
    key = (p["sys"], p["method"])
    if key not in _TABLE:
        q = Problem(*key)
        _TABLE[key] = []
        for k in range(3):
            w = q.reference(*q.params(k))
            _TABLE[key].append((q.flat(*q.params(k)), q.flat(w["gA"], w["gb"])))
    prob = Problem(*key)
    x = np.zeros_like(_TABLE[key][0][0])
    for op in p["seq"]:
        k = int(op[1])
        x[:] = _TABLE[key][k][0]
        if op[0] == "f":
            prob.vgp.free_energy(x)
        else:
            w = _TABLE[key][k][1]
            rec.close(f"{p['sys']} {op} of {p['seq']} from one buffer", prob.vgp.gradient(x, eval_fun=True), w,
                      1e-8, scale=np.abs(w).max() + 1e-3)
        rec.step()
    for k in range(3):
        x[:] = _TABLE[key][k][0]
        w = _TABLE[key][k][1]
        s = np.abs(w).max() + 1e-3
        rec.close(f"{p['sys']} g{k} after {p['seq']} from one buffer", prob.vgp.gradient(x, eval_fun=True), w,
                  1e-8, scale=s)
        x[:] = _TABLE[key][(k + 1) % 3][0]
        fresh = prob.make().free_energy(x.copy())
        rec.close(f"{p['sys']} f after g{k} from one buffer", prob.vgp.free_energy(x), fresh, 1e-10)
        rec.step(2)
    rec.state((p["sys"], p["method"], tuple(p["seq"])))
    rec.trace()


def gen_near(tier):
    for name in SYSTEMS:
        for method in ref.METHODS:
            for form in ("all", "scale", "first", "mid", "last"):
                yield {"sys": name, "method": method, "form": form}


def run_near(p, rec):
    """A re-evaluation request at a slightly different argument is not answered from the old one.

    The reference is the real gradient of an object that was never used before, so tiny changes of
    the argument can be told apart from none: the answer must be closer to it than a tenth of the
    change it causes.
    """
    for e in range(1, 9):
        eps = 10.0 ** -e
        for kind in (0, 2):
            prob = Problem(p["sys"], p["method"], kind=kind)
            x = prob.flat(*prob.params(0))
            y = x.copy()
            k = {"first": 0, "mid": x.size // 2, "last": -1}.get(p["form"])
            if k is not None:
                y[k] += eps
            else:
                y = y + eps if p["form"] == "all" else y * (1 + eps)
            want = prob.make().gradient(y.copy(), eval_fun=True)
            base = prob.make().gradient(x.copy(), eval_fun=True)
            fwant = prob.make().free_energy(y.copy())
            prob.vgp.free_energy(x.copy())
            fgot = prob.vgp.free_energy(y.copy())
            for history in ("f", "g", "ff"):
                prob.vgp = prob.make()
                if "f" in history:
                    prob.vgp.free_energy(x.copy())
                if "ff" in history:
                    prob.vgp.free_energy(y.copy())
                    prob.vgp.free_energy(x.copy())
                if history == "g":
                    prob.vgp.gradient(x.copy(), eval_fun=True)
                got = prob.vgp.gradient(y.copy(), eval_fun=True)
                change = np.abs(want - base).max()
                scale = np.abs(want).max()
                err = np.abs(got - want).max()
                rec.check(err <= 0.1 * change + 1e-11 * scale,
                          f"{p['sys']} {p['form']} eps={eps} after {history}: gradient is off by {err:.3e}, "
                          f"the change of the argument moves it by {change:.3e}")
                rec.step()
            rec.check(abs(fgot - fwant) <= 1e-11 * (abs(fwant) + 1) + 0.1 * abs(
                fwant - prob.make().free_energy(x.copy())),
                f"{p['sys']} {p['form']} eps={eps}: free energy {fgot!r}, alone {fwant!r}")
            rec.state((p["sys"], p["method"], p["form"], e, kind))
            rec.trace()


def run_layout(p, rec):
    prob, A, b, x, rtol = laid_out(p)
    was = np.array(x, copy=True)
    want = prob.reference(A, b)
    w = prob.flat(want["gA"], want["gb"])
    rec.close(f"{p}", prob.vgp.gradient(x, eval_fun=True), w, rtol, scale=np.abs(w).max() + 1e-3)
    rec.same(f"{p} parameter vector", x, was)
    rec.state(str(p))
    rec.step()
    rec.trace()


def run_almost(p, rec):
    prob, A, b = almost_special(p)
    want = prob.reference(A, b)
    w = prob.flat(want["gA"], want["gb"])
    rec.close(f"{p}", prob.vgp.gradient(prob.flat(A, b), eval_fun=True), w, 1e-8, scale=np.abs(w).max() + 1e-3)
    rec.state(str(p))
    rec.step()
    rec.trace()


FAMILIES = [
    Family("almost", gen_almost, run_almost, "inputs exactly or almost (by 1e-2 .. 1e-7) constant, repeated, diagonal, symmetric, isotropic, equal or zero, each "
           "alone and together"),
    Family("formula", gen_formula, run_formula, "8 systems x 4 schemes x N=2,3,6 (12), 400 (L96: 60) x observation "
           "subsets x 2 steps x 2 parameter vectors x operator"),
    Family("limit", gen_limit, run_limit, "7 systems x 4 schemes x every A and b entry x 2-5 time "
           "profiles, dt=1/50 and 1/100"),
    Family("history", gen_history, run_history, "all evaluation sequences up to length 2 (3)"),
    Family("inplace", gen_inplace, run_inplace, "all sequences of 2 (3; Lorenz systems 1) evaluations whose arguments are written into "
           "one array, then every gradient and free energy from that array"),
    Family("layout", gen_layout, run_layout, "8 systems x 4 schemes x 7 memory layouts and types of the argument, the "
           "initial state, the noise, the observations, the prior, or all of them"),
    Family("near", gen_near, run_near, "8 systems x 4 schemes x 5 ways to move the argument x 8 "
           "magnitudes 1e-1..1e-8 x 3 histories"),
]
