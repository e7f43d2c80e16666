"""P10: free energy = sum of its parts, a function of its argument only."""
import itertools

import numpy as np

from mc import ref
from mc import almost
from mc import systems as sy
from mc.core import Family, subsets
from mc.pipeline import SYSTEMS, Problem, check_outputs

ID = "P10"
RULE = ("for each system and scheme: every sequence (to the stated length) of free-energy and gradient "
        "evaluations over three parameter vectors on one object; each returned value and the exposed "
        "moments are compared with a reference that has no memory")
ASSUMPTIONS = ["Lorenz-96 energies are the sigma-point estimates (P06)"]
_CACHE = {}


def fixed(name, method, kind):
    """Reference values, computed once per process."""
    key = (name, method, kind)
    if key not in _CACHE:
        p = Problem(name, method, kind=kind)
        _CACHE[key] = [(p.params(k), p.reference(*p.params(k))) for k in range(3)]
    return _CACHE[key]


def value(rec, label, prob, x, want, f):
    scale = abs(want["E0"]) + abs(want["Esde"]) + abs(want["Eobs"])
    rec.check(isinstance(f, float) and np.ndim(f) == 0, f"{label}: not a plain number: {type(f)}")
    rec.close(label, f, want["F"], 1e-8, scale=scale)


def gen_parts(tier):
    for name in SYSTEMS:
        for method in ref.METHODS:
            for kind in (0, 1, 2):
                for N in (2, 3, 6) + ((12,) if tier == "thorough" else ()):
                    yield {"sys": name, "method": method, "kind": kind, "N": N}
            yield {"sys": name, "method": method, "kind": 0, "N": 60 if name == "L96" else 400}


def run_parts(p, rec):
    N = p["N"]
    sets = [list(range(1, N, max(2, N // 9)))] if N > 50 else [[0], [N - 1], list(range(N)), [N // 2]] if p["sys"] in ("L63", "L96") else subsets(
        range(N), 1)
    if N == 6:
        sets = list(sets) + [[2, 2], [0, 3, 3, 3], [1, 4, 1]]
    for obs in sets:
        for dt in (0.05, 0.2):
            prob = Problem(p["sys"], p["method"], N, dt, obs, p["kind"])
            for k in range(2):
                A, b = prob.params(k)
                want = prob.reference(A, b)
                x = prob.flat(A, b)
                x0 = x.copy()
                f = prob.vgp.free_energy(x)
                label = f"{p['sys']} obs={obs} dt={dt}"
                value(rec, label, prob, x, want, f)
                parts = prob.parts(A, b)
                rec.close(label + " sum of the real parts", f, sum(parts), 1e-10,
                          scale=sum(abs(v) for v in parts))
                rec.same(label + " parameter vector", x, x0)
                check_outputs(rec, label, prob, want, prob.vgp.arg_out)
                m0, s0 = prob.start()
                rec.same(label + " stored m0", prob.vgp.arg_out["m0"], m0)
                rec.same(label + " stored s0", prob.vgp.arg_out["s0"], s0)
                rec.array_state(x, np.array([dt]), want["m"], want["S"])
                rec.step(2)
                rec.trace()


OPS = ["f0", "f1", "f2", "g0", "g1", "g2"]


def gen_history(tier):
    for name in SYSTEMS:
        depth = (3 if name not in ("L63", "L96") else 2) + (1 if tier == "thorough" else 0)
        for method in ref.METHODS:
            for seq in itertools.product(OPS, repeat=depth):
                if tier == "quick" and method != "euler" and depth == 3 and len(set(seq)) < 2:
                    continue
                yield {"sys": name, "method": method, "seq": list(seq)}


def run_history(p, rec):
    prob = Problem(p["sys"], p["method"])
    table = fixed(p["sys"], p["method"], 0)
    for n, op in enumerate(p["seq"]):
        (A, b), want = table[int(op[1])]
        x = prob.flat(A, b)
        x.setflags(write=False)
        label = f"{p['sys']} {' '.join(p['seq'][:n + 1])}"
        if op[0] == "f":
            value(rec, label, prob, x, want, prob.vgp.free_energy(x))
        else:
            g = prob.vgp.gradient(x, eval_fun=True)
            w = prob.flat(want["gA"], want["gb"])
            rec.close(label, g, w, 1e-7, scale=np.abs(w).max() + 1e-3)
        check_outputs(rec, label, prob, want, prob.vgp.arg_out)
        rec.state((p["sys"], p["method"], tuple(p["seq"][:n + 1])))
        rec.step()
    rec.trace()


def gen_two(tier):
    """Two objects that share the model, the likelihood and the prior do not influence each other."""
    for name in SYSTEMS:
        for method in ref.METHODS:
            for seq in itertools.product(["a0", "a1", "b0", "b1"], repeat=3):
                if len(set(s[0] for s in seq)) == 2 and (name not in ("L96", "L63") or method == "euler"):
                    yield {"sys": name, "method": method, "seq": list(seq)}


def run_two(p, rec):
    prob = Problem(p["sys"], p["method"])
    objs = {"a": prob.vgp, "b": prob.make()}
    last = {}
    table = fixed(p["sys"], p["method"], 0)
    for op in p["seq"]:
        (A, b), want = table[int(op[1])]
        value(rec, f"{p['sys']} {op}", prob, None, want, objs[op[0]].free_energy(prob.flat(A, b)))
        last[op[0]] = want
        for k, w in last.items():
            check_outputs(rec, f"object {k} after {op}", prob, w, objs[k].arg_out)
        rec.step()
    rec.state((p["sys"], p["method"], tuple(p["seq"])))
    rec.trace()


UPD = ["f0", "f1", "g0", "sigma", "theta", "obs", "model"]


def gen_update(tier):
    """Settings of the components change between evaluations: the settings in force count."""
    n = 4 if tier == "thorough" else 3
    for name in ("OU", "DW", "L63", "LIN2"):
        for method in ref.METHODS if name != "L63" else ("euler", "rk4"):
            for seq in itertools.product(UPD, repeat=n):
                if seq[-1] in ("f0", "f1", "g0") and len(set(seq) - {"f0", "f1", "g0"}):
                    yield {"sys": name, "method": method, "seq": list(seq)}


def run_update(p, rec):
    name = p["sys"]
    prob = Problem(name, p["method"])
    like = prob.vgp.likelihood
    n = {"sigma": 0, "theta": 0, "obs": 0}
    for op in p["seq"]:
        if op == "sigma":
            n[op] += 1
            new = prob.sig * (1.0 + 0.5 * n[op])
            other = Problem(name, p["method"], sigma=new)
            prob.Sigma, prob.isig = other.Sigma, other.isig
            if name == "LIN2":
                prob.model._sigma = other.Sigma
                prob.model.sig_inv = np.linalg.inv(other.Sigma)
            else:
                prob.model.sigma = float(new) if prob.single else other.Sigma.copy()
        elif op == "theta":
            if name == "LIN2":
                continue
            n[op] += 1
            t = np.asarray(prob.theta, float) * (1.0 + 0.25 * n[op])
            prob.model.theta = float(t) if prob.single else t
            prob.point = sy.point_fun(name, float(t) if prob.single else t)
        elif op == "obs":
            n[op] += 1
            prob.R = Problem(name, p["method"]).R * (1.0 + 0.7 * n[op])
            like.noise = float(prob.R[0, 0]) if prob.single else prob.R.copy()
        elif op == "model":
            prob.model.sample_path = np.array(prob.model.sample_path) + 1.0     # not used by the energy
        else:
            A, b = prob.params(int(op[1]))
            want = prob.reference(A, b)
            label = f"{name} {' '.join(p['seq'])}"
            if op[0] == "f":
                value(rec, label, prob, None, want, prob.vgp.free_energy(prob.flat(A, b)))
                check_outputs(rec, label, prob, want, prob.vgp.arg_out)
            else:
                w = prob.flat(want["gA"], want["gb"])
                rec.close(label, prob.vgp.gradient(prob.flat(A, b), eval_fun=True), w, 1e-7,
                          scale=np.abs(w).max() + 1e-3)
        rec.step()
        rec.state((name, p["method"], op, tuple(n.values())))
    rec.trace()


def gen_nan(tier):
    for name in SYSTEMS:
        for method in ref.METHODS:
            for which in ("A", "b"):
                for t in range(5):
                    yield {"sys": name, "method": method, "which": which, "t": t}


def run_nan(p, rec):
    """A parameter that is not a number never yields a finite free energy, with or without history."""
    d = Problem(p["sys"], p["method"]).d
    for i in range(d * d if p["which"] == "A" and d <= 3 else d):
        for history in (0, 1):
            prob = Problem(p["sys"], p["method"], obs=(0, 4))
            A, b = (v.copy() for v in prob.params(0))
            if history:
                prob.vgp.free_energy(prob.flat(A, b))
            (A if p["which"] == "A" else b)[p["t"]].flat[i] = np.nan
            parts = ()
            try:
                parts = prob.parts(A, b)
            except (ValueError, ArithmeticError, np.linalg.LinAlgError):
                pass
            try:
                f = prob.vgp.free_energy(prob.flat(A, b))
            except (ValueError, ArithmeticError, np.linalg.LinAlgError):
                rec.outcome("refused")
                f = np.nan
            else:
                rec.outcome("nan" if np.isnan(f) else "finite")
                rec.check(np.isnan(f) == np.isnan(sum(parts)) and len(parts),
                          f"{p['sys']} {p['which']}[{p['t']}].flat[{i}] = nan: free energy {f}, "
                          f"parts {parts}")
            if parts and np.isfinite(sum(parts)):
                rec.close("value", f, sum(parts), 1e-10, scale=sum(map(abs, parts)))
            rec.step()
            rec.trace()
        rec.state((p["sys"], p["method"], p["which"], p["t"], i))


PARTS = ["x", "m0", "S0", "R", "y", "mu", "tau"]


def gen_layout(tier):
    for name in SYSTEMS:
        for method in ref.METHODS:
            for lay in sy.LAYOUTS:
                for part in PARTS + ["all"]:
                    yield {"sys": name, "method": method, "layout": lay, "part": part}


def laid_out(p):
    """A problem some of whose constants, or whose argument, have another memory layout or number type."""
    prob = Problem(p["sys"], p["method"], kind=1)
    d = prob.d
    if p["layout"] == "int":
        prob.tau, prob.R = (prob.tau + np.eye(d)) * 2, (prob.R + np.eye(d)) * 2
        prob.S0 = prob.S0 + np.eye(d)
    for part in PARTS[1:]:
        if p["part"] in (part, "all"):
            v = sy.lay_out(getattr(prob, part), p["layout"])
            if p["layout"] == "float32":
                v = v.astype(np.float32)
            setattr(prob, part, v)
    prob.vgp = prob.make()
    A, b = prob.params(1)
    x = prob.flat(A, b)
    if p["part"] in ("x", "all"):
        x = sy.lay_out(x, p["layout"])
        A, b = np.asarray(x[:A.size], float).reshape(A.shape), np.asarray(x[A.size:], float).reshape(b.shape)
    for part in PARTS[1:]:
        setattr(prob, part, np.asarray(getattr(prob, part), float))
    return prob, A, b, x, 1e-4 if p["layout"] == "float32" else 1e-8


def run_layout(p, rec):
    prob, A, b, x, rtol = laid_out(p)
    was = np.array(x, copy=True)
    want = prob.reference(A, b)
    f = prob.vgp.free_energy(x)
    rec.close(f"{p}", float(np.asarray(f).reshape(())), want["F"], rtol, scale=abs(want["E0"]) + abs(want["Esde"])
              + abs(want["Eobs"]))
    rec.same(f"{p} parameter vector", x, was)
    rec.state(str(p))
    rec.step()
    rec.trace()


def gen_almost(tier):
    for name in SYSTEMS:
        for method in ref.METHODS:
            for c in almost.cases(A=almost.MATRICES, b=almost.VECTORS, m0=["same"], S0=["same", "diag", "iso"]):
                if name == "L96" and c["e"] in (1e-3, 1e-5, 1e-7):
                    continue
                yield dict(c, sys=name, method=method)


def almost_special(p):
    """A problem whose parameters or initial moments are almost special, and its parameters."""
    prob = Problem(p["sys"], p["method"], N=6, obs=(1, 4))
    e, N, d = p["e"], prob.N, prob.d
    A, b = prob.params(0)
    if "A" in p:
        A = almost.matrices(p["A"], e, N, d)
    if "b" in p:
        b = almost.vectors(p["b"], e, N, d, 2)
    if "m0" in p:
        prob.m0 = prob.mu + e * ref.wave(d, seed=8)
    if "S0" in p:
        w = e * ref.wave(d, d, seed=9)
        prob.S0 = prob.tau + 0.5 * (w + w.T) if p["S0"] == "same" else almost.covariances(p["S0"], e, 1, d, 3)[0]
    prob.vgp = prob.make()
    return prob, A, b


def run_almost(p, rec):
    prob, A, b = almost_special(p)
    want = prob.reference(A, b)
    value(rec, f"{p}", prob, None, want, prob.vgp.free_energy(prob.flat(A, b)))
    check_outputs(rec, f"{p}", prob, want, prob.vgp.arg_out)
    rec.state(str(p))
    rec.step()
    rec.trace()


FAMILIES = [
    Family("almost", gen_almost, run_almost, "inputs exactly or almost (by 1e-2 .. 1e-7) constant, repeated, diagonal, symmetric, isotropic, equal or zero, each "
           "alone and together"),
    Family("parts", gen_parts, run_parts, "8 systems x 4 schemes x N=2,3,6 (12), 400 (L96: 60) x observation subsets "
           "(all for scalar/linear systems) x 2 steps x 2 parameter vectors"),
    Family("history", gen_history, run_history, "all sequences of 6 operations, length 3 (4); Lorenz "
           "systems length 2 (3)"),
    Family("two", gen_two, run_two, "all mixed sequences of 3 evaluations on two objects that share "
           "their components"),
    Family("update", gen_update, run_update, "all sequences of 3 (4) of evaluations and changes of system "
           "noise, drift parameter, observation noise and path, ending in an evaluation"),
    Family("layout", gen_layout, run_layout, "8 systems x 4 schemes x 7 memory layouts and types of the argument, the "
           "initial state, the noise, the observations, the prior, or all of them"),
    Family("nan", gen_nan, run_nan, "8 systems x 4 schemes x each single entry of A or b at each of 5 "
           "times not a number (L96: first row of A only)"),
]
