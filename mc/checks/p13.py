"""P13: the optimizer and the stateful objective stay in step."""
import contextlib
import io
import itertools
import re

import numpy as np

from mc import ref
from mc import simrun as sr
from mc.pipeline import Problem
from mc.core import CaseFailed, Family, Chooser, explore_choices
from src.numerics.optim_scg import SCG

ID = "P13"
RULE = ("(a) the optimizer against a stateful objective whose gradient belongs to the last evaluated "
        "point, for every sequence of trial outcomes up to the bound; (b) complete smoothing runs in "
        "which every bounded subset of trial points is made to look worse or NaN and the optimizer is "
        "stopped after every number of iterations; the reported results are recomputed from the "
        "reported parameters by the reference model")
ASSUMPTIONS = ["Lorenz-96 expectations and multipliers are the sigma-point estimates (P06)"]


# ---- the protocol alone

class Stateful:
    """Remembers only the last evaluated point, like the variational objective."""

    def __init__(self, n, chooser, steep=1.0):
        self.n, self.ch, self.steep = n, chooser, steep
        self.state = None
        self.values = {}
        self.best = None
        self.errors = []
        self.trail = []

    def value(self, x):
        k = np.array(x, float).tobytes()
        if k not in self.values:
            kind = 0 if not self.values else self.ch.choose(4)
            b = 1.0 if self.best is None else self.best
            self.values[k] = [b - 1.0, b + 1.0, float("nan"), b][kind]
            if kind == 0:
                self.best = b - 1.0
            self.trail.append("better worse nan equal".split()[kind])
        self.state = np.array(x, float)
        return self.values[k]

    def gradient(self, x, eval_fun=False):
        x = np.array(x, float)
        if eval_fun:
            self.value_quiet(x)
        if self.state is None or self.state.tobytes() != x.tobytes():
            self.errors.append(f"gradient asked at {x} while the objective holds {self.state}")
        # The gradient of the state, as the real objective would give it.
        s = self.state if self.state is not None else x
        return self.steep * (np.arange(1, self.n + 1) * s + 0.3)

    def value_quiet(self, x):
        self.state = x


def gen_protocol(tier):
    for n, nit in ((1, 1), (1, 4), (2, 3), (2, 6), (3, 5), (5, 8)) + (((3, 12),) if tier != "quick" else ()):
        for tol in ((1e-6, 1e-8), (1e3, 1e-8), (1e3, 10.0)):
            yield {"n": n, "it": nit, "tol": list(tol), "steep": 1.0}
    # From almost flat (enormous steps) to almost vertical (vanishing steps).
    for steep in (1e-6, 1e-3, 1e4, 1e8, 1e14):
        for n, nit in ((1, 4), (2, 6), (3, 5)):
            yield {"n": n, "it": nit, "tol": [1e-6, 1e-8], "steep": steep}


def run_protocol(p, rec):
    def execute(ch):
        env = Stateful(p["n"], ch, p["steep"])
        opt = SCG(env.value, env.gradient, {"max_it": p["it"], "x_tol": p["tol"][0], "f_tol": p["tol"][1]})
        x, fx = opt(ref.wave(p["n"], seed=3, amp=2.0))
        label = f"steepness {p['steep']:g} " + " ".join(env.trail)
        rec.check(not env.errors, lambda: f"{label}: {env.errors[0]}")
        v = env.values.get(np.array(x, float).tobytes())
        rec.check(v is not None and (v == fx), f"{label}: returned ({x}, {fx}), value there is {v}")
        rec.state((p["n"], p["it"], tuple(p["tol"]), p["steep"], tuple(env.trail)))
        rec.step(len(env.trail))
        rec.trace()
        if len(rec.failures) > 3:
            raise CaseFailed("stopping after several failures")
    for _ in explore_choices(execute, p["it"]):     # every sequence of outcomes
        pass


# ---- complete runs

def make(p):
    big = p["sys"] in ("L63", "L96")
    N = 4 if p["sys"] == "L96" else 6
    dt = 0.01 if big else 0.05
    params = sr.parameters(p["sys"], p["method"], 0.0, dt * (N - 1), dt, theta=p.get("theta"))
    d = sr.dims(p["sys"])
    obs_t = [1, 2] if N == 4 else [1, 4]
    base = {"OU": 0.0, "DW": 1.0, "L63": np.array([-8.0, -9.0, 25.0]), "L96": 2.0}[p["sys"]]
    y = base + ref.wave(len(obs_t), d, seed=4, amp=0.5)
    return params, obs_t, (y.ravel() if d == 1 else y)


def gen_runs(tier):
    deep = tier == "thorough"
    for name in ("OU", "DW", "L63", "L96"):
        for method in ("Euler", "HEUN", "rk2", "RK4"):
            if name == "L96":
                its = (1, 2, 3) if deep else (1, 2)
            else:
                its = (1, 2, 3, 4, 5, 7) if deep else (1, 2, 3, 4)
            for it in its:
                worst = 3 if deep and name != "L96" else 2
                for r in range(0, worst + 1):
                    if name == "L96" and r > 1:
                        continue
                    for bad in itertools.combinations(range(1, it + 1), r):
                        for kind in ("up", "nan") if r else ("up",):
                            yield {"sys": name, "method": method, "it": it, "worse": list(bad), "kind": kind}


def run_runs(p, rec):
    params, obs_t, y = make(p)
    mon = sr.Monitor({i: p["kind"] for i in p["worse"]})
    sim, mon = sr.run(params, (obs_t, y), p["it"], mon)
    label = f"{p['sys']} {p['method']} stopped after {p['it']}, rejected {p['worse']}"
    rec.check(not mon.errors, lambda: f"{label}: {mon.errors[0]}")
    out = sim.output
    x = np.concatenate((np.ravel(out["at"]), np.ravel(out["bt"])))
    k = x.tobytes()
    if rec.check(k in mon.index, f"{label}: the reported parameters were never evaluated"):
        rec.check(mon.index[k] not in p["worse"], f"{label}: a rejected point is reported")
    sr.check_output(rec, label, params, obs_t, y, out)
    n = len(np.ravel(out["bt"])) // sr.dims(p["sys"])
    d = sr.dims(p["sys"])
    rec.check(np.shape(out["at"]) == ((n,) if d == 1 else (n, d, d)), f"{label}: shape of at")
    rec.check(np.shape(out["bt"]) == ((n,) if d == 1 else (n, d)), f"{label}: shape of bt")
    rec.outcome(f"last evaluated is {'the reported' if len(mon.points) - 1 == mon.index.get(k) else 'another'} point")
    rec.array_state(x[:2000])
    rec.step(len(mon.points) + mon.grads)
    rec.trace()


def gen_natural(tier):
    """Unperturbed runs with sampled observations, every iteration limit."""
    for name in ("OU", "DW", "L63"):
        for method in ("Euler", "Heun", "RK2", "RK4"):
            for seed in (0, 1, 2) + ((3, 4, 5, 6) if tier == "thorough" else ()):
                for it in list(range(1, 13)) + [None if name != "L63" else 20]:
                    yield {"sys": name, "method": method, "seed": seed, "it": it}


def run_natural(p, rec):
    big = p["sys"] == "L63"
    tf, dt = (0.1, 0.01) if big else (0.6, 0.05)
    params = sr.parameters(p["sys"], p["method"], 0.0, tf, dt, 30 if big else 5, p["seed"])
    sim, mon = sr.run(params, None, p["it"])
    label = f"{p['sys']} {p['method']} seed {p['seed']} limit {p['it']}"
    rec.check(not mon.errors, lambda: f"{label}: {mon.errors[0]}")
    sr.check_output(rec, label, params, sim.m_data["obs_t"], sim.m_data["obs_y"], sim.output)
    rec.array_state(np.ravel(sim.output["bt"]))
    rec.outcome("limit" if p["it"] is not None else "free")
    rec.step(len(mon.points) + mon.grads)
    rec.trace()


def gen_again(tier):
    """One simulation object: set up and run, then run again or set up anew and run, with other limits and data."""
    its = (1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 6)
    for name in ("OU", "DW", "L63"):
        for method in ("Euler", "RK4") if tier == "quick" else ("Euler", "Heun", "RK2", "RK4"):
            for i, j in itertools.product(its, repeat=2):
                for way in ("run", "setup", "longer", "other"):
                    for bad in ((), (1,)):
                        yield {"sys": name, "method": method, "it": [i, j], "way": way, "worse": list(bad)}


def run_again(p, rec):
    params, obs_t, y = make(p)
    sim = sr.Simulation("again")
    sim.setup(params, (obs_t, y))
    for n, it in enumerate(p["it"]):
        if n and p["way"] != "run":
            if p["way"] == "longer":
                params = {**params, "Time-window": {**params["Time-window"], "tf": 1.4 * params["Time-window"]["tf"]}}
            elif p["way"] == "other":
                params = {**params, "Noise": {k: 1.7 * v for k, v in params["Noise"].items()}, "Random-Seed": 8}
                y = y + 0.3
            sim.setup(params, (obs_t, y))
        mon = sr.Monitor({i: "up" for i in p["worse"]})
        with sr.limited(it), mon.patch():
            sim.run()
        label = f"{p['sys']} {p['method']} run {n} of {p['it']} ({p['way']}), rejected {p['worse']}"
        rec.check(not mon.errors, lambda: f"{label}: {mon.errors[0]}")
        x = np.concatenate((np.ravel(sim.output["at"]), np.ravel(sim.output["bt"])))
        rec.check(mon.index.get(x.tobytes(), 10 ** 9) not in p["worse"], f"{label}: a rejected point is reported")
        rec.check(x.tobytes() in mon.index, f"{label}: the reported parameters were never evaluated in this run")
        sr.check_output(rec, label, params, obs_t, y, sim.output)
        rec.step(len(mon.points) + mon.grads)
        rec.array_state(x)
    rec.trace()


# ---- the optimizer's own gradient test

STEEP = {"flat": 1e-3, "plain": 1.0, "steep": 1e5}
PLACES = ["value here", "value there", "gradient here", "gradient there", "test here", "test there", "optimise"]


def gen_gradtest(tier):
    depth = 3 if tier == "quick" else 4
    for name in (*STEEP, "OU", "DW", "L63", "LIN2"):
        for method in ("Euler",) if name in STEEP else ("Euler", "Heun", "RK2", "RK4"):
            for first in PLACES:
                if name in ("L63", "LIN2") and tier == "quick" and method in ("Heun", "RK2"):
                    continue
                yield {"on": name, "method": method, "first": first,
                       "depth": depth if name in STEEP else depth - 1}


class Plain:
    """The stateful objective, without choices: a quadratic with the gradient of the point it holds."""

    def __init__(self, steep=1.0):
        self.held, self.steep = None, steep
        self.points = [ref.wave(3, seed=1), ref.wave(3, seed=2)]

    def value(self, x):
        self.held = np.array(x, float)
        return self.steep * float(np.sum((np.arange(1, 4) * self.held + 0.6) * self.held) / 2.0)

    def gradient(self, x, eval_fun=False):
        if eval_fun:
            self.value(x)
        return self.steep * (np.arange(1, 4) * self.held + 0.3)


class OnSystem:
    def __init__(self, name, method):
        self.p = Problem(name, method, 4, 0.01 if name == "L63" else 0.05, (1, 2))
        self.points = [self.p.flat(*self.p.params(j)) for j in (0, 1)]
        self.value, self.gradient = self.p.vgp.free_energy, self.p.vgp.gradient


def distance(on, x):
    """Relative and per-variable distance of gradient and differences at x."""
    g = np.array(on.gradient(np.array(x), eval_fun=True))
    h = 1e-6
    n = np.array([(on.value(x + h * e) - on.value(x - h * e)) / (2.0 * h) for e in np.eye(x.size)])
    off = np.linalg.norm(g - n)
    return off / (np.linalg.norm(g) + np.linalg.norm(n)), off / x.size


def run_gradtest(p, rec):
    """The gradient at the point asked for is what is tested, whatever was evaluated before."""
    on = Plain(STEEP[p["on"]]) if p["on"] in STEEP else OnSystem(p["on"], p["method"])
    want = [distance(on, x) for x in on.points]
    for rest in itertools.product(PLACES, repeat=p["depth"] - 1):
        on = Plain(STEEP[p["on"]]) if p["on"] in STEEP else OnSystem(p["on"], p["method"])
        opt = SCG(on.value, on.gradient, {"max_it": 2, "x_tol": 1e-6, "f_tol": 1e-8, "display": False})
        here, there = on.points
        seq = (p["first"],) + rest
        label = f"{p['on']} {p['method']}: {', '.join(seq)}"
        for op in seq:
            x = np.array(there if op.endswith("there") else here)
            keep = x.copy()
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                if op.startswith("value"):
                    on.value(x)
                elif op.startswith("gradient"):
                    on.gradient(x, eval_fun=True)
                elif op.startswith("test"):
                    opt.check_gradient_function(x)
                else:
                    opt(x)
            if op.startswith("test"):
                rel, off = want[op.endswith("there")]
                text = text.getvalue()
                said = [w for w in ("PASSED", "FAILED") if w in text]
                if not 0.99e-4 < off < 1.01e-4:
                    rec.check(said == (["PASSED"] if off <= 1e-4 else ["FAILED"]),
                              f"{label}: the gradient is {off:.3g} per variable off, reported {said}")
                told = re.findall(r"[Rr]elative difference\D*([0-9.]+(?:[eE][-+]?[0-9]+)?)", text)
                if rec.check(len(told) == 1, f"{label}: no relative difference in {text!r}"):
                    rec.close(f"{label}: relative difference", float(told[0].rstrip(".")), rel, 2e-3, atol=1e-5)
                rec.outcome(said[0] if said else "none")
                rec.same(f"{label}: the point tested", x, keep)
            rec.step()
        rec.state((p["on"], p["method"], seq))
        rec.trace()
        if rec.failures:
            return


FAMILIES = [
    Family("protocol", gen_protocol, run_protocol, "all sequences of better/worse/nan/equal trial "
           "outcomes for (n, max_it) up to (5,8), three tolerance settings, "
           "gradient scales 1e-6 to 1e14"),
    Family("runs", gen_runs, run_runs, "4 systems x 4 schemes x stop after 1..4 (7) iterations x all "
           "subsets of <=2 (3) rejected trials x 2 kinds; Lorenz-96 <=2 (3) iterations and <=1 rejection"),
    Family("natural", gen_natural, run_natural, "3 systems x 4 schemes x 3 (7) seeds x stop after "
           "1..12 iterations or never"),
    Family("again", gen_again, run_again, "3 systems x 2 (4) schemes: one object run twice, with every pair of "
           "iteration limits, without or with a new set-up (same, longer window, other noise and data)"),
    Family("gradtest", gen_gradtest, run_gradtest, "all sequences of 3 (4) of 7 operations (value, gradient, gradient "
           "test here or elsewhere, optimise) on 3 stateful objectives, of 2 (3) on 4 systems x 2-4 schemes"),
]
