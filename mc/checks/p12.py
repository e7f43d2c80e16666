"""P12: the scaled conjugate gradient optimizer in a nondeterministic environment.

The objective is the environment: at every point it has not seen before it may answer with any value
and any gradient of a small alphabet (better, equal, worse, NaN, infinite; generic, repeated,
reversed, zero, huge, NaN; positive, zero and negative curvature). All answer sequences with a bounded
number of departures from the default are explored on the real optimizer, and every run is compared
with an independently written reference of the published iteration that is given the same answers.
"""
import contextlib
import io
import itertools
import re

import numpy as np

from mc import ref
from mc.core import CaseFailed, Chooser, Family, explore_choices
from src.numerics.optim_scg import SCG

ID = "P12"
RULE = ("a case fixes dimension, iteration limit and the first departure from the default answers; "
        "the run explores every further departure up to the bound, each execution replayed "
        "against the reference iteration")
ASSUMPTIONS = ["answers come from a finite alphabet", "points are compared to 1e-7 relative"]

EPS = np.finfo(float).eps


def reference(f, df, dfp, x0, nit, x_tol, f_tol):
    """Scaled conjugate gradients (Moller; NETLAB). Returns x, fx, iterations, values held, reason."""
    x = np.array(x0, float)
    n = x.size
    fx, g = f(x), df(x)
    g_old = g
    d = -g
    success, n_success, beta = True, 0, 1.0
    mu = kappa = theta = 0.0
    held = []
    for j in range(1, nit + 1):
        if success:
            mu = d @ g
            if mu >= 0:
                d = -g
                mu = d @ g
            kappa = d @ d
            if kappa < EPS:
                return x, fx, j, held, "kappa"
            sigma = 1.0e-3 / np.sqrt(kappa)
            theta = (d @ (dfp(x + sigma * d) - g)) / sigma
        curv = theta + beta * kappa
        if curv <= 0:
            curv = beta * kappa
            beta = beta - theta / kappa
        alpha = -mu / curv
        x_new = x + alpha * d
        f_new = f(x_new)
        ratio = 2.0 * (f_new - fx) / (alpha * mu)
        success = bool(ratio >= 0)
        if success:
            n_success += 1
            x = x_new
            held.append(f_new)
            if np.max(np.abs(alpha * d)) <= x_tol and abs(f_new - fx) <= f_tol:
                return x, f_new, j, held, "tolerance"
            fx, g_old = f_new, g
            g = df(x)
            if np.isclose(g @ g, 0.0):
                return x, fx, j, held, "gradient"
        else:
            held.append(fx)
        if ratio < 0.25:
            beta = min(4.0 * beta, 1.0e100)
        if ratio > 0.75:
            beta = max(0.5 * beta, 1.0e-15)
        if n_success == n:
            d = -g
            n_success = 0
        elif success:
            d = np.maximum((g_old - g) @ g / mu, 0.0) * d - g
    return x, fx, nit, held, "limit"


def key(x):
    x = np.asarray(x, float) + 0.0
    return np.where(np.isnan(x), np.nan, x).tobytes()


NEAR = 1e-9


def find(x, points):
    """Index of the first point equal to x up to rounding, or None.

    The iteration can reach one point in two ways (a step taken with the curvature corrected by hand and the
    same step after the correction was stored); whether the two agree to the last bit is not the
    algorithm's business, so points this close are one point, with one answer.
    """
    if not points or not np.all(np.isfinite(x)):
        return None
    tab = np.array(points)
    hit = np.flatnonzero(np.abs(tab - x).max(axis=1) <= NEAR * (np.abs(x).max() + 1.0))
    return int(hit[0]) if hit.size else None


class Env:
    """Chooses an answer once per distinct point; remembers the order of first visits."""
    FIRST = ["1", "nan", "inf", "0"]
    VALUES = ["better", "worse", "equal", "nan", "slightly", "barely", "inf", "tiny", "-inf"]
    GRADS = ["generic", "same", "reversed", "zero", "tiny", "huge", "nan", "orthogonal"]
    CURVES = ["convex", "flat", "concave", "mild", "nan", "very convex", "stiff"]

    def __init__(self, n, chooser):
        self.n, self.ch = n, chooser
        self.points, self.index = [], {}
        self.values, self.grads, self.curves = {}, {}, {}
        self.best = None
        self.prev = None
        self.trail = []

    def at(self, x):
        k = key(x)
        if k not in self.index:
            flat = np.array(x, float).ravel()
            i = find(flat, self.points)
            if i is None:
                i = len(self.points)
                self.points.append(flat)
            self.index[k] = i
        return self.index[k]

    def value(self, i):
        if i not in self.values:
            if not self.values:
                kind = self.FIRST[self.ch.choose(len(self.FIRST))]
                v = float(kind)
            else:
                kind = self.VALUES[self.ch.choose(len(self.VALUES))]
                b = self.best
                v = {"better": b - 1.0, "worse": b + 1.0, "equal": b, "nan": np.nan,
                     "slightly": b - 0.217, "barely": b - 0.0213, "inf": np.inf, "tiny": b - 1e-9,
                     "-inf": -np.inf}[kind]
            self.values[i] = v
            if np.isfinite(v) and (self.best is None or v < self.best):
                self.best = v
            if self.best is None:
                self.best = 1.0
            self.trail.append("f:" + kind)
        return self.values[i]

    def gradient(self, i):
        if i not in self.grads:
            generic = ref.wave(self.n, seed=len(self.grads) + 1) + 0.1
            generic = generic / np.linalg.norm(generic) * 1.013
            prev = generic if self.prev is None else self.prev
            kind = self.GRADS[self.ch.choose(len(self.GRADS))]
            g = {"generic": generic, "same": prev.copy(), "reversed": -0.7 * prev,
                 "zero": np.zeros(self.n), "tiny": 1e-9 * generic, "huge": 1e6 * generic,
                 "nan": np.full(self.n, np.nan), "orthogonal": np.roll(prev, 1) * 1.1}[kind]
            self.grads[i] = g
            self.prev = g
            self.trail.append("g:" + kind)
        return self.grads[i].copy()

    def curve(self, i):
        if i not in self.curves:
            p = np.zeros(self.n) if self.prev is None else self.prev
            kind = self.CURVES[self.ch.choose(len(self.CURVES))]
            self.curves[i] = {"convex": 0.9983 * p, "flat": p.copy(), "concave": 1.0037 * p,
                              "mild": 1.00031 * p, "nan": np.full(self.n, np.nan),
                              "very convex": -3.0 * p,
                              "stiff": -1e9 * p}[kind]
            self.trail.append("c:" + kind)
        return self.curves[i].copy()


class Replay:
    """Answers the reference by order of first visit; the points must be those of the optimizer."""

    def __init__(self, env):
        self.env, self.index, self.count = env, {}, 0
        self.points = []

    def at(self, x):
        k = key(x)
        if k not in self.index:
            i = find(x, self.points)
            if i is not None:
                self.index[k] = i
                return i
            i = self.count
            self.count += 1
            self.index[k] = i
            self.points.append(np.array(x, float))
            if i >= len(self.env.points):
                raise CaseFailed(f"the iteration visits a {i + 1}th point {x}; the optimizer stopped after "
                                 f"{len(self.env.points)}")
            p = self.env.points[i]
            nan = np.isnan(p)
            scale = np.abs(x[~np.isnan(x)]).max(initial=0.0) + 1e-9
            if p.shape != np.shape(x) or not np.array_equal(nan, np.isnan(x)) or not np.all(
                    np.abs(p[~nan] - x[~nan]) <= 1e-7 * scale):
                raise CaseFailed(f"point {i}: optimizer visits {p}, the iteration visits {x}")
        return self.index[k]

    def get(self, table, i, what):
        if i not in table:
            raise CaseFailed(f"the iteration needs the {what} at point {i}, the optimizer never asked")
        return table[i]

    def f(self, x):
        return self.get(self.env.values, self.at(x), "value")

    def df(self, x):
        return self.get(self.env.grads, self.at(x), "gradient").copy()

    def dfp(self, x):
        return self.get(self.env.curves, self.at(x), "curvature gradient").copy()


def one(rec, n, nit, chooser, x_tol, f_tol, scg=None, scg_env=None, x0=None):
    env = Env(n, chooser)
    calls = []

    def f(x, *a):
        calls.append("f")
        if len(calls) > 50 * (nit + 2):
            raise CaseFailed("more than 50 evaluations per iteration")
        return env.value(env.at(x))

    def df(x, *a, eval_fun=False, **kw):
        calls.append("p" if eval_fun else "d")
        return env.curve(env.at(x)) if eval_fun else env.gradient(env.at(x))

    x0 = ref.wave(n, seed=3, amp=2.0) if x0 is None else x0
    start = x0.copy()
    if scg is None:
        opt = SCG(f, df, {"max_it": nit, "x_tol": x_tol, "f_tol": f_tol})
    else:
        opt = scg
        scg_env.update(f=f, df=df)
    x, fx = opt(x0)
    label = " ".join(env.trail[:30]) + (" ..." if len(env.trail) > 30 else "")
    rec.same(f"{label}: start vector", x0, start)
    # Whatever happened: a point that was evaluated, with its own value, not worse than the start.
    k = key(np.ravel(x))
    if rec.check(k in env.index and env.index[k] in env.values,
                 f"{label}: returned {x}, which was never evaluated"):
        v = env.values[env.index[k]]
        rec.check(v == fx or (np.isnan(v) and np.isnan(fx)),
                  f"{label}: returned value {fx}, the point has {v}")
    f0 = env.values[0]
    rec.check(not fx > f0 and (np.isnan(f0) or not np.isnan(fx)),
              f"{label}: returned value {fx}, started from {f0}")
    rp = Replay(env)
    try:
        wx, wf, its, held, why = reference(rp.f, rp.df, rp.dfp, start.ravel(), nit, x_tol, f_tol)
    except CaseFailed as e:
        rec.fail(f"{label}: {e}")
        return env
    rec.check(rp.count == len(env.points),
              f"{label}: optimizer visits {len(env.points)} points, the iteration {rp.count} (ends: {why})")
    rec.check(rp.index.get(key(wx)) == env.index.get(k), f"{label}: returned {x}, expected {wx} ({why})")
    st = opt.statistics
    probes = len([c for c in calls if c == "p"])
    made = len([c for c in calls if c == "f"]) + probes, len([c for c in calls if c != "f"])
    rec.check((st["f_eval"], st["df_eval"]) == made, f"{label}: reports {st['f_eval']} and {st['df_eval']} "
              f"evaluations of objective and gradient, the run made {made}")
    rec.check(not np.any(np.asarray(st["fx"], float)[its:]) and not np.any(np.asarray(st["dfx"], float)[its:]),
              f"{label}: records values after the {its} iterations of the run")
    rec.check(int(st["MaxIt"]) == its, f"{label}: reports {st['MaxIt']} iterations, used {its} ({why})")
    got = np.asarray(st["fx"], float)[:len(held)]
    rec.check(np.array_equal(got, np.array(held), equal_nan=True),
              f"{label}: recorded values {got}, held {held}")
    rec.check(its <= nit, f"{label}: more iterations than allowed")
    rec.outcome(why)
    rec.state((n, nit, tuple(env.trail)))
    rec.step(len(env.trail))
    rec.trace()
    return env


def default_points(n, nit, x_tol, f_tol):
    """Choice points of the default run, from the reference alone."""
    ch = Chooser()
    env = Env(n, ch)
    reference(lambda x: env.value(env.at(x)), lambda x: env.gradient(env.at(x)),
              lambda x: env.curve(env.at(x)), ref.wave(n, seed=3, amp=2.0), nit, x_tol, f_tol)
    return ch.points


CONFIGS = [(1, 4), (2, 4), (2, 6), (3, 5), (1, 1), (2, 0)]


def gen_env(tier):
    deep = tier == "thorough"
    for n, nit in CONFIGS + ([(2, 9), (4, 8), (5, 7)] if deep else []):
        for x_tol, f_tol in ((1e-6, 1e-8), (1e3, 0.5)):
            bound = (3 if (n, nit) in ((2, 4), (1, 4), (2, 0), (1, 1)) else 2) + (1 if deep and nit <= 4 else 0)
            base = {"n": n, "it": nit, "tol": [x_tol, f_tol]}
            yield dict(base, prefix=[], more=0)
            pts = default_points(n, nit, x_tol, f_tol)
            for i, (width, _) in enumerate(pts):
                for alt in range(1, width):
                    yield dict(base, prefix=[0] * i + [alt], more=bound - 1)


def run_env(p, rec):
    def execute(ch):
        one(rec, p["n"], p["it"], ch, *p["tol"])
        if len(rec.failures) > 3:
            raise CaseFailed("stopping after several failures")
    used = sum(1 for c in p["prefix"] if c)
    for _ in explore_choices(execute, used + p["more"], prefix=p["prefix"]):
        pass


# ---- long runs: the answers repeat with a short period

class Periodic:
    """A chooser whose answers depend only on the kind of question and its parity."""

    def __init__(self, values, grads, curves):
        self.env, self.table, self.count = None, (values, grads, curves), [0, 0, 0]

    def choose(self, width):
        if width == len(Env.FIRST):
            return 0
        i = {len(Env.VALUES): 0, len(Env.GRADS): 1, len(Env.CURVES): 2}[width]
        answers = self.table[i]
        self.count[i] += 1
        return answers[(self.count[i] - 1) % len(answers)]


def gen_long(tier):
    deep = tier == "thorough"
    values = [i for i, k in enumerate(Env.VALUES) if k in ("better", "worse", "slightly", "barely", "tiny", "equal")]
    grads = [i for i, k in enumerate(Env.GRADS) if k in ("generic", "same", "reversed", "huge", "orthogonal")]
    curves = [i for i, k in enumerate(Env.CURVES) if k not in ("nan", "stiff")]
    for n in (1, 2, 4) if deep else (2,):
        for nit in (60, 400) if deep else (70,):
            for v in itertools.product(values, repeat=2):
                for g in grads:
                    for c in curves:
                        yield {"n": n, "it": nit, "values": list(v), "grads": [g], "curves": [c]}
    for n in (1, 3):
        for v in values:
            for c in curves:
                yield {"n": n, "it": 400, "values": [v], "grads": [0], "curves": [c]}


def run_long(p, rec):
    one(rec, p["n"], p["it"], Periodic(p["values"], p["grads"], p["curves"]), 1e-6, 1e-8)


# ---- one optimizer object used for several runs

def gen_again(tier):
    """First answers of each of two runs on one object."""
    heads = [[], [0, 0, 0, 1], [0, 3], [0, 0, 0, 3], [1], [0, 0, 0, 2, 3], [0, 0, 0, 0, 3]]
    for n, nit in ((1, 3), (2, 4)):
        for seq in itertools.product(range(len(heads)), repeat=3 if tier == "thorough" else 2):
            yield {"n": n, "it": nit, "heads": [heads[i] for i in seq]}


def run_again(p, rec):
    box = {}
    scg = SCG(lambda x, *a: box["f"](x, *a), lambda x, *a, **kw: box["df"](x, *a, **kw),
              {"max_it": p["it"], "x_tol": 1e-6, "f_tol": 1e-8})
    for h in p["heads"]:
        one(rec, p["n"], p["it"], Chooser(h), 1e-6, 1e-8, scg=scg, scg_env=box)


# ---- real functions

FUNS = {
    "sphere": (lambda x: float(x @ x), lambda x: 2.0 * x),
    "scaled": (lambda x: float(np.arange(1, x.size + 1) ** 2 @ (x - 0.5) ** 2),
               lambda x: 2.0 * np.arange(1, x.size + 1) ** 2 * (x - 0.5)),
    "quartic": (lambda x: float(np.sum(x ** 4 - x ** 2 + 0.1 * x)), lambda x: 4 * x ** 3 - 2 * x + 0.1),
    "cosine": (lambda x: float(np.sum(np.cos(x) + 0.05 * x * x)), lambda x: -np.sin(x) + 0.1 * x),
    "rosen": (lambda x: float(np.sum(100 * (x[1:] - x[:-1] ** 2) ** 2 + (1 - x[:-1]) ** 2)) if x.size > 1
              else float((1 - x[0]) ** 2), None),
    "barrier": (lambda x: float(np.sum(-np.log(np.where(x > -1, x + 1, np.nan)) + x * x)),
                lambda x: -1.0 / (x + 1) + 2 * x),
    "cubic": (lambda x: float(np.sum(x ** 3)), lambda x: 3 * x ** 2),
}


def rosen_grad(x):
    if x.size == 1:
        return -2.0 * (1 - x)
    g = np.zeros_like(x)
    g[:-1] += -400 * x[:-1] * (x[1:] - x[:-1] ** 2) - 2 * (1 - x[:-1])
    g[1:] += 200 * (x[1:] - x[:-1] ** 2)
    return g


def gen_real(tier):
    for name in FUNS:
        for n in (1, 2, 3, 5, 10):
            for seed in range(4 if tier == "quick" else 12):
                for nit in (0, 1, 2, 12) + ((200,) if name != "cubic" else ()):
                    yield {"fun": name, "n": n, "seed": seed, "it": nit}


def run_real(p, rec):
    f0, g0 = FUNS[p["fun"]]
    g0 = g0 or rosen_grad
    seen = {}
    order = []

    def f(x):
        seen[key(x)] = f0(np.array(x))
        order.append(np.array(x))
        return seen[key(x)]

    x0 = ref.wave(p["n"], seed=p["seed"], amp=0.9 if p["fun"] == "barrier" else 2.0)
    start = x0.copy()
    asked = []

    def df(x, eval_fun=False):
        asked.append(bool(eval_fun))
        return g0(np.array(x))

    opt = SCG(f, df, {"max_it": p["it"]})
    x, fx = opt(x0)
    st = opt.statistics
    rec.check(st["f_eval"] == len(order) + sum(asked) and st["df_eval"] == len(asked),
              f"reports {st['f_eval']} and {st['df_eval']} evaluations, made {len(order)} + {sum(asked)} of the "
              f"objective and {len(asked)} of the gradient")
    rec.same("start vector", x0, start)
    rec.check(key(x) in seen, "returned point was never evaluated")
    rec.check(seen.get(key(x)) == fx, f"returned value {fx} is not that of the point")
    rec.check(fx <= f0(start), f"value got worse: {f0(start)} -> {fx}")
    its = int(opt.statistics["MaxIt"])
    rec.check(its <= p["it"], f"{its} iterations")
    held = np.asarray(opt.statistics["fx"])[:max(0, its - 1)]
    rec.check(np.all(np.diff(np.concatenate(([f0(start)], held))) <= 0.0), "the value held increased")
    if p["it"] <= 12:
        wx, wf, wits, wheld, why = reference(f0, g0, g0, start, p["it"], 1e-6, 1e-8)
        # Where the iteration itself amplifies rounding (an unbounded objective), so does the comparison.
        spread = np.zeros(p["n"])
        same = True
        for eps in (1e-13, -2e-13, 3e-13):
            vx, _, vits, _, _ = reference(f0, g0, g0, start * (1.0 + eps), p["it"], 1e-6, 1e-8)
            spread = np.maximum(spread, np.abs(vx - wx))
            same = same and vits == wits
        rec.check(not same or wits == its, f"{its} iterations, expected {wits}")
        allow = 1e-5 * np.abs(start).max() + 10.0 * spread
        rec.check(bool(np.all(np.abs(x - wx) <= allow)), f"point {x}, expected {wx}")
        rec.outcome(why)
    elif p["fun"] in ("sphere", "scaled") and p["n"] <= 5:
        rec.close("minimizer", x, np.full(p["n"], 0.5 if p["fun"] == "scaled" else 0.0), 1e-3, scale=1.0)
    elif p["fun"] in ("cosine", "quartic", "barrier"):
        rec.check(np.abs(g0(x)).max() < 1e-2, f"not stationary after 200 iterations: {g0(x)}")
    rec.state((p["fun"], p["n"], p["seed"], p["it"]))
    rec.step(its)
    rec.trace()


def gen_start(tier):
    for shape in ([1], [3], [3, 1], [1, 3], [2, 2]):
        yield {"shape": shape}


def run_start(p, rec):
    """Column vectors and matrices are flattened, read-only starts are accepted."""
    x0 = ref.wave(*p["shape"], seed=2)
    x0.setflags(write=False)
    n = x0.size
    x, fx = SCG(FUNS["sphere"][0], lambda x, eval_fun=False: 2 * x, {"max_it": 30})(x0)
    rec.check(np.shape(x) == (n,), f"shape {np.shape(x)}")
    rec.check(fx == FUNS["sphere"][0](x), "value of the point")
    one(rec, n, 4, Chooser(), 1e-6, 1e-8, x0=x0.copy())


# ---- the documented extra arguments, and every subset of the options

ARGS = [(), (3.0,), (0.25, -1.5), ("label",), (None,), (np.arange(3.0),), ({"k": 2},), (True, 2.0, (1, 2))]
OPTIONS = {"max_it": 7, "x_tol": 1e3, "f_tol": 0.5, "display": True}
DEFAULTS = {"max_it": 150, "x_tol": 1e-6, "f_tol": 1e-8}


def gen_args(tier):
    for name in FUNS:
        for n in (1, 2, 4):
            for nit in (0, 1, 3, 12):
                for a in range(len(ARGS)):
                    yield {"fun": name, "n": n, "it": nit, "args": a}


def run_args(p, rec):
    """Objective and gradient receive exactly the extra arguments, in every call, and nothing else changes."""
    f0, g0 = FUNS[p["fun"]]
    g0 = g0 or rosen_grad
    args = ARGS[p["args"]]
    x0 = ref.wave(p["n"], seed=5, amp=0.8)
    bad, calls = [], {"f": 0, "df": 0, "probe": 0}

    def look(what, a):
        calls[what] += 1
        if len(a) != len(args) or any(u is not v for u, v in zip(a, args)):
            bad.append((what, calls[what], len(a)))

    def f(x, *a):
        look("f", a)
        return f0(np.array(x))

    def df(x, *a, eval_fun=False):
        look("probe" if eval_fun else "df", a)
        return g0(np.array(x))

    x, fx = SCG(f, df, {"max_it": p["it"]})(x0, *args)
    rec.check(not bad, f"called without exactly the arguments given: {bad[:4]}")
    y, fy = SCG(lambda x: f0(np.array(x)), lambda x, eval_fun=False: g0(np.array(x)), {"max_it": p["it"]})(x0)
    rec.check(np.array_equal(x, y) and fx == fy, f"{x} {fx}; without extra arguments {y} {fy}")
    rec.state((p["fun"], p["n"], p["it"], p["args"]))
    rec.step(sum(calls.values()))
    rec.trace()


def gen_options(tier):
    names = list(OPTIONS)
    for mask in itertools.product((0, 1), repeat=len(names)):
        for name in FUNS:
            for n in (1, 3):
                yield {"set": [k for k, m in zip(names, mask) if m], "fun": name, "n": n, "none": False}
    for name in FUNS:
        yield {"set": [], "fun": name, "n": 2, "none": True}


def run_options(p, rec):
    """An option that is not given has its documented default, whichever others are given."""
    f0, g0 = FUNS[p["fun"]]
    g0 = g0 or rosen_grad
    given = {k: OPTIONS[k] for k in p["set"]}
    keep = dict(given)
    x0 = ref.wave(p["n"], seed=4, amp=0.8)
    f, df = (lambda x: f0(np.array(x))), (lambda x, eval_fun=False: g0(np.array(x)))
    full = dict(DEFAULTS, display=False, **{})
    full.update(given)
    opt = SCG(f, df) if p["none"] else SCG(f, df, given)
    x, fx = opt(x0)
    rec.check(given == keep, "the options given were changed")
    want = SCG(f, df, full)
    y, fy = want(x0)
    rec.check(np.array_equal(x, y, equal_nan=True) and (fx == fy or fx != fx and fy != fy),
              f"{x} {fx}; with the defaults spelled out {y} {fy}")
    rec.check(opt.statistics["MaxIt"] == want.statistics["MaxIt"],
              f"{opt.statistics['MaxIt']} iterations, {want.statistics['MaxIt']} with the defaults spelled out")
    nit = full["max_it"]
    if nit <= 12:
        _, _, wits, _, why = reference(f0, g0, g0, x0.copy(), nit, full["x_tol"], full["f_tol"])
        rec.check(wits == int(opt.statistics["MaxIt"]), f"{opt.statistics['MaxIt']} iterations, expected {wits}")
        rec.outcome(why)
    rec.state((tuple(p["set"]), p["fun"], p["n"], p["none"]))
    rec.step(int(opt.statistics["MaxIt"]))
    rec.trace()


def gen_gradcheck(tier):
    for name in FUNS:
        for n in (1, 2, 5, 12):
            for seed in range(2 if tier == "quick" else 8):
                for tol in (None, 1e-4, 1e-2, 1.0):
                    yield {"fun": name, "n": n, "seed": seed, "tol": tol}


def run_gradcheck(p, rec):
    """The optimizer's own gradient test tells right gradients from wrong ones."""
    f0, g0 = FUNS[p["fun"]]
    g0 = g0 or rosen_grad
    n, tol = p["n"], 1e-4 if p["tol"] is None else p["tol"]
    x0 = ref.wave(n, seed=p["seed"], amp=0.7)
    wrong = [np.zeros(n)]
    for size in (1e-6, 0.5 * tol, 0.97 * tol, 1.03 * tol, 2.0 * tol, 10.0, 1e3):
        for e in np.eye(n)[[0, -1]]:
            wrong += [size * n * e, -size * n * e]
        wrong.append(size * n * np.ones(n) / np.sqrt(n))
    for e in wrong:
        x = x0.copy()
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            SCG(lambda x: f0(np.array(x)), lambda x, eval_fun=False: g0(np.array(x)) + e).check_gradient_function(
                x, *(() if p["tol"] is None else (p["tol"],)))
        rec.same("state vector", x, x0)
        text = text.getvalue()
        # Central differences are good to about 1e-8 of the third derivatives here.
        off = np.linalg.norm(e) / n
        said = [w for w in ("PASSED", "FAILED") if w in text]
        rec.check(said == (["PASSED"] if off <= tol else ["FAILED"]),
                  f"wrong by {off:.3g} per variable with tolerance {tol}: reports {said}")
        g = g0(x0.copy())
        rel = np.linalg.norm(e) / (np.linalg.norm(g) + np.linalg.norm(g + e))
        told = re.findall(r"[Rr]elative difference\D*([0-9.]+(?:[eE][-+]?[0-9]+)?)", text)
        if rec.check(len(told) == 1, f"no relative difference in {text!r}"):
            rec.close("relative difference", float(told[0].rstrip(".")), rel, 2e-3, atol=1e-5)
        rec.outcome(said[0] if said else "none")
        rec.step()
        rec.trace()
    rec.state((p["fun"], n, p["seed"], p["tol"]))


FAMILIES = [
    Family("env", gen_env, run_env, "(n, max_it) in (1,4) (2,4) (2,6) (3,5) (1,1) (2,0), two tolerance "
           "settings; all answer sequences with <=3 departures (<=2 for the two larger) from the "
           "default; thorough: one more, and (2,9) (4,8) (5,7)"),
    Family("long", gen_long, run_long, "runs of 70 and 400 iterations in which value, gradient and "
           "curvature answers repeat with period one or two: 6x6 value pairs x 5 gradients x 5 curvatures"),
    Family("again", gen_again, run_again, "all pairs (triples) of 7 runs on one object"),
    Family("real", gen_real, run_real, "7 functions x n=1..10 x 4 (12) starts x 5 iteration limits"),
    Family("args", gen_args, run_args, "7 functions x n=1,2,4 x 4 iteration limits x 8 tuples of 0-3 extra "
           "arguments: every call receives exactly these, and the run is the one without them"),
    Family("options", gen_options, run_options, "16 subsets of the options x 7 functions x 2 dimensions: an "
           "option not given has its default"),
    Family("gradcheck", gen_gradcheck, run_gradcheck, "7 functions x n=1,2,5,12 x 2 (8) points x 4 tolerances: right "
           "gradients, and gradients wrong by 1e-6 to 1e3, just inside and outside the tolerance"),
    Family("start", gen_start, run_start, "shapes of the start vector"),
]
