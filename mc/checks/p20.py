"""P20: components neither modify their inputs nor remember earlier calls."""
import copy
import itertools

import numpy as np

from mc import overlap as ov
from mc import ref
from mc import simrun as sr
from mc import systems as sy
from mc.core import Family
from mc.pipeline import Problem
from src.numerics import utilities as ut
from src.numerics.optim_scg import SCG
from src.var_bayes.bwd_ode import BwdOde
from src.var_bayes.fwd_ode import FwdOde
from src.var_bayes.gaussian_like import GaussianLikelihood
from src.var_bayes.gaussian_moments import GaussianMoments
from src.var_bayes.prior_kl0 import PriorKL0

ID = "P20"
RULE = ("every ordered pair (thorough: triple) of calls over all components, argument sets and instances: "
        "arguments, earlier results and repeated results are compared bit for bit with first-call results; "
        "every interleaving of setting up and running two simulations; calls in threads under a controlled scheduler, "
        "held at every source line while a call on another instance runs")
ASSUMPTIONS = ["random draws (sample paths, observations) advance their own stream and are left to P14/P15"]


# ---- operations: name -> (component key, build(), arguments(k), call(object, arguments))

def w(*s, seed=1, amp=1.0):
    return ref.wave(*s, seed=seed, amp=amp)


def sweep_args(single, k):
    N, d = (6, 2) if k == 0 else (9, 3)
    if single:
        return [1.0 + w(N, seed=1, amp=0.4), w(N, seed=2), 0.3 + k, 0.5, 0.7 + k]
    return [0.8 * np.eye(d) + w(N, d, d, seed=3, amp=0.3), w(N, d, seed=4), w(d, seed=5), ref.spd(d, 1),
            ref.spd(d, 2)]


def adjoint_args(single, k):
    N, d = (6, 2) if k == 0 else (9, 3)
    s, v = ((N,), (N,)) if single else ((N, d), (N, d, d))
    a = 1.0 + w(N, seed=1, amp=0.4) if single else 0.8 * np.eye(d) + w(N, d, d, seed=3, amp=0.3)
    return [a, w(*s, seed=6), w(*v, seed=7), w(*s, seed=8), w(*v, seed=9)]


def energy_args(name, k):
    d = sy.dim_of(name, 10 + k)
    N = 6 if k == 0 else 8
    A, b, m = 0.5 * np.eye(d) + w(N, d, d, seed=2, amp=0.3), w(N, d, seed=3), w(N, d, seed=4)
    S = np.array([0.2 * ref.spd(d, i) for i in range(N)])
    if name in ("OU", "DW"):
        A, b, m, S = A.reshape(N), b.reshape(N), m.reshape(N), S.reshape(N)
    return [A, b, m, S, [1, 3] if k == 0 else [2, 5, 6]]


def energy_model(name, k):
    d = sy.dim_of(name, 10 + k)
    sig = {"OU": 0.7, "DW": 0.8, "L63": [1.0, 2.0, 1.5], "L96": 2.0}[name]
    theta = {"L63": [1.5, 1.2, 0.8], "L96": 2.0}.get(name, 1.0 + k)
    m = sy.build(name, sig, theta, 6 if k == 0 else 8, 0.05 * (1 + k), dim=d)
    return m


def like(single, k):
    n = 2 + k
    y, t = (w(n, seed=1), [1, 3, 4][:n]) if single else (w(n, 2, seed=2), [0, 3, 4][:n])
    return GaussianLikelihood(y, t, 0.3 + k if single else (0.3 + k) * ref.spd(2, 1), None, single)


def like_args(single, k):
    N = 6 + k
    if single:
        return [w(N, seed=3), 0.2 + np.abs(w(N, seed=4))]
    return [w(N, 2, seed=3), np.array([0.3 * ref.spd(2, i) for i in range(N)])]


def prior(single, k):
    return PriorKL0(0.5 + k, 0.7, True) if single else PriorKL0(w(2 + k, seed=1), ref.spd(2 + k, 1), False)


def prior_args(single, k):
    return [0.3, 0.4 + k] if single else [w(2 + k, seed=2), 0.5 * ref.spd(2 + k, 2)]


def problem(name, k):
    return Problem(name, ("Euler", "RK4")[k], 5 + k, 0.05, (1, 3), kind=k)


def optimised(x0, its):
    scg = SCG(lambda x, *_: float(np.sum((x - 1.0) ** 4 + x ** 2)),
              lambda x, *_, **__: 4.0 * (x - 1.0) ** 3 + 2.0 * x,
              {"max_it": its, "x_tol": 1e-6, "f_tol": 1e-8, "display": False})
    return scg(x0), scg.stats


OPS = {}


def op(name, obj, build, args, call):
    OPS[name] = (obj, build, args, call)


for _s in (True, False):
    for _m in ref.METHODS:
        for _k in (0, 1):
            op(f"fwd {_m} {_s} {_k}", ("fwd", _m, _s), lambda m=_m, s=_s: FwdOde(0.05, m, s),
               lambda s=_s, k=_k: sweep_args(s, k), lambda o, a: o(*a))
            op(f"bwd {_m} {_s} {_k}", ("bwd", _m, _s), lambda m=_m, s=_s: BwdOde(0.05, m, s),
               lambda s=_s, k=_k: adjoint_args(s, k), lambda o, a: o(*a))
    for _k in (0, 1):
        op(f"like {_s} {_k}", ("like", _s, _k), lambda s=_s, k=_k: like(s, k),
           lambda s=_s, k=_k: like_args(s, k), lambda o, a: o(*a))
        op(f"like grad {_s} {_k}", ("like", _s, _k), lambda s=_s, k=_k: like(s, k),
           lambda s=_s, k=_k: like_args(s, k), lambda o, a: o.gradients(*a))
        op(f"prior {_s} {_k}", ("prior", _s, _k), lambda s=_s, k=_k: prior(s, k),
           lambda s=_s, k=_k: prior_args(s, k), lambda o, a: o(*a))
        op(f"prior grad {_s} {_k}", ("prior", _s, _k), lambda s=_s, k=_k: prior(s, k),
           lambda s=_s, k=_k: prior_args(s, k) + prior_args(s, k), lambda o, a: o.gradients(*a))
for _n in ("OU", "DW", "L63", "L96"):
    for _k in (0, 1):
        op(f"energy {_n} {_k}", ("energy", _n, _k), lambda n=_n, k=_k: energy_model(n, k),
           lambda n=_n, k=_k: energy_args(n, k), lambda o, a: o.energy(*a))
for _n in ("OU", "DW", "L63", "LIN1M", "LIN2"):
    for _k in (0, 1):
        for _j in (0, 1):
            op(f"F {_n} {_k} {_j}", ("vgp", _n, _k), lambda n=_n, k=_k: problem(n, k),
               lambda n=_n, k=_k, j=_j: [problem(n, k).flat(*problem(n, k).params(j))],
               lambda o, a: (o.vgp.free_energy(*a), dict(o.vgp.arg_out)))
            op(f"dF {_n} {_k} {_j}", ("vgp", _n, _k), lambda n=_n, k=_k: problem(n, k),
               lambda n=_n, k=_k, j=_j: [problem(n, k).flat(*problem(n, k).params(j))],
               lambda o, a: (o.vgp.gradient(a[0], eval_fun=True), dict(o.vgp.arg_out)))
        op(f"init {_n} {_k}", ("vgp", _n, _k), lambda n=_n, k=_k: problem(n, k), lambda: [],
           lambda o, a: o.vgp.initialization())
for _k in (0, 1):
    op(f"moments {_k}", ("moments", _k), lambda k=_k: GaussianMoments(w(5 + k, seed=1), np.abs(w(5 + k, seed=2)) + .1),
       lambda: [], lambda o, a: [o(j) for j in range(9)])
    op(f"moments dm {_k}", ("moments", _k),
       lambda k=_k: GaussianMoments(w(5 + k, seed=1), np.abs(w(5 + k, seed=2)) + .1),
       lambda: [], lambda o, a: [o.dm(j) for j in range(1, 9)])
    op(f"moments ds {_k}", ("moments", _k),
       lambda k=_k: GaussianMoments(w(5 + k, seed=1), np.abs(w(5 + k, seed=2)) + .1),
       lambda: [], lambda o, a: [o.ds(j) for j in range(1, 9)])
    op(f"trapz {_k}", ("fun",), lambda: None, lambda k=_k: [w(7, seed=1) if k else w(7, 2, 2, seed=2), 0.1, [2, 4]],
       lambda o, a: ut.my_trapz(*a))
    op(f"trapz start {_k}", ("fun",), lambda: None, lambda k=_k: [w(7, seed=1) if k else w(7, 2, seed=2), 0.1,
                                                               np.array([0, 3, 6])], lambda o, a: ut.my_trapz(*a))
    op(f"trapz nan {_k}", ("fun",), lambda: None,
       lambda k=_k: [np.array([[1.0, np.nan], [np.inf, 2.0], [0.5, -np.inf], [1.0, 3.0]])[:, k], 0.1, [1, 2]],
       lambda o, a: ut.my_trapz(*a))
    op(f"log_det {_k}", ("fun",), lambda: None, lambda k=_k: [ref.spd(3, 1) if k else w(3, seed=1) ** 2 + 0.1],
       lambda o, a: ut.log_det(*a))
    op(f"chol_inv {_k}", ("fun",), lambda: None, lambda k=_k: [ref.spd(3 + k, 1)], lambda o, a: ut.chol_inv(*a))
    op(f"safe_log {_k}", ("fun",), lambda: None, lambda k=_k: [np.array([0.0, 1e-310, 2.0, 1e305]) * (1 + k)],
       lambda o, a: ut.safe_log(*a))
    op(f"scg {_k}", ("fun",), lambda: None, lambda k=_k: [w(4 + k, seed=3), 4], lambda o, a: optimised(*a))
    op(f"diff {_k}", ("fun",), lambda: None, lambda k=_k: [lambda x, c: float(c @ x ** 3), w(3 + k, seed=1),
                                                        w(3 + k, seed=2)], lambda o, a: ut.finite_diff(*a))
    op(f"ut {_k}", ("fun",), lambda: None, lambda k=_k: [lambda x, c: c * x ** 2 + 1.0, w(3 + k, seed=1),
                                                      ref.spd(3 + k, 1), 2.0], lambda o, a: ut.ut_approx(*a))
NAMES = list(OPS)


def arrays(v, out=None, path=""):
    """Every array and number inside a result or an argument list."""
    out = {} if out is None else out
    if isinstance(v, dict):
        for k in sorted(v, key=str):
            arrays(v[k], out, f"{path}.{k}")
    elif isinstance(v, (list, tuple)) and not all(isinstance(i, int) for i in v):
        for i, u in enumerate(v):
            arrays(u, out, f"{path}[{i}]")
    elif v is not None and not callable(v):
        out[path] = v
    return out


def copies(v):
    return {k: np.array(u, copy=True) for k, u in arrays(v).items()}


def compare(rec, label, live, kept):
    got = arrays(live)
    if rec.check(set(got) == set(kept), f"{label}: different parts"):
        for k in kept:
            rec.same(f"{label}{k}", np.asarray(got[k]), kept[k])


class World:
    """Shared instances, made on first use."""

    def __init__(self):
        self.objects = {}
        self.watch = []

    def run(self, rec, name, label):
        key, build, args, call = OPS[name]
        if key not in self.objects:
            self.objects[key] = build()
        a = args()
        given = copies(a)
        r = call(self.objects[key], a)
        self.watch.append((f"{label}: arguments of '{name}'", a, given))
        kept = copies(r)
        self.watch.append((f"{label}: earlier result of '{name}'", r, kept))
        return kept

    def verify(self, rec):
        for label, live, kept in self.watch:
            compare(rec, label, live, kept)


_FIRST = {}


def first(name):
    """Result on new instances, before any other call on them."""
    if name not in _FIRST:
        key, build, args, call = OPS[name]
        _FIRST[name] = copies(call(build(), args()))
    return _FIRST[name]


def gen_pairs(tier):
    for a in NAMES:
        yield {"first": a}


def run_pairs(p, rec):
    want = first(p["first"])
    for other in NAMES:
        world = World()
        label = f"'{p['first']}' then '{other}' then '{p['first']}'"
        world.run(rec, p["first"], label)
        world.run(rec, other, label)
        again = world.run(rec, p["first"], label)
        world.verify(rec)
        for k in want:
            rec.same(f"{label}: result{k} against a first call", again[k], want[k])
        rec.state((p["first"], other))
        rec.step(3)
        rec.trace()
        if rec.failures:
            return


# ---- same instance, same shapes, other values

def twin_ops():
    """component key -> list of (label, build, args, call): several argument sets of equal shape."""
    out = {}

    def add(key, label, build, args, call):
        out.setdefault(key, []).append((label, build, args, call))

    def vary(args, j):
        # Same shapes and types, different numbers; symmetric positive definite stays so.
        return [a * (1.0 + 0.35 * j) if isinstance(a, (float, np.ndarray)) else a for a in args]
    for s in (True, False):
        for m in ref.METHODS:
            for j in range(3):
                for k in (0, 1):
                    add(f"fwd {m} {s}", f"{j}{k}", lambda m=m, s=s: FwdOde(0.05, m, s),
                        lambda s=s, k=k, j=j: vary(sweep_args(s, k), j), lambda o, a: o(*a))
                    add(f"bwd {m} {s}", f"{j}{k}", lambda m=m, s=s: BwdOde(0.05, m, s),
                        lambda s=s, k=k, j=j: vary(adjoint_args(s, k), j), lambda o, a: o(*a))
        for j in range(3):
            for n, f in (("value", lambda o, a: o(*a)), ("gradient", lambda o, a: o.gradients(*a))):
                add(f"like {s}", f"{n} {j}", lambda s=s: like(s, 0), lambda s=s, j=j: vary(like_args(s, 0), j), f)
            add(f"prior {s}", f"value {j}", lambda s=s: prior(s, 0), lambda s=s, j=j: vary(prior_args(s, 0), j),
                lambda o, a: o(*a))
            add(f"prior {s}", f"gradient {j}", lambda s=s: prior(s, 0),
                lambda s=s, j=j: vary(prior_args(s, 0) * 2, j), lambda o, a: o.gradients(*a))
    for n in ("OU", "DW", "L63", "L96"):
        for j in range(3):
            for t in ([1, 3], [0, 2]):
                add(f"energy {n}", f"{j} {t}", lambda n=n: energy_model(n, 0),
                    lambda n=n, j=j, t=t: vary(energy_args(n, 0)[:4], j) + [t], lambda o, a: o.energy(*a))
    for s in (True, False):
        for j in range(3):
            def call(o, a):
                g = GaussianMoments(*a)
                return [g(k) for k in range(6)] + [g.dm(k) for k in range(1, 6)] + [g.ds(k) for k in range(1, 6)]
            add("moments", f"{j} {s}", lambda: None,
                lambda j=j, s=s: vary([w(6, seed=1), np.abs(w(6, seed=2)) + .1], j) if s else
                [0.4 + j, 0.3 * (1 + j)], call)
    return out


TWINS = twin_ops()


def gen_twins(tier):
    for key in TWINS:
        for i in range(len(TWINS[key])):
            yield {"component": key, "first": i}


def run_twins(p, rec):
    ops = TWINS[p["component"]]
    want = []
    for label, build, args, call in ops:
        want.append(copies(call(build(), args())))
    live = []
    for seq in itertools.product(range(len(ops)), repeat=2):
        obj = ops[0][1]()
        live = []
        for i in (p["first"],) + seq:
            label, build, args, call = ops[i]
            a = args()
            given = copies(a)
            r = call(obj, a)
            live.append((i, r, a, given))
            for k, v in copies(r).items():
                rec.same(f"{p['component']}: result{k} of call {label} after {[q[0] for q in live[:-1]]}", v,
                         want[i].get(k))
            rec.step()
        for i, r, a, given in live:
            compare(rec, f"{p['component']}: earlier result of {ops[i][0]} in {seq}", r, want[i])
            compare(rec, f"{p['component']}: arguments of {ops[i][0]} in {seq}", a, given)
        rec.state((p["component"], p["first"]) + seq)
        rec.trace()
        if rec.failures:
            return


# ---- one entry of one argument at a time

def entry_ops():
    """component -> (build, args, call)"""
    out = {}
    for s in (True, False):
        for m in ref.METHODS:
            out[f"fwd {m} {s}"] = (lambda m=m, s=s: FwdOde(0.05, m, s), lambda s=s: sweep_args(s, 0),
                                   lambda o, a: o(*a))
            out[f"bwd {m} {s}"] = (lambda m=m, s=s: BwdOde(0.05, m, s), lambda s=s: adjoint_args(s, 0),
                                   lambda o, a: o(*a))
        out[f"like {s}"] = (lambda s=s: like(s, 0), lambda s=s: like_args(s, 0),
                            lambda o, a: (o(*a), o.gradients(*a)))
        out[f"prior {s}"] = (lambda s=s: prior(s, 0), lambda s=s: prior_args(s, 0) * 2,
                             lambda o, a: (o(*a[:2]), o.gradients(*a)))
    for n in ("OU", "DW", "L63", "L96"):
        out[f"energy {n}"] = (lambda n=n: energy_model(n, 0), lambda n=n: energy_args(n, 0),
                              lambda o, a: o.energy(*a))
    for n in ("OU", "DW", "L63", "LIN1M", "LIN2"):
        out[f"free energy {n}"] = (lambda n=n: problem(n, 0),
                                   lambda n=n: [problem(n, 0).flat(*problem(n, 0).params(0))],
                                   lambda o, a: (o.vgp.free_energy(*a), o.vgp.gradient(*a)))
    return out


ENTRIES = entry_ops()


def cells(args):
    """Every independent entry of every number and array among the arguments (symmetric ones in pairs)."""
    for i, a in enumerate(args):
        if isinstance(a, float):
            yield i, None
        elif isinstance(a, np.ndarray):
            for c in np.ndindex(a.shape):
                if a.ndim > 1 and a.shape[-1] == a.shape[-2] and c[-1] > c[-2]:
                    continue
                yield i, c


def gen_entries(tier):
    for key in ENTRIES:
        args = ENTRIES[key][1]()
        for i in range(len(args)):
            if isinstance(args[i], (float, np.ndarray)):
                yield {"component": key, "argument": i}


def run_entries(p, rec):
    """Call with the base arguments, then with one entry changed, then with the base ones again."""
    build, args, call = ENTRIES[p["component"]]
    want = copies(call(build(), args()))
    obj = build()
    todo = [c for i, c in cells(args()) if i == p["argument"]]
    if p["component"] == "energy L96":
        todo = todo[::1 + len(todo) // 40]
    for c in todo:
        def changed():
            a = args()
            if c is None:
                a[p["argument"]] *= 1.01
                return a
            x = a[p["argument"]]
            sym = len(c) > 1 and x.shape[-1] == x.shape[-2] and np.array_equal(x, np.swapaxes(x, -1, -2))
            x[c] += 0.013
            if sym and c[-1] != c[-2]:
                x[c[:-2] + (c[-1], c[-2])] = x[c]
            return a
        fresh = copies(call(build(), changed()))
        for what, a, w_ in (("base", args(), want), ("changed", changed(), fresh), ("base again", args(), want)):
            got = copies(call(obj, a))
            for k in w_:
                rec.same(f"{p['component']}: entry {c} of argument {p['argument']}: result{k}, {what}", got[k], w_[k])
            rec.step()
        rec.state((p["component"], p["argument"], str(c)))
        rec.trace()
        if rec.failures:
            return


CORE = [n for n in NAMES if n.split()[0] in ("F", "dF", "init", "energy", "like", "prior", "moments", "fwd", "bwd")
        and not n.endswith("1")]


def gen_triples(tier):
    """Sequences on instances of one system with everything that can share something with it."""
    for name in ("OU", "DW", "L63", "LIN1M", "LIN2"):
        ops = [n for n in NAMES if n.split()[0] in ("F", "dF", "init") and n.split()[1] == name]
        ops += [n for n in NAMES if n.startswith("energy " + name)]
        for seq in itertools.product(ops, repeat=3 if tier == "quick" or name == "L63" else 4):
            yield {"seq": list(seq)}
    if tier == "thorough":
        for seq in itertools.product(CORE, repeat=3):
            yield {"seq": list(seq)}


def run_triples(p, rec):
    world = World()
    label = " then ".join(p["seq"])
    for n in p["seq"]:
        got = world.run(rec, n, label)
        for k, v in first(n).items():
            rec.same(f"{label}: result{k} of '{n}'", got[k], v)
        rec.step()
    world.verify(rec)
    rec.state(label)
    rec.trace()


# ---- almost equal arguments, and long histories

NEAR = [2.0 ** -k for k in (5, 10, 17, 24, 31, 38, 45)]


def gen_near(tier):
    for key in ENTRIES:
        args = ENTRIES[key][1]()
        for i in range(len(args)):
            if isinstance(args[i], (float, np.ndarray)):
                yield {"component": key, "argument": i}


def run_near(p, rec):
    """Arguments that differ from those of the call before by very little are different arguments."""
    build, args, call = ENTRIES[p["component"]]
    i = p["argument"]
    big = p["component"] in ("energy L96",)

    def moved(r, where):
        a = args()
        if not isinstance(a[i], np.ndarray):
            a[i] *= 1.0 + r
        elif where == "all":
            a[i] = a[i] * (1.0 + r)
        else:
            x = a[i].reshape(len(a[i]), -1)       # one time (or row), every entry of it
            x[{"first": 0, "last": -1}[where]] *= 1.0 + r
        return a
    for where in ("all", "first", "last") if isinstance(args()[i], np.ndarray) else ("all",):
        seq = []
        for r in NEAR[::2] if big else NEAR:
            seq += [0.0, r]
        seq += [r for r in NEAR[::2]] + [-NEAR[2], 0.0]
        obj = build()
        for n, r in enumerate(seq):
            got = copies(call(obj, moved(r, where)))
            for k, v in copies(call(build(), moved(r, where))).items():
                rec.same(f"{p['component']}: argument {i} ({where}) scaled by 1+{r:g}, call {n}: result{k} against "
                         "a new instance", got[k], v)
            rec.step()
            if rec.failures:
                return
        rec.state((p["component"], i, where))
        rec.trace()


LONG = 300


def gen_long(tier):
    for key in ENTRIES:
        for period in (1, 2, 3, 7, 16, 150):
            yield {"component": key, "period": period, "deep": tier == "thorough"}


def run_long(p, rec):
    """The n-th call gives what the first call with the same arguments gives, for n up to 300 (thorough 1200)."""
    build, args, call = ENTRIES[p["component"]]

    def take(j):
        return [a * (1.0 + 0.004 * j) if isinstance(a, (float, np.ndarray)) and not
                (isinstance(a, np.ndarray) and a.dtype.kind != "f") else a for a in args()]
    want = {}
    obj = build()
    slow = any(s in p["component"] for s in ("free", "L96"))
    total = (LONG if not slow else max(2 * p["period"] + 10, 120)) * (4 if p["deep"] else 1)
    for n in range(total):
        j = n % p["period"]
        if j not in want:
            want[j] = copies(call(build(), take(j)))
        got = copies(call(obj, take(j)))
        for k, v in want[j].items():
            rec.same(f"{p['component']}: call {n + 1} with argument set {j} of {p['period']}: result{k} against a "
                     "new instance", got[k], v)
        rec.step()
        if rec.failures:
            return
    rec.state((p["component"], p["period"]))
    rec.trace()


# ---- settings read earlier

def gen_settings(tier):
    ops = ["s1", "s2", "s3", "t1", "t2", "bad", "path", "short", "obs", "energy"]
    for name in ("OU", "DW", "L63", "L96"):
        for seq in itertools.product(ops, repeat=4 if tier == "thorough" else 3 if name != "L96" else 2):
            yield {"sys": name, "seq": list(seq)}


def run_settings(p, rec):
    """Arrays read from a system (settings, path, window, observations) survive whatever comes later."""
    name = p["sys"]
    d = sr.dims(name) if name != "L96" else 10
    theta = {"OU": 0.8, "DW": 1.0, "L63": np.array([1.5, 1.2, 0.8]), "L96": np.array(2.0)}[name]
    m = sy.build(name, 0.9, theta, 3, 0.1, dim=10)
    values = {"s1": 0.5, "s2": 2.0, "s3": 0.07, "bad": -1.0} if d == 1 else {
        "s1": np.diag(0.5 + 0.25 * np.arange(d)), "s2": ref.spd(d, 2), "s3": 0.07 * np.eye(d), "bad": -np.eye(d)}
    m.make_trajectory(0.0, 0.5, 0.1)
    held = []

    def read(label):
        held.extend((f"{k} read {label}", v, np.array(v, copy=True)) for k, v in (
            ("sigma", m.sigma), ("inverse", m.inverse_sigma), ("theta", m.theta), ("path", m.sample_path),
            ("window", m.time_window)) if isinstance(v, np.ndarray))
    read("at the start")
    for n, op in enumerate(p["seq"]):
        if op in ("s1", "s2", "s3"):
            m.sigma = copy.deepcopy(values[op])
        elif op == "bad":
            rec.raises(f"{name} {p['seq']}", lambda: setattr(m, "sigma", copy.deepcopy(values[op])), ValueError,
                       RuntimeError)
        elif op in ("t1", "t2"):
            m.theta = theta * (1.3 if op == "t1" else 0.6)
        elif op in ("path", "short"):
            m.make_trajectory(0.0, 0.5 if op == "path" else 0.3, 0.1)
        elif op == "obs":
            out = m.collect_obs(5, 0.1)
            held.extend((f"observations {k}", v, np.array(v, copy=True)) for k, v in enumerate(out)
                        if isinstance(v, np.ndarray))
        else:
            k = len(np.asarray(m.time_window))
            A, b, mm, S = sy.window_data(name, k, dim=d)
            one = (lambda v: v.reshape(k)) if d == 1 else (lambda v: v)
            out = m.energy(one(A), one(b), one(mm), one(S), [1])
            held.extend((f"energies {k}", v, np.array(v, copy=True)) for k, v in enumerate(out[1] + out[2])
                        if isinstance(v, np.ndarray))
        read(f"after {p['seq'][:n + 1]}")
        rec.step()
    for label, v, was in held:
        rec.same(f"{name}: {label} at the end of {p['seq']}", v, was)
    rec.state((name,) + tuple(p["seq"]))
    rec.trace()


# ---- setting up simulations

def same_tree(rec, label, got, want):
    if isinstance(want, dict):
        if rec.check(isinstance(got, dict) and list(got) == list(want), f"{label}: entries changed"):
            for k in want:
                same_tree(rec, f"{label}.{k}", got[k], want[k])
    elif isinstance(want, (list, tuple)):
        if rec.check(type(got) is type(want) and len(got) == len(want), f"{label}: {want} became {got}"):
            for i, (a, b) in enumerate(zip(got, want)):
                same_tree(rec, f"{label}[{i}]", a, b)
    else:
        rec.check(type(got) is type(want), f"{label}: type changed from {type(want)} to {type(got)}")
        if isinstance(want, np.ndarray):
            rec.same(label, got, want)
        else:
            rec.check(got == want, f"{label}: {want} became {got}")


def gen_setup(tier):
    v3, v40 = [2.0, 5.0, 8.0], [1.0 + 0.1 * i for i in range(40)]
    for name, sys, obs, mu, tau in (
            ("OU", [0.7, 1], [0.05, 1], [1.0, 0], [0.5, 1]), ("DW", [0.8, 1], [0.04, 1], [1.0, 0], [0.5, 1]),
            ("L63", [10, v3, "v3", "m3"], [2.0, [1.0, 2.0, 0.5], "v3", "m3"], [1.0, "a3", [1.0, 0.0, 2.0]],
             [0.5, "a3"]),
            ("L96", [4.0, v40, "v40"], [1.0, "v40"], [1.0, "a40"], [0.5, "a40"])):
        for s, o, m, t in itertools.product(sys, obs, mu, tau):
            for data in (False, True):
                yield {"sys": name, "noise": s, "obs": o, "mu0": m, "tau0": t, "data": data}


def value(v):
    if not isinstance(v, str):
        return copy.deepcopy(v)
    n = int(v[1:])
    a = 1.0 + 0.5 * np.arange(n)
    return np.diag(a) if v[0] == "m" else a


def run_setup(p, rec):
    big = sr.dims(p["sys"]) > 1
    q = sr.parameters(p["sys"], "Euler", 0.0, 0.05 if big else 0.5, 0.01 if big else 0.05, 60 if big else 6, 3,
                      value(p["noise"]), value(p["obs"]), None, value(p["mu0"]), value(p["tau0"]))
    d = sr.dims(p["sys"])
    data = ([1, 3], w(2, d, seed=4) if big else w(2, seed=4)) if p["data"] else None
    kept, dkept = copy.deepcopy(q), copy.deepcopy(data)
    outs = []
    for n in range(2):
        sim = sr.Simulation("same")
        sim.setup(q, data)
        same_tree(rec, f"{p}: parameters after set-up {n}", q, kept)
        same_tree(rec, f"{p}: data after set-up {n}", {"d": data}, {"d": dkept})
        with sr.limited(1 if big else 3):
            sim.run()
        same_tree(rec, f"{p}: parameters after run {n}", q, kept)
        same_tree(rec, f"{p}: data after run {n}", {"d": data}, {"d": dkept})
        outs.append(sim.output)
        rec.step(2)
        if rec.failures:
            return
    for k in outs[0]:
        rec.same(f"{p}: '{k}' of a second simulation with the same parameters", np.asarray(outs[1][k]),
                 np.asarray(outs[0][k]))
    rec.state(str(p))
    rec.trace(2)


def gen_interleave(tier):
    confs = [("OU", "Euler"), ("OU", "RK4"), ("DW", "Heun"), ("L63", "RK2"), ("L63", "Euler")]
    if tier == "thorough":
        confs += [("DW", "RK2"), ("OU", "Heun"), ("L63", "RK4"), ("L96", "Euler")]
    for a, b in itertools.product(range(len(confs)), repeat=2):
        for order in sorted(set(itertools.permutations("AABB"))):
            yield {"a": confs[a], "b": confs[b], "order": "".join(order)}


_SOLO = {}


def conf(c, seed):
    big = sr.dims(c[0]) > 1
    return sr.parameters(c[0], c[1], 0.0, 0.05 if big else 0.5, 0.01 if big else 0.05, 60 if big else 6, seed)


def solo(c, seed):
    key = (tuple(c), seed)
    if key not in _SOLO:
        sim, _ = sr.run(conf(c, seed), None, 4)
        _SOLO[key] = {k: np.array(v, copy=True) for k, v in sim.output.items()}
    return _SOLO[key]


def run_interleave(p, rec):
    want = {"A": solo(p["a"], 3), "B": solo(p["b"], 8)}
    sims = {"A": sr.Simulation("A"), "B": sr.Simulation("B")}
    pars = {"A": conf(p["a"], 3), "B": conf(p["b"], 8)}
    stage = {"A": 0, "B": 0}
    with sr.limited(4):
        for who in p["order"]:
            if stage[who] == 0:
                sims[who].setup(pars[who], None)
            else:
                sims[who].run()
            stage[who] += 1
            rec.step()
    for who in "AB":
        got = sims[who].output
        if rec.check(set(got) == set(want[who]), f"{p}: results of {who}"):
            for k in got:
                rec.same(f"{p}: '{k}' of {who} against a run on its own", np.asarray(got[k]), want[who][k])
    rec.state(str(p))
    rec.trace(2)


VARIANTS = {"base": {}, "noise": {"sys_noise": 0.3}, "theta": {"theta": 0.9}, "seed": {"seed": 11},
            "short": {"short": True}, "method": {"method": "RK2"}, "obs": {"obs_noise": 0.4},
            "prior": {"mu0": 0.2, "tau0": 1.5}, "density": {"density": 2}, "data": {"data": True}}


def gen_reuse(tier):
    for name in ("OU", "DW", "L63"):
        for a, b in itertools.product(VARIANTS, repeat=2):
            for runs in ([0, 1], [1, 1], [1, 2], [2, 1]):
                if (name == "OU" or runs == [1, 1]) or tier == "thorough":
                    yield {"steps": [[name, a, runs[0]], [name, b, runs[1]]]}
    for (m, a), (n, b) in itertools.product([(n, v) for n in ("OU", "DW", "L63") for v in ("base", "data")], repeat=2):
        if m != n:
            yield {"steps": [[m, a, 1], [n, b, 1]]}
            yield {"steps": [[m, a, 1], [n, b, 0], [m, a, 1]]}
    if tier == "thorough":
        for vs in itertools.product(VARIANTS, repeat=3):
            yield {"steps": [["OU", v, 1] for v in vs]}


def variant(name, v):
    """Parameters and data of one configuration."""
    kw = dict(VARIANTS[v])
    big = sr.dims(name) > 1
    theta = {"OU": 0.9, "DW": 1.2, "L63": [9.0, 20.0, 2.0]}[name] if "theta" in kw else None
    data = ([2, 5], w(2, 3, seed=4) + 1.0 if big else w(2, seed=4)) if "data" in kw else None
    dt = 0.01 if big else 0.05
    n = 7 if "short" in kw else 10
    density = (20 if big else 2) if "density" in kw else 30 if big else 6
    return sr.parameters(name, kw.get("method", "Euler"), 0.0, n * dt, dt, density, kw.get("seed", 3),
                         kw.get("sys_noise"), kw.get("obs_noise"), theta, kw.get("mu0", 1.0), kw.get("tau0", 0.5)), data


_FRESH = {}


def fresh(name, v):
    if (name, v) not in _FRESH:
        sim, _ = sr.run(*variant(name, v), 3)
        _FRESH[name, v] = {k: np.array(u, copy=True) for k, u in sim.output.items()}
    return _FRESH[name, v]


def run_reuse(p, rec):
    """One simulation object, set up and run several times, reports each time what a new one reports."""
    sim = sr.Simulation("reused")
    live = []
    with sr.limited(3):
        for n, (name, v, runs) in enumerate(p["steps"]):
            sim.setup(*variant(name, v))
            rec.step()
            for r in range(runs):
                sim.run()
                want, label = fresh(name, v), f"{p['steps'][:n + 1]}, run {r}"
                if rec.check(set(sim.output) == set(want), f"{label}: results {sorted(sim.output)}"):
                    for k in want:
                        rec.same(f"{label}: '{k}' against a new simulation", np.asarray(sim.output[k]), want[k])
                        live.append((f"{label}: '{k}'", sim.output[k], want[k]))
                rec.step()
    for label, got, want in live:
        rec.same(f"{label} after {p['steps']}", np.asarray(got), want)
    rec.state(str(p))
    rec.trace()


# ---- calls that overlap in time

def partners(name):
    """Calls on other instances: the same with other values, the same with other shapes, a free energy."""
    def scaled(a):
        return [v * 1.35 if isinstance(v, float) or isinstance(v, np.ndarray) and v.dtype.kind == "f" else v for v in a]
    out = {"values": (name, scaled), "F OU 1 1": ("F OU 1 1", list), "energy DW 0": ("energy DW 0", list)}
    words = name.split()
    for i in range(2, len(words) + 1):
        if words[i - 1] in ("0", "1"):
            other = " ".join(words[:i - 1] + ["10"[int(words[i - 1])]] + words[i:])
            if other in OPS:
                out[other] = (other, list)
    return out


def overlapped(name, change=list):
    """Call without arguments that makes an instance and uses it."""
    key, build, args, call = OPS[name]
    a = change(args())
    return lambda: copies(call(build(), a))


def gen_overlap(tier):
    for a in NAMES:
        if tier == "quick" and (a.split()[0] == "F" or a.split()[0] == "dF" and a.endswith("1")):
            continue                    # the gradient evaluates the free energy as well
        for b in partners(a):
            yield {"a": a, "b": b, "cap": 6 if tier == "quick" else 30, "visits": 1 if tier == "quick" else 2}


def thin(points, cap):
    """At most about cap of them, evenly spread, with the first and the last."""
    return points if len(points) <= cap else sorted({points[(len(points) - 1) * i // (cap - 1)] for i in range(cap)})


def run_overlap(p, rec):
    """The call a is held at a line while b runs; or a, then b are held while the other ends."""
    name, change = partners(p["a"])[p["b"]]
    wants = [overlapped(p["a"])(), overlapped(name, change)()]
    trails = [ov.points(ov.trail(overlapped(*c)), p["visits"]) for c in ((p["a"],), (name, change))]
    plans = [[(0, i), (1, None), (0, None)] for i in trails[0]]
    plans += [[(0, i), (1, j), (0, None), (1, None)] for i in thin(trails[0], p["cap"])
              for j in thin(trails[1], p["cap"])]
    infeasible = 0
    for plan in plans:
        if infeasible > 1:              # the code takes locks: one call waits for the other
            break
        got, feasible = ov.interleave([overlapped(p["a"]), overlapped(name, change)], plan)
        infeasible += not feasible
        for who, g, want in zip((p["a"], p["b"]), got, wants):
            label = f"'{p['a']}' and '{p['b']}' overlapping as {plan}: result of '{who}'"
            if rec.check(set(g) == set(want), f"{label}: different parts"):
                for k in want:
                    rec.same(f"{label}{k}", g[k], want[k])
        rec.state((p["a"], p["b"], str(plan)))
        rec.step(len(plan))
        rec.trace()
        if rec.failures:
            return


def gen_overlap_runs(tier):
    confs = [("OU", "Euler"), ("OU", "RK4"), ("DW", "Heun"), ("L63", "RK2")]
    for a, b in itertools.product(range(len(confs)), repeat=2):
        if tier == "quick" and (b - a) % len(confs) > 1:
            continue
        for part in range(8):
            yield {"a": confs[a], "b": confs[b], "part": part, "visits": 1 if tier == "quick" else 2}


def run_overlap_runs(p, rec):
    """One simulation is held at a line of its set-up or run while another one is set up and run."""
    want = {"A": tiny(p["a"], 3), "B": tiny(p["b"], 8)}

    def whole(c, seed):
        def call():
            sim = sr.Simulation("one")
            sim.setup(tiny_conf(c, seed), None)
            sim.run()
            return sim.output
        return call
    calls = [whole(p["a"], 3), whole(p["b"], 8)]
    with sr.limited(1):
        stops = ov.points(ov.trail(calls[0]), p["visits"])
        infeasible = 0
        for i in stops[p["part"]::8]:
            if infeasible > 1:
                break
            outs, feasible = ov.interleave(calls, [(0, i), (1, None), (0, None)])
            infeasible += not feasible
            for who, got in zip("AB", outs):
                label = f"simulations {p['a']} (held after {i} lines) and {p['b']}"
                if rec.check(set(got) == set(want[who]), f"{label}: results of {who}"):
                    for k in got:
                        rec.same(f"{label}: '{k}' of {who} against a run on its own", np.asarray(got[k]), want[who][k])
            rec.state((str(p), i))
            rec.step(3)
            rec.trace(2)
            if rec.failures:
                return


def tiny_conf(c, seed):
    big = sr.dims(c[0]) > 1
    return sr.parameters(c[0], c[1], 0.0, 0.04 if big else 0.3, 0.01 if big else 0.05, 60 if big else 6, seed)


_TINY = {}


def tiny(c, seed):
    key = (tuple(c), seed)
    if key not in _TINY:
        sim, _ = sr.run(tiny_conf(c, seed), None, 1)
        _TINY[key] = {k: np.array(v, copy=True) for k, v in sim.output.items()}
    return _TINY[key]


# ---- calls that are broken off

def gen_interrupted(tier):
    for a in NAMES:
        if tier == "quick" and a.split()[0] in ("F", "dF", "init") and not a.endswith(" 0 0") and a != "init L63 1":
            continue
        yield {"call": a, "visits": 1 if tier == "quick" else 3}


def run_interrupted(p, rec):
    """An error at any source line of a call: the arguments are intact and the next calls notice nothing."""
    name = p["call"]
    key, build, args, call = OPS[name]
    want = first(name)
    earlier = [n for n in NAMES if n != name and OPS[n][0] == key]
    earlier = sorted(earlier, key=lambda n: n.split()[-1] == name.split()[-1])[:1]

    def used():
        """An instance that has already served another call, where there is one."""
        o = build()
        for n in earlier:
            OPS[n][3](o, OPS[n][2]())
        return o
    obj, a = used(), args()
    stops = ov.points(ov.trail(lambda: call(obj, a)), p["visits"])
    for i in stops:
        obj, a = used(), args()
        given = copies(a)
        reached, _ = ov.interrupt(lambda: call(obj, a), i)
        label = f"'{name}' broken off after {i} lines" + "".join(f" (after '{n}')" for n in earlier)
        compare(rec, f"{label}: arguments", a, given)
        for who, o in (("the same instance", obj), ("a new instance", build())):
            got = copies(call(o, args()))
            if rec.check(set(got) == set(want), f"{label}: different parts"):
                for k in want:
                    rec.same(f"{label}, then repeated on {who}: result{k}", got[k], want[k])
        rec.outcome("broken off" if reached else "ended before")
        rec.state((name, i))
        rec.step(3)
        rec.trace()
        if rec.failures:
            return


# ---- calls made from inside a function that was passed in

def outers():
    """name -> call(inner): components that call back, with inner() called at every call back."""
    def diff(inner):
        def f(x, c):
            inner()
            return float(c @ x ** 3)
        return ut.finite_diff(f, w(4, seed=1), w(4, seed=2))

    def vector(inner):
        def f(x, c):
            inner()
            return c * x ** 2 + 1.0
        return ut.ut_approx(f, w(4, seed=1), ref.spd(4, 1), 2.0)

    def optimise(inner):
        def f(x, *_):
            inner()
            return float(np.sum((x - 1.0) ** 4 + x ** 2))

        def df(x, *args, **kw):
            inner()
            return 4.0 * (x - 1.0) ** 3 + 2.0 * x
        scg = SCG(f, df, {"max_it": 5, "x_tol": 1e-6, "f_tol": 1e-8, "display": False})
        return scg(w(5, seed=3)), scg.stats
    return {"finite_diff": diff, "ut_approx": vector, "SCG": optimise}


OUTERS = outers()


def gen_nested(tier):
    for o in OUTERS:
        for n in NAMES + sorted(OUTERS):
            yield {"outer": o, "inner": n}


def run_nested(p, rec):
    """The call back makes another call (also of the same kind); neither notices."""
    inner = (lambda: copies(OUTERS[p["inner"]](lambda: None))) if p["inner"] in OUTERS else overlapped(p["inner"])
    outer = OUTERS[p["outer"]]
    want, want_in = copies(outer(lambda: None)), inner()
    seen = []
    got = copies(outer(lambda: seen.append(inner())))
    label = f"'{p['inner']}' called from the function given to {p['outer']}"
    if rec.check(set(got) == set(want), f"{label}: different parts"):
        for k in want:
            rec.same(f"{label}: result{k} of {p['outer']}", got[k], want[k])
    for n, r in enumerate(seen):
        for k in want_in:
            rec.same(f"{label}: result{k} of the inner call {n}", r[k], want_in[k])
        rec.step()
    rec.check(seen, f"{label}: the function was never called")
    rec.state((p["outer"], p["inner"]))
    rec.trace()


# ---- the same array objects, with new contents

def gen_inplace(tier):
    for key in ENTRIES:
        yield {"component": key}


def run_inplace(p, rec):
    """Arguments changed in place between calls: every sequence of up to 4 contents, on the same array objects."""
    build, args, call = ENTRIES[p["component"]]
    kinds = [lambda a, j=j: [v * f if isinstance(v, float) or isinstance(v, np.ndarray) and v.dtype.kind == "f" else v
                             for v in a] for j, f in enumerate((1.0, 1.3, 0.7))]

    def last_entry(a):
        a = [np.array(v) if isinstance(v, np.ndarray) else v for v in a]
        for v in a:
            if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size > 1:
                v[-1] *= 1.01
        return a
    kinds.append(last_entry)
    fresh_ = [copies(call(build(), k(args()))) for k in kinds]
    for seq in itertools.product(range(len(kinds)), repeat=3 if "L96" in p["component"] else 4):
        obj, live = build(), args()
        for n, j in enumerate(seq):
            now = kinds[j](args())
            for i, v in enumerate(now):
                if isinstance(v, np.ndarray):
                    live[i][...] = v
                else:
                    live[i] = v
            given = copies(live)
            got = copies(call(obj, live))
            for k, v in fresh_[j].items():
                rec.same(f"{p['component']}: arrays refilled with {list(seq[:n + 1])}: result{k} against a new "
                         "instance", got[k], v)
            compare(rec, f"{p['component']}: arguments of call {n}", live, given)
            rec.step()
        rec.state((p["component"],) + seq)
        rec.trace()
        if rec.failures:
            return


FAMILIES = [
    Family("twins", gen_twins, run_twins, "per component: all sequences of three calls over 3-12 argument "
           "sets of equal shapes on one instance"),
    Family("pairs", gen_pairs, run_pairs, f"all ordered pairs of {len(NAMES)} calls, then the first again"),
    Family("entries", gen_entries, run_entries, "every component: base arguments, one entry of one argument "
           "changed (every entry), base again, on one instance against new instances"),
    Family("triples", gen_triples, run_triples, "all sequences of 3 (4) evaluations on two instances of a system; "
           "thorough: all triples of the main calls"),
    Family("near", gen_near, run_near, "every component and argument: calls whose argument (all of it, or one time of "
           "it) differs from the one before by factors 1+2^-5 to 1+2^-45, against new instances"),
    Family("long", gen_long, run_long, "every component: 300 calls (free energy and Lorenz-96 120-310; thorough: four "
           "times that) cycling through 1, 2, 3, 7, 16 or 150 argument sets on one instance"),
    Family("settings", gen_settings, run_settings, "all sequences of 3 (4; Lorenz-96 2) updates, paths, observations "
           "and energies on one system; everything read on the way stays as it was"),
    Family("setup", gen_setup, run_setup, "4 systems x forms of noise, observation noise and prior x with or without "
           "data; set up and run twice from one dictionary"),
    Family("interleave", gen_interleave, run_interleave, "all interleavings of set-up and run of two simulations, "
           "5 x 5 (9 x 9) configurations"),
    Family("reuse", gen_reuse, run_reuse, "one simulation object set up and run 2 or 3 times: all ordered pairs of 10 "
           "variants per system (thorough: all triples) and changes of system, with 0, 1 or 2 runs each"),
    Family("overlap", gen_overlap, run_overlap, "every call held at every source line (first and last visit; thorough: second) "
           "while a call on another instance (same component with other values, other shapes; free energy; energies) "
           "runs; both held, at 6 x 6 (30 x 30) lines"),
    Family("overlap-runs", gen_overlap_runs, run_overlap_runs, "4 simulations, each with itself and the next (thorough: all ordered pairs): one held at every "
           "source line of its set-up and run (first and last visit; thorough: second too) while the other is set up "
           "and run"),
    Family("interrupted", gen_interrupted, run_interrupted, "every call broken off by an error at every source line "
           "(first and last visit; thorough: first three), then repeated on the same and on a new instance"),
    Family("nested", gen_nested, run_nested, "every call made from inside the function given to the differentiator, the "
           "unscented transform or the optimiser, at every call back"),
    Family("inplace", gen_inplace, run_inplace, "every component: all sequences of 4 (Lorenz-96: 3) contents written "
           "into the same array objects"),
]
