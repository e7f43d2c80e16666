"""P03: Gaussian moments against the exact (integer / rational) moment formula."""
import itertools
from fractions import Fraction

import numpy as np

from mc import ref
from mc.core import Family
from src.var_bayes.gaussian_moments import GaussianMoments

ID = "P03"
RULE = ("moments of degree <= 8 in m and <= 4 in v are decided by their values on a 9 x 5 integer "
        "grid (unisolvent for those degrees); the grid is enumerated completely and every order "
        "compared with exact rational arithmetic")
ASSUMPTIONS = ["off the grid, values are compared at further points only (sizes, magnitudes)"]


def exact(kind, n, m, v):
    m, v = Fraction(m), Fraction(v)
    if kind == "e":
        return ref.gauss_moment(n, m, v)
    if kind == "dm":                                  # d/dm E x^n = n E x^(n-1)
        return n * ref.gauss_moment(n - 1, m, v)
    if n < 2:
        return Fraction(0)
    return Fraction(n * (n - 1), 2) * ref.gauss_moment(n - 2, m, v)   # d/dv = 1/2 E (x^n)''


def ask(g, kind, n):
    return {"e": g, "dm": g.dm, "ds": g.ds}[kind](n)


def every(rec, g, ms, vs, name, rtol=1e-9):
    want_shape = (len(ms),)
    for kind in ("e", "dm", "ds"):
        for n in range(0 if kind == "e" else 1, 9):
            want = np.array([float(exact(kind, n, m, v)) for m, v in zip(ms, vs)])
            got = np.asarray(ask(g, kind, n))
            if not rec.check(got.shape == want_shape, f"{name} {kind}{n}: shape {got.shape}"):
                continue
            # scale element by element: the sum of the absolute terms of the polynomial
            scale = np.array([float(exact(kind, n, abs(m), v)) for m, v in zip(ms, vs)])
            err = np.abs(np.asarray(got, float) - want)
            bad = ~(err <= rtol * scale + 1e-300)
            if bad.any():
                i = int(np.argmax(bad))
                rec.fail(f"{name} {kind}({n}) at m={ms[i]} v={vs[i]}: got {got[i]!r} expected {want[i]!r}")
            rec.step(len(ms))
            rec.state((kind, n, [float(x) for x in ms], [float(x) for x in vs]))
    rec.trace()


def gen_grid(tier):
    top = 6 if tier == "thorough" else 4
    for m in range(-top, top + 1):
        for v in range(0, top + 1):
            yield {"m": m, "v": v}


def run_grid(p, rec):
    m, v = p["m"], p["v"]
    every(rec, GaussianMoments(np.array([float(m)]), np.array([float(v)])), [m], [v], "grid")
    every(rec, GaussianMoments(float(m), float(v)), [m], [v], "scalar input")
    every(rec, GaussianMoments(np.array([m]), np.array([v])), [m], [v], "integer input")


def gen_size(tier):
    for n in [1, 2, 3, 4, 5, 8, 9, 50, 300, 1500] + ([1000, 20000] if tier == "thorough" else []):
        for off in range(3):
            yield {"n": n, "off": off}


def run_size(p, rec):
    n = p["n"]
    m = np.round(ref.wave(n, seed=p["off"], amp=3.0) * 1024) / 1024
    v = np.round((ref.wave(n, seed=p["off"] + 7, amp=1.0) + 1.0) * 1024) / 1024
    every(rec, GaussianMoments(m, v), m.tolist(), v.tolist(), "size")
    # every(...) again on the same object: earlier queries must not change later ones
    g = GaussianMoments(m.copy(), v.copy())
    for kind, k in itertools.product(("e", "dm", "ds"), range(1, 9)):
        ask(g, kind, k)
    every(rec, g, m.tolist(), v.tolist(), "second query")
    g = GaussianMoments(m.tolist(), v.tolist()) if p["off"] == 0 else GaussianMoments(m[::-1], v[::-1])
    s = 1 if p["off"] == 0 else -1
    every(rec, g, m.tolist()[::s], v.tolist()[::s], "list/view")


def gen_magnitude(tier):
    vals = [0.0, 1e-8, 1e-3, 0.5, 1.0, 40.0, 1000.0, 1e5]
    for m in vals + [-x for x in vals[1:]]:
        yield {"m": m}


def run_magnitude(p, rec):
    vs = [0.0, 1e-12, 1e-6, 0.1, 1.0, 25.0, 1e6]
    ms = [p["m"]] * len(vs)
    every(rec, GaussianMoments(np.array(ms), np.array(vs)), ms, vs, "magnitude")
    if p["m"] == round(p["m"]):
        for dtype in (np.int64, np.int32):
            w = [0, 1, 7, 1000, 10 ** 6]
            every(rec, GaussianMoments(np.array([int(p["m"])] * len(w), dtype), np.array(w, dtype)),
                  [int(p["m"])] * len(w), w, f"magnitude {dtype.__name__}")


def gen_order(tier):
    for kind in ("e", "dm", "ds"):
        for n in [-100, -9, -8, -2, -1, 9, 10, 11, 12, 16, 100, 10 ** 9]:
            yield {"kind": kind, "n": n}
    yield {"kind": "dm", "n": 0}
    yield {"kind": "ds", "n": 0}


def run_order(p, rec):
    g = GaussianMoments(np.array([0.5, 1.0]), np.array([0.2, 0.3]))
    rec.raises(f"{p['kind']}({p['n']})", lambda: ask(g, p["kind"], p["n"]), ValueError)
    rec.step()
    every(rec, g, [0.5, 1.0], [0.2, 0.3], "after a rejected query", rtol=1e-8)


def gen_shape(tier):
    shapes = [[], [1], [2], [3], [1, 2], [2, 1], [2, 2], [0]]
    for a in shapes:
        for b in shapes:
            yield {"a": a, "b": b}


def run_shape(p, rec):
    a, b = np.full(tuple(p["a"]), 0.5), np.full(tuple(p["b"]), 0.2)
    # A scalar counts as one element.
    same = (p["a"] or [1]) == (p["b"] or [1])
    rec.step()
    rec.outcome("accepted" if same else "rejected")
    if same:
        GaussianMoments(a, b)
    else:
        rec.raises(f"shapes {p['a']} {p['b']}", lambda: GaussianMoments(a, b), RuntimeError)


FAMILIES = [
    Family("grid", gen_grid, run_grid, "m in -4..4 (6), v in 0..4 (6), all orders, exact arithmetic"),
    Family("size", gen_size, run_size, "array lengths 1..1500 (20000), repeated queries, views"),
    Family("magnitude", gen_magnitude, run_magnitude, "13 means x 7 variances over 16 decades"),
    Family("order", gen_order, run_order, "orders outside 0..8 (1..8)"),
    Family("shape", gen_shape, run_shape, "all pairs of 8 shapes"),
]
