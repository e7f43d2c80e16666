"""P17: saved results load back unchanged."""
import itertools
import os
from pathlib import Path

import numpy as np

from mc import ref
from mc import simrun as sr
from mc.core import Family, subsets
from src.var_bayes.simulation import Simulation, load

ID = "P17"
RULE = ("explicit-state exploration: every sequence of saves (over all names and result sets) and loads "
        "to the stated depth in a scratch directory, next to a model {file name: results}; after every "
        "operation the directory listing and every file's contents are compared with the model")
ASSUMPTIONS = ["result values are numeric arrays or scalars, as produced by run()"]


def results(k):
    """Result sets with overlapping names, different shapes and types."""
    w = ref.wave
    return [
        {"at": w(5, seed=1), "bt": w(5, seed=2), "fx": 1.25},
        {"at": w(4, 3, 3, seed=3), "bt": w(4, 3, seed=4), "fx": np.float64(-3.5), "m0": w(3, seed=5),
         "s0": 0.2 * np.eye(3)},
        {"x": np.array([np.nan, np.inf, -np.inf, 0.0, -0.0, 1e-300, 1e300])},
        {"fx": 7, "n": np.arange(6).reshape(2, 3), "one": np.array([3.5]), "flag": np.int64(-2)},
        {"at": np.asfortranarray(w(6, 4, seed=6)), "cut": w(12, 4, seed=7)[::3, ::2], "fx": 0.0},
    ][k]


NAMES = ["Sim", "Sim 01", "  Sim 01 ", "Sim_01", None, "a  b", "run.v2", "Sim 01.h5"]


def file_of(name):
    if not name:
        return "ID_None.h5"
    return str(name).strip().replace(" ", "_") + ".h5"


def put(name, res):
    s = Simulation(name)
    s.output = dict(res)
    s.save()
    return s


def agree(rec, label, got, want):
    rec.check(isinstance(got, dict), f"{label}: load returned {type(got).__name__}")
    if not rec.check(set(got) == set(want), f"{label}: names {sorted(got)}, expected {sorted(want)}"):
        return
    for k, v in want.items():
        w = np.atleast_1d(np.asarray(v, dtype=float))
        g = np.asarray(got[k])
        if rec.check(g.shape == w.shape, f"{label}: '{k}' has shape {g.shape}, saved {w.shape}"):
            if np.asarray(v).dtype.kind in "iu":
                rec.check([int(i) for i in g.ravel()] == [int(i) for i in np.ravel(v)], f"{label}: '{k}' changed")
            else:
                rec.check(np.array_equal(g.astype(float), w, equal_nan=True), f"{label}: '{k}' changed")


def directory(rec, label, model):
    """The files are exactly those of the model, with its contents."""
    have = sorted(str(p.relative_to(".")) for p in Path(".").rglob("*") if p.is_file())
    if not rec.check(have == sorted(model), f"{label}: files {have}, expected {sorted(model)}"):
        return
    for f, res in model.items():
        raw = Path(f).read_bytes()
        agree(rec, f"{label}: {f}", load(f), res)
        rec.check(Path(f).read_bytes() == raw, f"{label}: loading changed {f}")
        rec.step()


def gen_history(tier):
    names = NAMES[:5] if tier == "quick" else NAMES
    ops = [["save", n, k] for n in range(len(names)) for k in range(5)] + [["empty", 0, 0], ["empty", 1, 0]]
    for n in range(1, 3):
        for seq in itertools.product(ops, repeat=n):
            yield {"seq": list(seq)}
    small = [["save", n, k] for n in (1, 2, 0) for k in (0, 1, 3)] + [["empty", 1, 0]]
    for seq in itertools.product(small, repeat=3 if tier == "quick" else 4):
        yield {"seq": list(seq)}


def run_history(p, rec):
    model = {}
    with sr.scratch():
        for op, n, k in p["seq"]:
            name = NAMES[n]
            if op == "empty":
                Simulation(name).save()
            else:
                put(name, results(k))
                model[file_of(name)] = results(k)
            directory(rec, str(p["seq"]), model)
            rec.state(tuple(sorted((f, tuple(sorted(r))) for f, r in model.items())))
            if rec.failures:
                return
    rec.trace()


# ---- the same object saved again after its results change

def gen_object(tier):
    for seq in itertools.product(["save", "run0", "run1", "drop", "load"], repeat=5 if tier == "thorough" else 4):
        if "save" in seq:
            yield {"seq": list(seq)}


def run_object(p, rec):
    with sr.scratch():
        s = Simulation("one object")
        model, held = {}, {}
        s.output = {}
        for op in p["seq"]:
            if op == "save":
                s.save()
                if held:
                    model["one_object.h5"] = dict(held)
                rec.check(set(s.output) == set(held), "saving changed the set of results")
                for k in held:
                    rec.check(np.array_equal(np.atleast_1d(s.output[k]), np.atleast_1d(held[k])),
                              f"saving changed the result '{k}'")
            elif op == "drop":
                s.output = {}
                held = {}
            elif op == "load":
                if model:
                    got = load(Path("one_object.h5"))
                    agree(rec, str(p["seq"]), got, model["one_object.h5"])
                    for v in got.values():
                        v[...] = 0      # what the caller does with it does not reach the file
                else:
                    rec.raises("loading a missing file", lambda: load("one_object.h5"), OSError)
            else:
                r = results(int(op[-1]))
                s.output = dict(s.output, **r)
                held = dict(held, **r)
            directory(rec, str(p["seq"]), model)
            rec.state((op, tuple(sorted(held)), tuple(sorted(model))))
        rec.trace()


# ---- shapes and types of single results

def gen_value(tier):
    for shape in ([1], [2], [7], [1, 1], [2, 3], [3, 1], [1, 3], [2, 2, 2], [4, 1, 5], [1000], [50, 20, 20],
                  [2, 3, 2, 2]):
        for kind in ("float", "int", "zeros", "constant", "transposed", "strided", "float32", "bool", "huge"):
            yield {"shape": shape, "kind": kind}
    for shape in ([10000], [30000], [100000], [1000000], [2000, 40], [500, 10, 10], [51, 40, 40], [2000, 3, 3]):
        for kind in ("float", "int"):
            yield {"shape": shape, "kind": kind}
    for v in (0, 1, -1, 2 ** 62 + 1, -2 ** 53 - 1, 2.5, 1e-320, 1e308, "nan", "inf", "-inf"):
        for kind in ("python", "numpy"):
            yield {"scalar": v, "kind": kind}


def run_value(p, rec):
    if "scalar" in p:
        v = float(p["scalar"]) if isinstance(p["scalar"], str) else p["scalar"]
        v = v if p["kind"] != "numpy" else np.float64(v) if isinstance(v, float) else np.int64(v)
    else:
        v = ref.wave(*p["shape"], seed=len(p["shape"]), amp=1e3)
        v = {"float": v, "int": v.astype(int), "zeros": v * 0, "constant": v * 0 + 2.5, "transposed": v.T,
             "strided": np.repeat(v, 2, axis=0)[::2], "float32": v.astype(np.float32), "bool": v > 0,
             "huge": 2 ** 60 + 2 * np.arange(v.size).reshape(v.shape) + 1}[p["kind"]]
    with sr.scratch():
        keep = np.array(v, copy=True)
        put("v", {"value": v, "other": np.arange(3.0)})
        directory(rec, str(p), {"v.h5": {"value": keep, "other": np.arange(3.0)}})
        rec.check(np.array_equal(np.asarray(v), keep, equal_nan=keep.dtype.kind == "f"), "the value was modified")
    rec.state(str(p))
    rec.trace()


def gen_names(tier):
    chars = ["a", " ", "_", ".", "B"]
    for n in range(1, 5 if tier == "quick" else 6):
        for c in itertools.product(chars, repeat=n):
            s = "".join(c)
            if s.strip() and not s.strip().startswith("."):
                yield {"name": s}
    for s in ("", "Sim_00", "é t", "x" * 100, "tab\tin", " lead", "trail  ", "1", "a-b (c)"):
        yield {"name": s}


def run_names(p, rec):
    with sr.scratch():
        want = {file_of(p["name"]): results(0)}
        put(p["name"], results(0))
        have = sorted(os.listdir("."))
        rec.check(have == sorted(want), f"name {p['name']!r}: files {have}, expected {sorted(want)}")
        directory(rec, p["name"], want)
    rec.state(p["name"])
    rec.trace()


def gen_many(tier):
    for first in (0, 1, 5, 100, 300):
        for second in (0, 1, 70, 200):
            yield {"first": first, "second": second}


def run_many(p, rec):
    """Any number of results, in place of any number of others."""
    sets = [{f"r{i:03d}": ref.wave(1 + i % 4, seed=i) for i in range(p["first"])},
            {f"q{i}": np.array([float(i)]) for i in range(p["second"])}]
    with sr.scratch():
        model = {}
        for res in sets + sets[:1]:
            put("many", res)
            if res:
                model["many.h5"] = res
            directory(rec, f"{p}", model)
            rec.step()
    rec.state(str(p))
    rec.trace()


def gen_none(tier):
    for how in ("default", "none", "keyword", "missing"):
        yield {"how": how}


def run_none(p, rec):
    with sr.scratch():
        if p["how"] == "missing":
            rec.raises("missing file", lambda: load("nothing.h5"), OSError)
        else:
            rec.raises("no file name", {"default": load, "none": lambda: load(None),
                                        "keyword": lambda: load(filename=None)}[p["how"]], RuntimeError)
        rec.check(os.listdir(".") == [], "loading created a file")
    rec.state(p["how"])
    rec.step()
    rec.trace()


def gen_real(tier):
    for name in ("OU", "DW", "L63", "L96"):
        yield {"sys": name}


def run_real(p, rec):
    big = p["sys"] in ("L63", "L96")
    params = sr.parameters(p["sys"], tf=0.05 if big else 0.4, dt=0.01 if big else 0.05, density=50 if big else 5)
    sim, _ = sr.run(params, None, 2, name="real " + p["sys"])
    keep = {k: np.array(v, copy=True) for k, v in sim.output.items()}
    with sr.scratch():
        for _ in range(2):
            sim.save()
            directory(rec, p["sys"], {f"real_{p['sys']}.h5": keep})
    rec.check(set(keep) >= set(sr.KEYS), f"results {sorted(keep)}")
    rec.state(p["sys"])
    rec.trace()


FAMILIES = [
    Family("history", gen_history, run_history, "all sequences of <=2 of 27 (42) operations and of 3 (4) of "
           "10 operations"),
    Family("object", gen_object, run_object, "all sequences of 4 (5) of save/change/clear/load on one object"),
    Family("value", gen_value, run_value, "12 shapes x 9 kinds of array, 8 large shapes up to a million numbers x 2, 11 "
           "scalars x 2 types"),
    Family("names", gen_names, run_names, "all names of <=4 (5) characters over 5 letters, and 9 others"),
    Family("many", gen_many, run_many, "0-300 results replaced by 0-200 others and back"),
    Family("none", gen_none, run_none, "missing arguments and files"),
    Family("real", gen_real, run_real, "results of real runs of every system, saved twice"),
]
