"""P19: the command line either saves complete results or fails visibly."""
import contextlib
import io
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from mc import core, overlap, ref
from mc import simrun as sr
from mc.core import Family, hamming, subsets
from src.var_bayes.simulation import Simulation, load

import vgpa_main

ID = "P19"
RULE = ("every subset of the required entries left out, every prefix of a parameter file, every single and "
        "pair of invalid values, every failing stage and write: the run must end with failure and no results, "
        "or with success and complete results that belong to the parameters and observations it was given")
ASSUMPTIONS = ["most runs call main() in this process; the script itself is started for a list of argument lists"]
REQUIRED = ["Output_Name", "Model", "Ode-method", "Time-window", "Noise", "Observations", "Drift", "Prior",
            "Random-Seed"]
NESTED = [("Time-window", "t0"), ("Time-window", "tf"), ("Time-window", "dt"), ("Noise", "sys"),
          ("Noise", "obs"), ("Observations", "density"), ("Drift", "theta"), ("Prior", "mu0"),
          ("Prior", "tau0")]


def call(*args):
    """(succeeded, how it ended)."""
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            vgpa_main.main(*args)
        return True, "returned"
    except SystemExit as e:
        return e.code in (None, 0), f"exit status {e.code!r}"
    except core.Hang:
        raise
    except Exception as e:
        return False, f"{type(e).__name__}: {e}"


def files():
    return sorted(os.path.relpath(os.path.join(r, f)) for r, _, fs in os.walk(".") for f in fs)


def complete(rec, label, path, params, data=None, given=False):
    """The file holds finite results that belong to the parameters (and observations)."""
    out = load(path)
    for k in sr.KEYS:
        if not rec.check(k in out, f"{label}: '{k}' is not in the results file"):
            return None
    for k, v in out.items():
        rec.check(np.all(np.isfinite(np.asarray(v, float))), f"{label}: '{k}' is not finite")
    out["fx"] = np.asarray(out["fx"], float).reshape(())
    N, d = len(sr.window(params)), sr.dims(params["Model"])
    rec.check(np.shape(out["mt"])[0] == N, f"{label}: {np.shape(out['mt'])[0]} time points, expected {N}")
    if given:
        times, values = data
        sr.check_output(rec, label, params, times, values, out)
    return out


def judge(rec, label, want, ended, expected_file, before, params=None, data=None):
    """want: True success, False failure, None either (but consistent)."""
    ok, how = ended
    new = [f for f in files() if f not in before]
    if want is not None:
        rec.check(ok == want, f"{label}: {'failed' if want else 'reported success'} ({how})")
    rec.outcome("success" if ok else "failure")
    if ok:
        if rec.check(new == [expected_file] or expected_file is None and len(new) == 1,
                     f"{label}: wrote {new}, expected {expected_file}") and params is not None:
            complete(rec, label, new[0], params, data, data is not None)
    else:
        rec.check(new == [], f"{label}: failed ({how}) but wrote {new}")
    rec.step()


def small(name="OU", **kw):
    return sr.parameters(name, tf=0.3 if name in ("OU", "DW") else 0.05,
                         dt=0.05 if name in ("OU", "DW") else 0.01,
                         density=10 if name in ("OU", "DW") else 60, **kw)


def write(params, path="p.json"):
    with open(path, "w") as f:
        f.write(params if isinstance(params, str) else json.dumps(params))


# ---- missing entries

def gen_missing(tier):
    for gone in subsets(REQUIRED):
        yield {"gone": gone}
    for gone in subsets(range(len(NESTED)), 1):
        if len(gone) <= (2 if tier == "quick" else 9):
            yield {"nested": gone}


def run_missing(p, rec):
    with sr.scratch():
        q = small()
        for k in p.get("gone", []):
            del q[k]
        for i in p.get("nested", []):
            del q[NESTED[i][0]][NESTED[i][1]]
        write(q)
        lost = len(p.get("gone", p.get("nested")))
        judge(rec, f"without {p}", lost == 0, call("p.json"), "Sim_X.h5", ["p.json"], q if not lost else None)
        rec.state(str(p))
        rec.trace()


# ---- damaged files

def text():
    return json.dumps(small(), indent=1)


def gen_damaged(tier):
    for n in range(len(text())):
        yield {"prefix": n}
    for s in ("[]", "null", "3", '"Model"', "{}", "{", "}", "not json", "{'Model': 'OU'}", "[{}]",
              text() + "}", text() + text(), text().replace(":", "=", 1), text().replace(",", ";", 1)):
        yield {"text": s}
    for what in ("nothing", "directory", "none", "binary", "empty name"):
        yield {"what": what}
    if tier == "thorough":
        for n in range(len(text())):
            yield {"without": n}


def run_damaged(p, rec):
    with sr.scratch():
        before = ["p.json"]
        arg, want = "p.json", False
        if "prefix" in p:
            write(text()[:p["prefix"]])
        elif "text" in p:
            write(p["text"])
        elif "without" in p:
            s = text()
            write(s[:p["without"]] + s[p["without"] + 1:])
            want = None
        elif p["what"] == "binary":
            open("p.json", "wb").write(bytes(range(256)))
        elif p["what"] == "directory":
            os.mkdir("p.json")
        elif p["what"] == "none":
            arg = None
        elif p["what"] == "empty name":
            arg = ""
        judge(rec, f"{p}", want, call(arg), None if want is None else "Sim_X.h5", before)
        rec.state(str(p))
        rec.trace()


# ---- invalid values

INVALID = {("Model",): ["", "foo", None, 3, "O U", ["OU"]], ("Ode-method",): ["", "rk3", None, 4, "eulerr"],
           ("Time-window", "dt"): [0, 0.0, -0.05, None, "x", -0.01], ("Time-window", "tf"): [0.0, -1.0, None],
           ("Noise", "sys"): [0, 0.0, -0.1, None, "x", -1e-12], ("Noise", "obs"): [0, 0.0, -0.1, None, "x"],
           ("Observations", "density"): [21, 1000, None, "x", 0, -3], ("Drift", "theta"): [0, -1.0, None, "x"],
           ("Prior", "tau0"): [0, -0.5, None, "x"], ("Prior", "mu0"): [None, "x"],
           ("Random-Seed",): ["x", -1]}
VECTOR = {("Noise", "sys"): [0, -1.0, [1.0, 2.0], [1.0, 0.0, 2.0], [1.0, 2.0, -1e-9], [1.0, 2.0, 3.0, 4.0],
                             [[1, 0, 0], [0, 1, 2], [0, 2, 1]], None],
          ("Noise", "obs"): [0, -1.0, [1.0, 0.0, 2.0], [-2.0, 1.0, 1.0], [1.0, 2.0, 3.0, 4.0], None, "x"],
          ("Observations", "density"): [101, 1000], ("Prior", "tau0"): [0, -1.0, None], ("Ode-method",): ["rk5"],
          ("Time-window", "dt"): [0, -0.01], ("Model",): ["L64", "Lorenz"]}


def gen_invalid(tier):
    deep = tier == "thorough"
    for name, table in (("OU", INVALID), ("DW", INVALID), ("L63", VECTOR), ("L96", VECTOR)):
        paths = [k for k in table if not (name == "DW" and k == ("Drift", "theta"))]
        for path in paths:
            for i in range(len(table[path])):
                if name == "L96" and isinstance(table[path][i], list):
                    continue
                yield {"sys": name, "bad": [[list(path), i]]}
        if name == "OU" or deep and name == "L63":
            for a, b in itertools.combinations(paths, 2):
                for i in range(len(table[a])):
                    for j in range(len(table[b])):
                        if deep or i < 3 and j < 3:
                            yield {"sys": name, "bad": [[list(a), i], [list(b), j]]}


def run_invalid(p, rec):
    table = INVALID if p["sys"] in ("OU", "DW") else VECTOR
    with sr.scratch():
        q = small(p["sys"])
        for path, i in p["bad"]:
            at = q
            for k in path[:-1]:
                at = at[k]
            at[path[-1]] = table[tuple(path)][i]
        write(q)
        with open("Sim_X.h5", "wb") as f:
            f.write(b"earlier results")
        judge(rec, f"{p['sys']} with {[(a, table[tuple(a)][i]) for a, i in p['bad']]}", False, call("p.json"),
              "Sim_X.h5", ["Sim_X.h5", "p.json"])
        rec.check(open("Sim_X.h5", "rb").read() == b"earlier results", "earlier results were overwritten")
        rec.state(str(p))
        rec.trace()


# ---- successful runs

NAMES = {"Sim_X": "Sim_X.h5", None: "Sim_00.h5", "  my run ": "my_run.h5", "a b c": "a_b_c.h5", "v1.2": "v1.2.h5"}


def gen_success(tier):
    for name in ("OU", "DW", "L63", "L96"):
        for method in ("Euler", "Heun", "RK2", "RK4"):
            for out in (NAMES if name in ("OU", "DW") else ["Sim_X"]):
                for extra in (False, True) if name == "OU" else (False,):
                    yield {"sys": name, "method": method, "out": out, "extra": extra}


def run_success(p, rec):
    it = {"L63": 10, "L96": 2}.get(p["sys"])
    with sr.scratch(), sr.limited(it):
        q = small(p["sys"], method=p["method"], output=p["out"])
        if p["extra"]:
            q["Comment"] = "not required"
        write(q)
        ended = call("p.json")
        judge(rec, f"{p}", True, ended, NAMES[p["out"]], ["p.json"], q)
        if rec.failures:
            return
        # The file holds what the same set-up gives.
        sim, mon = sr.run(small(p["sys"], method=p["method"]), None, it)
        out = load(NAMES[p["out"]])
        want = np.asarray(sim.output["bt"], float)
        rec.same(f"{p}: saved 'bt' against a direct run", np.asarray(out["bt"], float), want)
        rec.check(json.load(open("p.json")) == q, "the parameter file was changed")
        sr.check_output(rec, f"{p}", q, sim.m_data["obs_t"], sim.m_data["obs_y"],
                        {**out, "fx": np.asarray(out["fx"], float).reshape(())})
        # A second run replaces the results.
        q["Random-Seed"] = 99
        write(q)
        judge(rec, f"{p}, again", True, call("p.json"), None, [f for f in files() if not f.endswith(".h5")], q)
        rec.check(not np.array_equal(np.asarray(load(NAMES[p["out"]])["bt"], float), want),
                  f"{p}: results of an earlier run were kept")
        rec.state(str(p))
        rec.trace(2)


def gen_shipped(tier):
    for f in ("sim_params_DW.json", "sim_params_L3D.json", "sim_params_L40D.json"):
        yield {"file": f}


def run_shipped(p, rec):
    """The shipped parameter files, with a shorter window and few iterations."""
    q = json.load(open(os.path.join(core.REPO, p["file"])))
    w = q["Time-window"]
    w["tf"] = w["t0"] + {"sim_params_DW.json": 2.0}.get(p["file"], 0.6 if "L3D" in p["file"] else 0.3)
    with sr.scratch(), sr.limited(3):
        write(q)
        before = files()
        ended = call("p.json")
        judge(rec, f"{p}", True, ended, None, before, q)
        rec.state(str(p))
        rec.trace()


# ---- separate observations

def gen_data(tier):
    N = 7
    for name in ("OU", "DW"):
        for obs in subsets(range(N), 1):
            for method in ("Euler", "RK4") if tier == "quick" else ("Euler", "Heun", "RK2", "RK4"):
                for kind in (0, 1, 2):
                    yield {"sys": name, "obs": obs, "method": method, "kind": kind}
        for obs in subsets(range(1, 6), 1):
            for form in FORMS:
                yield {"sys": name, "obs": obs, "method": "Euler", "kind": len(obs) % 3, "form": form}


FORMS = {"windows": lambda s: s.replace("\n", "\r\n"), "no last newline": lambda s: s[:-1],
         "spaces": lambda s: s.replace(",", ", "), "blank lines": lambda s: "\n" + s.replace("\n", "\n\n"),
         "padded": lambda s: "\n".join("  " + v for v in s.split("\n")[:-1]) + "\n",
         "exponents": lambda s: "".join("%d,%.17e\n" % (int(v.split(",")[0]), float(v.split(",")[1]))
                                        for v in s.split()),
         "signs": lambda s: "".join("+%d,%+.17f\n" % (int(v.split(",")[0]), float(v.split(",")[1]))
                                    for v in s.split())}


def run_data(p, rec):
    with sr.scratch():
        y = 1.5 * ref.wave(len(p["obs"]), seed=5 + p["kind"])
        if p["kind"] == 2:
            y = np.round(2 * y)                 # integers only
        q = small(p["sys"], method=p["method"])
        write(q)
        with open("d.csv", "w") as f:
            for t, v in zip(p["obs"], y):
                f.write(f"{t},{int(v) if p['kind'] == 2 else repr(float(v))}\n")
        if "form" in p:
            text_ = FORMS[p["form"]](open("d.csv").read())
            open("d.csv", "w", newline="").write(text_)
        keep = open("d.csv").read()
        judge(rec, f"{p}", True, call("p.json", "d.csv"), "Sim_X.h5", ["d.csv", "p.json"], q, (p["obs"], y))
        rec.check(open("d.csv").read() == keep, "the data file was changed")
        rec.state(str(p))
        rec.trace()


BAD_DATA = {"missing": None, "empty": "", "values missing": "1\n3\n", "not numbers": "1,a\n3,b\n",
            "not a value": "1,nan\n3,1.0\n", "outside": "1,1.0\n700,2.0\n", "far outside": "-700,1.0\n3,2.0\n",
            "infinite": "1,inf\n3,1.0\n", "times missing": ",1.0\n,2.0\n"}


def gen_baddata(tier):
    for name in ("OU", "DW"):
        for k in BAD_DATA:
            yield {"sys": name, "data": k}


def run_baddata(p, rec):
    with sr.scratch():
        write(small(p["sys"]))
        before = ["p.json"]
        if BAD_DATA[p["data"]] is not None:
            open("d.csv", "w").write(BAD_DATA[p["data"]])
            before = ["d.csv", "p.json"]
        judge(rec, f"{p}", False, call("p.json", "d.csv"), "Sim_X.h5", before)
        rec.state(str(p))
        rec.trace()


# ---- failing stages

class Broken(Exception):
    pass


def gen_faults(tier):
    for stage in ("setup", "run", "save"):
        for error in ("ValueError", "RuntimeError", "OSError", "KeyError", "MemoryError", "ArithmeticError",
                      "KeyboardInterrupt", "LinAlgError"):
            yield {"stage": stage, "error": error}
    for k in range(12):
        yield {"write": k}
    yield {"target": "directory"}
    yield {"target": "missing"}


def run_faults(p, rec):
    import h5py
    with sr.scratch():
        q = small()
        if p.get("target") == "missing":
            q["Output_Name"] = "no/such/place"
        write(q)
        if "stage" in p:
            kind = {"LinAlgError": np.linalg.LinAlgError}.get(p["error"]) or getattr(__import__("builtins"), p["error"])

            def bad(self, *a, **kw):
                raise kind("planned failure")
            with sr.patched(Simulation, **{p["stage"]: bad}):
                try:
                    ended = call("p.json")
                except KeyboardInterrupt:
                    ended = (False, "KeyboardInterrupt")
            judge(rec, f"{p}", False, ended, "Sim_X.h5", ["p.json"])
        elif "target" in p:
            if p["target"] == "directory":
                os.mkdir("Sim_X.h5")
            judge(rec, f"{p}", False, call("p.json"), "Sim_X.h5", ["p.json"])
        else:
            count = [0]
            orig = h5py.Group.create_dataset

            def create(self, *a, **kw):
                count[0] += 1
                if count[0] == p["write"] + 1:
                    raise OSError("no space left on device")
                return orig(self, *a, **kw)
            with sr.patched(h5py.Group, create_dataset=create):
                ok, how = call("p.json")
            failed = count[0] > p["write"]
            rec.check(not (ok and failed), f"{p}: a write failed but the run reported success")
            if not failed:
                rec.check(ok, f"{p}: no write failed, but the run did: {how}")
                complete(rec, f"{p}", "Sim_X.h5", q)
            rec.outcome("write failed" if failed else "all written")
            rec.step()
        rec.state(str(p))
        rec.trace()


# ---- an error at any source line

def gen_crash(tier):
    for name in ("OU", "L63"):
        for error in ("OSError", "MemoryError") if tier == "quick" else ("OSError", "MemoryError", "ValueError",
                                                                        "RuntimeError", "KeyError", "TypeError"):
            for data in (False, True) if name == "OU" else (False,):
                for part in range(16):
                    yield {"sys": name, "error": error, "data": data, "part": part}


def run_crash(p, rec):
    """The run is hit by an error at each source line it visits (first and last visit)."""
    kind = getattr(__import__("builtins"), p["error"])
    with sr.scratch(), sr.limited(1):
        q = small(p["sys"])
        args = ("p.json", "d.csv") if p["data"] else ("p.json",)

        def start():
            for f in files():
                os.remove(f)
            write(q)
            if p["data"]:
                open("d.csv", "w").write("1,0.5\n4,1.0\n")
        start()
        stops = overlap.points(overlap.trail(lambda: call(*args)), 1)
        for i in stops[p["part"]::16]:
            start()
            ended = []
            reached, escaped = overlap.interrupt(lambda: ended.append(call(*args)), i, kind)
            ok, how = ended[0] if ended else (False, repr(escaped))
            if ok:
                there = "Sim_X.h5" in files()
                if rec.check(there, f"{p}: an error after {i} lines: success was reported, but nothing written"):
                    complete(rec, f"{p}: an error after {i} lines", "Sim_X.h5", q)
            rec.outcome("success" if ok else "failure")
            rec.state((str(p), i))
            rec.step()
            rec.trace()
            if rec.failures:
                return


# ---- the script

SCRIPT = {"none": [], "unknown option": ["--nothing"], "no value": ["--params"], "data only": ["--data", "d.csv"],
          "missing file": ["--params", "nosuch.json"], "run": ["--params", "p.json"],
          "run with data": ["--params", "p.json", "--data", "d.csv"], "bad model": ["--params", "bad.json"],
          "incomplete": ["--params", "part.json"], "broken": ["--params", "broken.json"],
          "missing data": ["--params", "p.json", "--data", "nosuch.csv"],
          "bad data": ["--params", "p.json", "--data", "bad.csv"], "positional": ["p.json"]}


def gen_script(tier):
    for k in SCRIPT:
        yield {"args": k}


def run_script(p, rec):
    with sr.scratch():
        q = small("DW")
        write(q)
        write({**q, "Model": "foo"}, "bad.json")
        write({k: v for k, v in q.items() if k != "Prior"}, "part.json")
        write(json.dumps(q)[:-5], "broken.json")
        open("d.csv", "w").write("2,1.0\n4,-0.5\n")
        open("bad.csv", "w").write("x,y\n")
        before = files()
        r = subprocess.run([sys.executable, "-B", os.path.join(core.REPO, "vgpa_main.py")] + SCRIPT[p["args"]],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                           timeout=80)
        good = p["args"] in ("run", "run with data")
        judge(rec, f"vgpa_main.py {' '.join(SCRIPT[p['args']])}", good, (r.returncode == 0, f"status {r.returncode}"),
              "Sim_X.h5", before, q if good else None, ([2, 4], np.array([1.0, -0.5])) if "with" in p["args"] else None)
        rec.state(str(p))
        rec.trace()


FAMILIES = [
    Family("missing", gen_missing, run_missing, "all 512 subsets of the required entries; all subsets of up to 2 "
           "(9) of the 9 nested entries"),
    Family("damaged", gen_damaged, run_damaged, "every prefix (thorough: also every single deleted character) of a "
           "parameter file; other kinds of files"),
    Family("invalid", gen_invalid, run_invalid, "every single invalid value on 4 systems, pairs of invalid values; "
           "earlier results present"),
    Family("success", gen_success, run_success, "4 systems x 4 schemes x names; run twice"),
    Family("shipped", gen_shipped, run_shipped, "shipped parameter files with shortened windows"),
    Family("data", gen_data, run_data, "all non-empty observation sets of a 7-point window x 2 systems x 2 (4) "
           "schemes x 3 data sets, in a file; 7 spellings of the file (line ends, blanks, exponents, signs)"),
    Family("baddata", gen_baddata, run_baddata, "unusable data files"),
    Family("faults", gen_faults, run_faults, "every stage failing with 8 kinds of error; every write failing"),
    Family("crash", gen_crash, run_crash, "an error of 2 (6) kinds at every source line visited in a run (first and last "
           "visit), 2 systems, with and without a data file: success only with complete results"),
    Family("script", gen_script, run_script, "13 argument lists of the script, in its own process"),
]
