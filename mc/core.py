"""Bounded exhaustive explorer: enumerates cases, runs them on the real code, compares with a model.

A *check* is a module with
    ID, TECHNIQUE_NOTE (free text for the evidence)
    FAMILIES = [Family(name, generate(tier) -> iterable of JSON-able params, run(params, rec), note)]
`run` drives the code under test and reports to the Recorder:
    rec.state(key)      a model state that was visited (hashed; distinct ones are counted)
    rec.step(n)         n model transitions that were compared with the implementation
    rec.trace(n)        n complete implementation executions validated against the model
    rec.outcome(key)    a coarse class of observed behaviour (to see that exploration is not vacuous)
    rec.check / rec.close / rec.same  comparisons; a failed one is a violation
Nothing is sampled: the set of cases is a deterministic function of the tier.
"""
import contextlib
import hashlib
import io
import itertools
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

REPO = os.environ.get("VGPA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 240          # seconds; a case normally takes milliseconds
QUICK_BUDGET = 780          # seconds; a quick check that is not done by then gives what it found
MAX_REPORTED = 5
SLOW = float(os.environ.get("VGPA_SLOW", "0"))     # name cases that take longer (debugging aid)

FAILFAST = bool(os.environ.get("VGPA_FAILFAST"))           # stop at the first violation (debugging aid)


class Family:
    def __init__(self, name, generate, run, note="", timeout=CASE_TIMEOUT):
        self.name, self.generate, self.run, self.note = name, generate, run, note
        self.timeout = timeout


class CaseFailed(Exception):
    pass


class Hang(BaseException):
    pass


def canon(key):
    """Canonical bytes of a state key: arrays are rounded to 9 significant digits."""
    if isinstance(key, np.ndarray):
        return ("A", key.shape, tuple(canon(v) for v in key.ravel().tolist()))
    if isinstance(key, (float, np.floating)):
        v = float(key)
        return "%.9g" % (v + 0.0)
    if isinstance(key, (tuple, list)):
        return tuple(canon(k) for k in key)
    if isinstance(key, dict):
        return tuple(sorted((str(k), canon(v)) for k, v in key.items()))
    return key


class Recorder:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.failures = []
        self.hung = False

    def state(self, key):
        self.states.add(hashlib.blake2b(repr(canon(key)).encode(), digest_size=8).digest())

    def array_state(self, *arrays):
        """Cheaper state key for large numeric states."""
        h = hashlib.blake2b(digest_size=8)
        for a in arrays:
            a = np.asarray(a, dtype=float)
            with np.errstate(all="ignore"):
                scale = 10.0 ** (9 - np.ceil(np.log10(np.abs(a) + 1e-300)))
                q = np.where(np.isfinite(a), np.round(a * scale) / scale, a)
            h.update(repr(a.shape).encode())
            h.update((q + 0.0).tobytes())
        self.states.add(h.digest())

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        key = str(key)
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def fail(self, message):
        self.failures.append(str(message)[:2000])

    def check(self, cond, message):
        if not bool(cond):
            self.fail(message() if callable(message) else message)
            return False
        return True

    def close(self, name, got, want, rtol=1e-8, atol=None, scale=None):
        """Shapes must match; |got-want| <= rtol*scale, scale being the largest magnitude involved."""
        try:
            g = np.asarray(got, dtype=float)
        except Exception as e:
            self.fail(f"{name}: result is not numeric: {type(got).__name__} ({e})")
            return False
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(f"{name}: shape {g.shape}, expected {w.shape}")
            return False
        if g.size == 0:
            return True
        g, w = np.atleast_1d(g), np.atleast_1d(w)
        fin = np.isfinite(w)
        if not np.array_equal(np.isfinite(g), fin) or not np.array_equal(
                g[~fin], w[~fin], equal_nan=True):
            self.fail(f"{name}: non-finite entries differ: got {short(g)} expected {short(w)}")
            return False
        if not fin.any():
            return True
        if scale is None:
            scale = max(1e-300, float(np.max(np.abs(w[fin]))))
        tol = rtol * scale + (1e-12 if atol is None else atol)
        err = np.abs(g - w)
        err[~fin] = 0.0
        worst = float(err.max())
        if not worst <= tol:
            i = np.unravel_index(int(err.argmax()), err.shape)
            self.fail(f"{name}: got {g[i]!r}, expected {w[i]!r} at {tuple(int(k) for k in i)} "
                      f"(difference {worst:.3e}, tolerance {tol:.3e})")
            return False
        return True

    def same(self, name, got, want):
        """Exact equality (bit for bit up to -0.0), used for 'must not change' comparisons."""
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w, equal_nan=g.dtype.kind == "f"):
            self.fail(f"{name}: changed from {short(w)} to {short(g)}")
            return False
        return True

    def raises(self, name, fun, *types, message=None):
        """fun must raise one of the exception types."""
        try:
            r = fun()
        except types:
            return True
        except Hang:
            raise
        except BaseException as e:
            self.fail(f"{name}: raised {type(e).__name__}: {str(e)[:200]}; "
                      f"expected {'/'.join(t.__name__ for t in types)}")
            return False
        self.fail(f"{name}: accepted (returned {short(r)}); expected "
                  f"{'/'.join(t.__name__ for t in types)}")
        return False


def short(x):
    s = np.array2string(x, threshold=12, precision=6) if isinstance(x, np.ndarray) else repr(x)
    return s if len(s) < 300 else s[:300] + "..."


# ---------------------------------------------------------------- enumeration helpers

def hamming(factors, k):
    """All assignments of {name: [default, alt, ...]} that leave the default in at most k factors.

    The default assignment comes first, then one deviation, then two, ...: the first failing case
    has the fewest deviations.
    """
    names = list(factors)
    base = {n: factors[n][0] for n in names}
    for r in range(k + 1):
        for combo in itertools.combinations(names, r):
            for alts in itertools.product(*[factors[n][1:] for n in combo]):
                d = dict(base)
                d.update(zip(combo, alts))
                yield d


def product(**factors):
    names = list(factors)
    for vals in itertools.product(*factors.values()):
        yield dict(zip(names, vals))


def subsets(items, least=0):
    items = list(items)
    for r in range(least, len(items) + 1):
        for c in itertools.combinations(items, r):
            yield list(c)


class Chooser:
    """Nondeterministic environment: choose(n) returns prefix[i], or 0 beyond the prefix."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []

    def choose(self, n):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise RuntimeError(f"replay diverged: choice {c} of {n} at point {i}")
        self.points.append((n, c))
        return c


def explore_choices(execute, bound, depth=None, prefix=()):
    """Stateless exploration of all choice sequences with at most `bound` non-default choices.

    execute(chooser) runs once. Yields the choice list of every execution.
    """
    stack = [list(prefix)]
    while stack:
        pre = stack.pop()
        ch = Chooser(pre)
        execute(ch)
        choices = [c for _, c in ch.points]
        if choices[:len(pre)] != pre:
            raise RuntimeError("replay diverged from its prefix")
        yield choices
        used = sum(1 for c in pre if c)
        if used >= bound:
            continue
        limit = len(ch.points) if depth is None else min(depth, len(ch.points))
        todo = []
        for i in range(len(pre), limit):
            for alt in range(1, ch.points[i][0]):
                todo.append(choices[:i] + [alt])
        stack.extend(reversed(todo))


# ---------------------------------------------------------------- execution

def _alarm(signum, frame):
    raise Hang()


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all="ignore"), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def run_case(family, params):
    rec = Recorder()
    timeout = family.timeout
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        with quiet():
            family.run(params, rec)
    except Hang:
        rec.hung = True
        rec.fail(f"did not finish within {timeout} s")
    except CaseFailed as e:
        rec.fail(e)
    except KeyboardInterrupt:
        raise
    except MemoryError:
        raise
    except BaseException as e:
        where = traceback.extract_tb(e.__traceback__)[-3:]
        rec.fail(f"unexpected {type(e).__name__}: {str(e)[:300]} at "
                 + " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(where)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return rec


_STATE = {}


def compile_kernels():
    """Runs every numba kernel once, before forking. Whatever goes wrong here is found by the cases."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(90)
    try:
        with quiet():
            if "src.dynamics.lorenz_63" not in sys.modules:
                return
            from src.dynamics.lorenz_63 import Lorenz63
            from src.dynamics.lorenz_96 import Lorenz96
            from src.numerics.utilities import chol_inv, safe_log
            chol_inv(np.eye(2))
            safe_log(np.ones(2))
            for model, d in ((Lorenz63(1.0, np.array([10.0, 28.0, 2.6]), 1), 3), (Lorenz96(1.0, 8.0, 1, 10), 10)):
                model.make_trajectory(0.0, 0.02, 0.01)
                n = len(model.time_window)
                model.energy(np.zeros((n, d, d)), np.zeros((n, d)), np.ones((n, d)), np.tile(np.eye(d), (n, 1, 1)), [1])
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _work(chunk):
    out = Recorder()
    bad = []
    n = 0
    for index, fi, params in chunk:
        began = time.time()
        rec = run_case(_STATE["families"][fi], params)
        n += 1
        if SLOW and time.time() - began > SLOW:
            print(f"slow: {time.time() - began:.1f} s {_STATE['families'][fi].name} {params}", file=sys.stderr)
        out.states |= rec.states
        out.transitions += rec.transitions
        out.traces += rec.traces
        for k, v in rec.outcomes.items():
            out.outcomes[k] = out.outcomes.get(k, 0) + v
        if rec.failures:
            bad.append((index, fi, params, rec.failures))
            if len(bad) >= MAX_REPORTED or rec.hung:
                break
    return n, out.states, out.transitions, out.traces, out.outcomes, bad


def import_failure(pid, error):
    """The code under test cannot even be imported: nothing can hold."""
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{pid}-import.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "family": "import", "params": {}, "failures": [error]}, f)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": "quick", "seed": 1, "level": "model_checking",
                   "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                                "samples": [error]}, "wall_s": 0.0, "violations": 1}, f)
    print(error)
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def load_known():
    """Known findings: lines 'finding: property=<id> family=<f> match=<json subset> :: text'."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                head, text = line[len("finding:"):].split("::", 1)
                item = {"text": text.strip()}
                for part in head.split(None, 2):
                    k, v = part.strip().split("=", 1)
                    item[k] = v
                item["match"] = json.loads(item["match"])
                out.append(item)
    return out


def known_match(known, pid, family, params):
    for item in known:
        if item["property"] == pid and item["family"] == family and item["match"] == params:
            return item
    return None


def main(check, argv):
    import multiprocessing as mp
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    families = check.FAMILIES
    if "--family" in argv:
        families = [f for f in families if f.name == argv[argv.index("--family") + 1]]
    t0 = time.time()
    cases, per_family = [], {}
    for fi, fam in enumerate(families):
        n = 0
        for params in fam.generate(tier):
            cases.append((len(cases), fi, params))
            n += 1
        per_family[fam.name] = n
    _STATE["families"] = families
    # Compile the numba kernels once, before forking.
    warm = {}
    for c in cases:
        warm.setdefault(c[1], c)
    compile_kernels()
    stuck = None
    for c in warm.values():
        rec = run_case(families[c[1]], c[2])
        if rec.hung:
            stuck = (*c, rec.failures)
            break
    workers = min(int(os.environ.get("VGPA_WORKERS", "0")) or (os.cpu_count() or 4), 8)
    size = max(1, min(64, len(cases) // (workers * 8) or 1))
    # Interleave so that expensive neighbours are spread over the workers.
    chunks = []
    stride = max(1, math.ceil(len(cases) / size))
    for k in range(stride if stuck is None else 0):
        chunks.append(cases[k::stride])
    total = Recorder()
    done, bad = 0, [stuck] if stuck else []
    ctx = mp.get_context("fork")
    sys.stdout.flush()
    with ctx.Pool(workers) as pool:
        results = pool.imap_unordered(_work, chunks)
        for _ in chunks:
            try:
                left = QUICK_BUDGET - (time.time() - t0) if tier == "quick" else None
                n, st, tr, tc, oc, b = results.next(left if left is None else max(1.0, left))
            except mp.TimeoutError:
                print(f"error: not finished after {QUICK_BUDGET} s", file=sys.stderr)
                break
            done += n
            total.states |= st
            total.transitions += tr
            total.traces += tc
            for k, v in oc.items():
                total.outcomes[k] = total.outcomes.get(k, 0) + v
            bad.extend(b)
            if FAILFAST and any(known_match(load_known(), check.ID, families[i[1]].name, i[2]) is None for i in bad):
                break
            if any("did not finish within" in m for item in b for m in item[3]):
                break       # the code under test hangs; more cases would only hang as well
    known = load_known()
    hits, fresh = {}, []
    for item in sorted(bad, key=lambda b: b[0]):
        k = known_match(known, check.ID, families[item[1]].name, item[2])
        if k is None:
            fresh.append(item)
        else:
            hits[k["text"]] = item
    for text in hits:
        print(f"KNOWN-FINDING: property={check.ID} {text}")
    replays = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    for n, (index, fi, params, fails) in enumerate(fresh[:MAX_REPORTED]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{check.ID}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": check.ID, "family": families[fi].name, "params": params,
                       "failures": fails}, f, indent=1)
        replays.append(path)
        print(f"case {index} family={families[fi].name} params={json.dumps(params)[:400]}")
        for m in fails[:3]:
            print("   ", m)
    samples = []
    for fi, fam in enumerate(families):
        own = [c[2] for c in cases if c[1] == fi]
        if own:
            samples.append({"family": fam.name, "first": own[0], "last": own[-1]})
    evidence = {
        "property": check.ID, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(total.states), "transitions": total.transitions,
            "traces_validated_against_impl": total.traces,
            "evaluations": done,
            "cases_per_family": per_family,
            "bounds": {f.name: f.note for f in families},
            "outcome_classes": dict(sorted(total.outcomes.items())[:60]),
            "distinct_outcomes": len(total.outcomes),
            "exhaustive": done == len(cases),
            "rule": getattr(check, "RULE", ""),
            "samples": samples[:12],
        },
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.ID + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{check.ID} {tier}: cases={done} states={len(total.states)} "
          f"transitions={total.transitions} traces={total.traces} "
          f"outcomes={len(total.outcomes)} wall={evidence['wall_s']}s")
    if fresh:
        for path in replays:
            print(f"VIOLATION property={check.ID} replay={path}")
        return 1
    if done != len(cases):
        print("error: exploration incomplete", file=sys.stderr)
        return 2
    return 0


def replay(check, path):
    item = json.load(open(path))
    fam = [f for f in check.FAMILIES if f.name == item["family"]][0]
    a = run_case(fam, item["params"])
    b = run_case(fam, item["params"])
    if a.failures != b.failures:
        print("warning: two replays disagree")
    for m in a.failures:
        print(m)
    print("REPRODUCED" if a.failures else "not reproduced")
    return 1 if a.failures else 0
