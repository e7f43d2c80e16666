"""Drives the public Simulation workflow and rebuilds what it should report."""
import contextlib
import os
import shutil
import tempfile

import numpy as np

from mc import ref
from mc import systems as sy
from src.numerics.optim_scg import SCG
from src.var_bayes.simulation import Simulation
from src.var_bayes.variational import VarGP

THETA = {"OU": 1.3, "DW": 1.0, "L63": [10.0, 28.0, 2.667], "L96": 8.0}
SIGMA = {"OU": 0.7, "DW": 0.8, "L63": 10.0, "L96": 4.0}
R = {"OU": 0.05, "DW": 0.04, "L63": 2.0, "L96": 1.0}


def parameters(name, method="Euler", t0=0.0, tf=0.5, dt=0.05, density=4, seed=3, sys_noise=None,
               obs_noise=None, theta=None, mu0=1.0, tau0=0.5, output="Sim_X"):
    """A complete parameter dictionary, as in the shipped files."""
    return {"Output_Name": output, "Model": name, "Ode-method": method, "Random-Seed": seed,
            "Time-window": {"t0": t0, "tf": tf, "dt": dt},
            "Noise": {"sys": SIGMA[name.upper()] if sys_noise is None else sys_noise,
                      "obs": R[name.upper()] if obs_noise is None else obs_noise},
            "Observations": {"density": density, "operator": None},
            "Drift": {"theta": THETA[name.upper()] if theta is None else theta},
            "Prior": {"tau0": tau0, "mu0": mu0}}


@contextlib.contextmanager
def scratch():
    """A fresh directory as working directory; removed afterwards."""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="vgpa_mc_")
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def patched(cls, **methods):
    missing = object()
    old = {k: cls.__dict__.get(k, missing) for k in methods}
    for k, v in methods.items():
        setattr(cls, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is missing:
                delattr(cls, k)
            else:
                setattr(cls, k, v)


def limited(max_it):
    """The optimizer stops after max_it iterations (None: as configured by the code)."""
    if max_it is None:
        return contextlib.nullcontext()
    orig = SCG.__init__

    def init(self, *args, **kw):
        # The options are the dictionary among the arguments, wherever it is.
        args = [{**a, "max_it": max_it} if isinstance(a, dict) else a for a in args]
        kw = {k: {**a, "max_it": max_it} if isinstance(a, dict) else a for k, a in kw.items()}
        if not any(isinstance(a, dict) for a in args + list(kw.values())):
            args.append({"max_it": max_it})
        orig(self, *args, **kw)
    return patched(SCG, __init__=init)


class Monitor:
    """Watches every evaluation of the objective; may make chosen trial points look worse.

    worse: {ordinal of the first visit: 'up' | 'nan'}. The answer depends on the point only.
    """

    def __init__(self, worse=None):
        self.worse = worse or {}
        self.index = {}
        self.values = {}
        self.points = []
        self.last = None
        self.depth = 0
        self.errors = []
        self.grads = 0
        self.objects = []

    def patch(self):
        orig_f, orig_g = VarGP.free_energy, VarGP.gradient
        mon = self

        def free_energy(self, x, *a, **kw):
            out = orig_f(self, x, *a, **kw)
            mon.last = np.array(x, float).tobytes()
            if mon.depth:
                return out
            if self not in mon.objects:
                mon.objects.append(self)
            k = mon.last
            if k not in mon.index:
                mon.index[k] = len(mon.points)
                mon.points.append(np.array(x, float))
                kind = mon.worse.get(mon.index[k])
                mon.values[k] = out if kind is None else float("nan") if kind == "nan" else \
                    out + abs(out) + 1.0
            return mon.values[k]

        def gradient(self, x, *a, **kw):
            again = kw.get("eval_fun", a[0] if a else False)
            mon.grads += 1
            if not again and mon.last != np.array(x, float).tobytes():
                mon.errors.append("gradient requested at a point that is not the last one evaluated")
            mon.depth += 1
            try:
                return orig_g(self, x, *a, **kw)
            finally:
                mon.depth -= 1
        return patched(VarGP, free_energy=free_energy, gradient=gradient)


def dims(name):
    return {"OU": 1, "DW": 1, "L63": 3, "L96": 40}[name.upper()]


def reference(params, obs_t, obs_y, m0, s0, at, bt):
    """Everything a run should report for the parameters (at, bt), from the reference model."""
    name = params["Model"].upper()
    d = dims(name)
    one = d == 1
    at, bt = np.asarray(at, float), np.asarray(bt, float)
    N = len(bt)
    dt = float(params["Time-window"]["dt"])
    sig = sy.noise_diag(params["Noise"]["sys"], d)
    Rm = np.diag(sy.noise_diag(params["Noise"]["obs"], d))
    pr = params["Prior"]
    return ref.vgpa(params["Ode-method"].lower(), sy.point_fun(name, params["Drift"]["theta"]),
                    at.reshape(N, d, d), bt.reshape(N, d), np.reshape(m0, d), np.reshape(s0, (d, d)),
                    np.diag(sig), 1.0 / sig, dt, np.reshape(np.asarray(obs_y, float), (-1, d)),
                    [int(t) for t in obs_t], np.eye(d), Rm,
                    np.asarray(pr["mu0"]) * np.ones(d), np.asarray(pr["tau0"]) * np.eye(d)), one


KEYS = ("at", "bt", "fx", "m0", "s0", "mt", "st", "Efx", "Edf", "lamt", "psit")


def check_output(rec, label, params, obs_t, obs_y, out, rtol=1e-7):
    for k in KEYS:
        if not rec.check(k in out, f"{label}: result '{k}' is missing"):
            return None
    want, one = reference(params, obs_t, obs_y, out["m0"], out["s0"], out["at"], out["bt"])
    for key, rk in (("mt", "m"), ("st", "S"), ("Efx", "Ef"), ("Edf", "Edf"), ("lamt", "lam"),
                    ("psit", "psi")):
        w = want[rk]
        w = w.reshape(len(w)) if one else w
        rec.close(f"{label}: {key} does not belong to the reported (at, bt);", out[key], w, rtol,
                  scale=np.nanmax(np.abs(w)) + 1e-3)
    rec.close(f"{label}: fx does not belong to the reported (at, bt);",
              np.asarray(out["fx"], float).reshape(()), want["F"], rtol,
              scale=abs(want["E0"]) + abs(want["Esde"]) + abs(want["Eobs"]))
    return want


def run(params, data=None, max_it=None, monitor=None, name="Sim"):
    """Set up and run; returns (simulation, monitor)."""
    mon = monitor or Monitor()
    sim = Simulation(name)
    sim.setup(params, data)
    with limited(max_it), mon.patch():
        sim.run()
    return sim, mon


def window(params):
    w = params["Time-window"]
    n = int(np.floor((w["tf"] - w["t0"]) / w["dt"] + 0.5 + 1e-9)) + 1
    return w["t0"] + w["dt"] * np.arange(n)
