"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "explicit-state exploration of all bounded operation sequences on the real objects against a state model"
INP = "bounded-exhaustive enumeration of configurations and inputs on the real code, lock-step with a reference model"
SCHED = "stateless exploration of all bounded environment answers (deviation-bounded choice tree) on the real code"
CHECKS = {
    "P01": (INP, "Each step of each sweep is compared with an independent Runge-Kutta tableau; 1e-8 relative."),
    "P02": (INP, "Each backward step and each placement of observation jumps is compared with the tableau model."),
    "P03": (INP, "Polynomial identities decided on integer grids larger than the degree, in exact arithmetic."),
    "P04": (INP, "Gauss-Hermite quadrature of the drift mismatch is the oracle; diagonal noise."),
    "P05": (INP, "Oracle gradients are analytic (Gaussian identities) on the quadrature, not finite differences."),
    "P06": (INP, "Energy terms against a per-component model; ring rotations exhaustively; sigma-point estimates are "
                 "taken as the definition of the Lorenz-96 energy and gradients."),
    "P07": (INP, "Exactness on every monomial of degree up to 3 (mean) and linear maps (covariance)."),
    "P08": (INP, "Every placement of observations; expectation by quadrature; gradients analytic."),
    "P09": (INP, "Closed form KL as oracle."),
    "P10": (SEQ, "All sequences of evaluations on shared objects; values against a memoryless reference."),
    "P11": (INP, "Gradient against the discrete reference gradient, and its convergence to the numerical gradient of the "
                 "real free energy; the Lorenz-96 gradient is an estimate by design and checked against its definition."),
    "P12": (SCHED, "All objective/gradient answer sequences with bounded deviations, plus all options in the bounds, in "
                   "lock-step with a model of the algorithm's contract."),
    "P13": (SCHED, "All placements of up to two rejected steps in real runs; results recomputed by a reference."),
    "P14": (INP, "Increments are explained by the process' own noise stream; seeds in pairs; windows exhaustively."),
    "P15": (SEQ, "All densities and noise forms, masks and repeated collections against a model."),
    "P16": (SEQ, "All sequences of accepted and rejected updates and queries against a model state."),
    "P17": (SEQ, "All sequences of saves and loads against a model directory."),
    "P18": (INP, "Complete runs; linear systems against dense exact Gaussian smoothing with calibrated discretization "
                 "bounds. Known findings are listed in known_findings.txt."),
    "P19": ("fault enumeration: all subsets of missing entries, all file prefixes, all invalid values (single, pairs), "
            "all failing stages and writes, on the real command line", "Judged by exit status, files and their contents."),
    "P20": (SEQ, "All ordered pairs/triples of calls over all components; bit-for-bit comparison."),
    "P21": (INP, "Linear kernels decided on unit samples for every index set; matrices with exact minors."),
    "P22": (INP, "All interior observation sets in the bounds; independent interpolant."),
}
checks = []
for pid, (how, note) in CHECKS.items():
    checks.append({
        "property": pid, "quick_cmd": f"./check {pid}", "thorough_cmd": f"./check {pid} --thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "model checking: " + how,
        "level": "model_checking",
        "level_note": note + " Exhaustive within the bounds reported in the evidence; nothing is sampled. Trusts "
        "numpy/scipy and the reference model in /verif/mc."})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, numba, h5py, pandas'",
           "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the code is driven through its public interface. "
                    "./check --replay FILE re-runs a recorded violation."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
