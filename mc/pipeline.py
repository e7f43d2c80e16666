"""Builds complete smoothing problems on the real classes together with their reference."""
import numpy as np

from mc import ref
from mc import systems as sy
from src.dynamics.stochastic_process import StochasticProcess
from src.numerics.utilities import my_trapz
from src.var_bayes.bwd_ode import BwdOde
from src.var_bayes.fwd_ode import FwdOde
from src.var_bayes.gaussian_like import GaussianLikelihood
from src.var_bayes.prior_kl0 import PriorKL0
from src.var_bayes.variational import VarGP

SYSTEMS = ["OU", "DW", "L63", "L96", "LIN1", "LIN1M", "LIN2", "LIN3"]


class UserLinear(StochasticProcess):
    """A user-defined system dx = (F x + c) dt + noise, written for these checks.

    Its energy is the reference quadrature, so that the variational machinery (and not a shipped
    energy) is what is being examined, in dimensions for which no system is shipped.
    """
    __slots__ = ("drift", "_sigma", "sig_inv")

    def __init__(self, F, c, sigma, single_dim):
        super().__init__(1, single_dim)
        self.drift = ref.Linear(F, c)
        self._sigma = sigma
        self.sig_inv = 1.0 / sigma if single_dim else np.linalg.inv(sigma)

    @property
    def sigma(self):
        return self._sigma

    @property
    def inverse_sigma(self):
        return self.sig_inv

    def energy(self, A, b, m, S, obs_t):
        N, d = m.shape[0], self.drift.d
        iS = np.atleast_1d(self.sig_inv) if self.single_dim else np.diag(self.sig_inv)
        out = ref.sde(lambda *a: ref.sde_point(self.drift, *a), A.reshape(N, d, d), b.reshape(N, d),
                      m.reshape(N, d), S.reshape(N, d, d), iS, float(self.time_step))
        cut = (lambda v: v.reshape(N)) if self.single_dim else (lambda v: v)     # LIN1M: (N,1) and (N,1,1)
        return out["E"], (cut(out["Ef"]), cut(out["Edf"])), (cut(out["dm"]), cut(out["dS"]), None, None)


def lin_drift(d):
    F = -1.1 * np.eye(d) + 0.6 * ref.wave(d, d, seed=8) if d > 1 else np.array([[-1.1]])
    return F, ref.wave(d, seed=9)


class Problem:
    def __init__(self, name, method, N=5, dt=0.05, obs=(1, 3), kind=0, dim=10, H=None, T=None,
                 sigma=None, theta=None, fun=None):
        """kind selects generic data; fun(t)->observation level makes problems comparable over dt."""
        self.name, self.method, self.N, self.dt = name, method, N, float(dt)
        self.obs = [int(o) for o in obs]
        lin = name.startswith("LIN")
        self.d = d = int(name[3]) if lin else sy.dim_of(name, dim)
        self.single = name in ("OU", "DW", "LIN1")
        # kind 2: everything on the negative side
        self.m0 = (-0.9 if kind == 2 else 0.3) + 0.2 * ref.wave(d, seed=21 + kind)
        self.S0 = (0.2 + 0.1 * kind) * (ref.spd(d, 2) if d <= 3 else np.eye(d) + 0.1)
        self.shift = -1.5 if kind == 2 else 0.0
        self.mu, self.tau = ref.wave(d, seed=22), 0.5 * ref.spd(d, 3) if d <= 3 else 0.5 * np.eye(d)
        self.R = 0.3 * ref.spd(d, 1) if d <= 3 else 0.4 * np.eye(d)
        self.H = np.eye(d) if H is None else np.asarray(H, float)
        o = len(self.H)
        if H is not None:
            self.R = 0.3 * ref.spd(o, 1)
        if fun is None:
            self.y = ref.wave(len(self.obs), o, seed=23 + kind, amp=1.5)
        else:
            self.y = np.array([[fun(t * self.dt, i) for i in range(o)] for t in self.obs])
        self.sig = np.asarray({"OU": 0.7, "DW": 0.8, "L63": [1.0, 2.0, 1.5], "L96": 2.0,
                               "LIN1": 0.6, "LIN1M": 0.6}.get(name, 0.5 + 0.3 * np.arange(d)) if sigma is None else sigma,
                              dtype=float)
        self.isig = 1.0 / sy.noise_diag(self.sig, d)
        self.Sigma = np.diag(1.0 / self.isig)
        if lin:
            F, c = lin_drift(d)
            self.model = UserLinear(F, c, float(self.Sigma[0, 0]) if self.single else self.Sigma,
                                    self.single)
            drift = ref.Linear(F, c)
            self.point = lambda *a: ref.sde_point(drift, *a)
            self.model.time_window = self.dt * np.arange(N)
        else:
            self.theta = theta if theta is not None else {"L63": [1.5, 1.2, 0.8], "L96": 2.0}.get(
                name, sy.THETA[name])
            arg = float(self.sig) if self.sig.ndim == 0 else self.sig
            self.model = sy.build(name, arg, self.theta, N, self.dt, dim=d)
            self.point = sy.point_fun(name, self.theta)
        self.model.sample_path = np.zeros(N) if self.single else np.zeros((N, d))
        self.given_H = H
        self.vgp = self.make()

    def like(self):
        if self.single:
            return GaussianLikelihood(self.y.ravel(), self.obs, float(self.R[0, 0]),
                                      None if self.given_H is None else float(self.H[0, 0]), True)
        return GaussianLikelihood(self.y, self.obs, self.R, self.given_H, False)

    def prior(self):
        if self.single:
            return PriorKL0(float(self.mu[0]), float(self.tau[0, 0]), True)
        return PriorKL0(self.mu, self.tau, False)

    def start(self):
        return (float(self.m0[0]), float(self.S0[0, 0])) if self.single else (self.m0.copy(),
                                                                           self.S0.copy())

    def make(self):
        m0, s0 = self.start()
        return VarGP(self.model, m0, s0, FwdOde(self.dt, self.method, self.single),
                     BwdOde(self.dt, self.method, self.single), self.like(), self.prior(),
                     self.y.ravel() if self.single else self.y, self.obs)

    def params(self, k):
        """k-th generic parameter setting, matrix form."""
        N, d = self.N, self.d
        A = (0.7 + 0.3 * k) * np.eye(d) + ref.wave(N, d, d, seed=31 + 5 * k, amp=0.5 / np.sqrt(d))
        return A, self.shift + ref.wave(N, d, seed=32 + 5 * k, amp=1.0)

    def flat(self, A, b):
        return np.concatenate((np.asarray(A, float).ravel(), np.asarray(b, float).ravel()))

    def reference(self, A, b):
        return ref.vgpa(self.method.lower(), self.point, A, b, self.m0, self.S0, self.Sigma, self.isig,
                        self.dt, self.y, self.obs, self.H, self.R, self.mu, self.tau)

    def cut(self, v):
        v = np.asarray(v)
        return v.reshape(self.N) if self.single else v

    def parts(self, A, b):
        """The three energies from fresh real components at the real forward moments."""
        m0, s0 = self.start()
        a = A.reshape(self.N) if self.single else A
        bb = b.reshape(self.N) if self.single else b
        sig = float(self.Sigma[0, 0]) if self.single else self.Sigma
        mt, st = FwdOde(self.dt, self.method, self.single)(a, bb, m0, s0, sig)
        Esde = self.model.energy(a, bb, mt, st, self.obs)[0]
        return [float(np.asarray(v).reshape(())) for v in (self.prior()(m0, s0), Esde,
                                                           self.like()(mt, st))]


def check_outputs(rec, label, prob, want, out, rtol=1e-7):
    for key, ref_key in (("mt", "m"), ("st", "S"), ("Efx", "Ef"), ("Edf", "Edf"), ("lamt", "lam"),
                         ("psit", "psi")):
        if rec.check(key in out, f"{label}: output '{key}' is missing"):
            w = prob.cut(want[ref_key])
            rec.close(f"{label} output {key}", out[key], w, rtol, scale=np.abs(w).max() + 1e-3)
