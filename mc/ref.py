"""Reference models: slow, plain, written from the mathematics and not from the code.

Everything is in matrix form; the scalar case is d = 1 with the extra axes dropped by the callers.
"""
import itertools
import math

import numpy as np

# Explicit Runge-Kutta tableaux (c, a, b). 'euler', 'heun', midpoint 'rk2' and classic 'rk4'.
TABLEAU = {
    "euler": ([0.0], [[]], [1.0]),
    "heun": ([0.0, 1.0], [[], [1.0]], [0.5, 0.5]),
    "rk2": ([0.0, 0.5], [[], [0.5]], [0.0, 1.0]),
    "rk4": ([0.0, 0.5, 0.5, 1.0], [[], [0.5], [0.0, 0.5], [0.0, 0.0, 1.0]],
            [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
}
METHODS = list(TABLEAU)


def rk_step(method, fun, y, h, p0, p1):
    """One step of y' = fun(y, p(t)), p linear from p0 to p1 over the step."""
    c, a, b = TABLEAU[method]
    ks = []
    for i in range(len(c)):
        yi = y
        for j, w in enumerate(a[i]):
            yi = yi + h * w * ks[j]
        ks.append(fun(yi, [(1.0 - c[i]) * u + c[i] * v for u, v in zip(p0, p1)]))
    out = y
    for w, k in zip(b, ks):
        out = out + h * w * k
    return out


def fwd(method, A, b, m0, S0, Sigma, dt):
    """A (N,d,d), b (N,d) -> m (N,d), S (N,d,d)."""
    N, d = b.shape
    m = np.zeros((N, d))
    S = np.zeros((N, d, d))
    m[0], S[0] = m0, S0
    for k in range(N - 1):
        m[k + 1] = rk_step(method, lambda y, p: p[1] - p[0] @ y, m[k], dt,
                           (A[k], b[k]), (A[k + 1], b[k + 1]))
        S[k + 1] = rk_step(method, lambda y, p: Sigma - p[0] @ y - y @ p[0].T, S[k], dt,
                           (A[k],), (A[k + 1],))
    return m, S


def bwd(method, A, dm, dS, om, oS, dt):
    """Multipliers, zero after the end, jumps added on arrival at every point."""
    N, d = dm.shape
    lam = np.zeros((N, d))
    psi = np.zeros((N, d, d))
    lam[-1], psi[-1] = om[-1], oS[-1]
    for t in range(N - 1, 0, -1):
        lam[t - 1] = om[t - 1] + rk_step(
            method, lambda y, p: p[0].T @ y - p[1], lam[t], -dt, (A[t], dm[t]), (A[t - 1], dm[t - 1]))
        psi[t - 1] = oS[t - 1] + rk_step(
            method, lambda y, p: y @ p[0] + p[0].T @ y - p[1], psi[t], -dt,
            (A[t], dS[t]), (A[t - 1], dS[t - 1]))
    return lam, psi


def gauss_moment(n, m, v):
    """E[x^n], exact for Python integers."""
    total = 0
    for k in range(n // 2 + 1):
        dfact = 1
        for j in range(1, 2 * k, 2):
            dfact *= j
        total += math.comb(n, 2 * k) * dfact * m ** (n - 2 * k) * v ** k
    return total


def trapz(y, dt):
    y = np.asarray(y, dtype=float)
    if y.shape[0] < 2:
        return np.zeros(y.shape[1:])
    return dt * (0.5 * y[0] + y[1:-1].sum(axis=0) + 0.5 * y[-1])


def sqrt_cov(S):
    """A square root of S. Complex when S is indefinite (coarse steps can leave such an S): moments of
    polynomials are polynomials in S, so quadrature on complex nodes continues them analytically."""
    w, V = np.linalg.eigh(0.5 * (S + S.T))
    if w[0] < -1e-12 * max(1e-300, np.abs(w).max()):
        return V * np.sqrt(w.astype(complex))
    return V * np.sqrt(np.maximum(w, 0.0))


_NODES = {}


def nodes(d, n):
    """Tensor Gauss-Hermite rule for N(0, I_d); exact for polynomials of degree < 2n per axis."""
    if (d, n) not in _NODES:
        x, w = np.polynomial.hermite_e.hermegauss(n)
        w = w / w.sum()
        X = np.array(list(itertools.product(x, repeat=d)))
        W = np.array([np.prod(c) for c in itertools.product(w, repeat=d)])
        _NODES[d, n] = (X, W)
    return _NODES[d, n]


# ---- drifts: f(x) (n,d)->(n,d); J(x) (n,d)->(n,d,d); H(x) -> (n,d,d,d) [i,j,k]=d2 f_i/dx_j dx_k;
#      T(x) -> (n,d,p) df_i/dtheta_p

class Drift:
    pass


class OU(Drift):
    d, order = 1, 4

    def __init__(self, theta):
        self.th = float(theta)

    def f(self, x):
        return -self.th * x

    def J(self, x):
        return np.full((len(x), 1, 1), -self.th)

    def H(self, x):
        return np.zeros((len(x), 1, 1, 1))

    def T(self, x):
        return -x[:, :, None]


class DW(Drift):
    d, order = 1, 8

    def __init__(self, theta):
        self.th = float(theta)

    def f(self, x):
        return 4.0 * x * (self.th - x * x)

    def J(self, x):
        return (4.0 * self.th - 12.0 * x * x)[:, :, None]

    def H(self, x):
        return (-24.0 * x)[:, :, None, None]

    def T(self, x):
        return 4.0 * x[:, :, None]


class L63(Drift):
    d, order = 3, 5

    def __init__(self, theta):
        self.s, self.r, self.b = [float(v) for v in theta]

    def f(self, x):
        X, Y, Z = x.T
        return np.stack([self.s * (Y - X), X * (self.r - Z) - Y, X * Y - self.b * Z], axis=1)

    def J(self, x):
        X, Y, Z = x.T
        o, i = np.zeros_like(X), np.ones_like(X)
        return np.stack([np.stack([-self.s * i, self.s * i, o], 1),
                         np.stack([self.r - Z, -i, -X], 1),
                         np.stack([Y, X, -self.b * i], 1)], 1)

    def H(self, x):
        h = np.zeros((len(x), 3, 3, 3))
        h[:, 1, 0, 2] = h[:, 1, 2, 0] = -1.0
        h[:, 2, 0, 1] = h[:, 2, 1, 0] = 1.0
        return h

    def T(self, x):
        X, Y, Z = x.T
        t = np.zeros((len(x), 3, 3))
        t[:, 0, 0], t[:, 1, 1], t[:, 2, 2] = Y - X, X, -Z
        return t


def l96(x, theta):
    """x (n,d), plain loop over the ring."""
    n, d = x.shape
    out = np.zeros((n, d))
    th = np.broadcast_to(np.asarray(theta, float), d)
    for i in range(d):
        out[:, i] = (x[:, (i + 1) % d] - x[:, (i - 2) % d]) * x[:, (i - 1) % d] - x[:, i] + th[i]
    return out


class Linear(Drift):
    """f(x) = F x + c, any dimension (not shipped; used through a user-defined process)."""
    order = 3

    def __init__(self, F, c):
        self.F, self.c = np.asarray(F, float), np.asarray(c, float)
        self.d = len(self.c)

    def f(self, x):
        return x @ self.F.T + self.c

    def J(self, x):
        return np.broadcast_to(self.F, (len(x),) + self.F.shape)

    def H(self, x):
        return np.zeros((len(x), self.d, self.d, self.d))


def sde_point(drift, A, b, m, S, isig):
    """Integrand and derivatives at one time point by quadrature; isig: diagonal of Sigma^-1.

    Returns dict with e, Ef, Edf, dm, dS, dth, r2 (E of squared residuals), dA, db.
    """
    Z, w = nodes(drift.d, drift.order)
    x = m + Z @ sqrt_cov(S).T
    r = drift.f(x) + x @ A.T - b
    J = drift.J(x)
    Jr = J + A
    W = np.asarray(isig, float)
    Wr = r * W
    out = {
        "e": 0.5 * float(np.real(w @ (Wr * r).sum(1))),
        "Ef": w @ drift.f(x),
        "Edf": np.einsum("n,nij->ij", w, J),
        "dm": np.einsum("n,nij,ni->j", w, Jr, Wr),
        "dS": 0.5 * (np.einsum("n,nij,i,nik->jk", w, Jr, W, Jr)
                     + np.einsum("n,ni,nijk->jk", w, Wr, drift.H(x))),
        "r2": w @ (r * r),
        "dA": np.einsum("n,ni,nj->ij", w, Wr, x),
        "db": -(w @ Wr),
    }
    if hasattr(drift, "T"):
        out["dth"] = np.einsum("n,nip,ni->p", w, drift.T(x), Wr)
    return {k: np.real(v) for k, v in out.items()}


def unscented(fun, m, S, lower_chol=True):
    """Weights and points of the transform the code documents: kappa = 1.05 d, Cholesky columns."""
    d = m.size
    k = 1.05 * d
    L = np.linalg.cholesky((d + k) * S)
    pts = [m] + [m + L[:, i] for i in range(d)] + [m - L[:, i] for i in range(d)]
    w = np.array([k / (d + k)] + [0.5 / (d + k)] * (2 * d))
    Y = np.array([fun(p) for p in pts])
    mean = np.tensordot(w, Y, axes=1)
    return mean, np.array(pts), w, Y


def l96_point(theta, A, b, m, S, isig):
    """Reference for one time point of Lorenz-96: exact Ef/Edf, sigma-point energy and gradients."""
    d = m.size
    isig = np.asarray(isig, float)
    Ef = np.zeros(d)
    Edf = np.zeros((d, d))
    th = np.broadcast_to(np.asarray(theta, float), d)
    for i in range(d):
        p, q, s = (i + 1) % d, (i - 1) % d, (i - 2) % d
        Ef[i] = m[p] * m[q] + S[p, q] - m[s] * m[q] - S[s, q] - m[i] + th[i]
        Edf[i, i] -= 1.0
        Edf[i, p] += m[q]
        Edf[i, s] -= m[q]
        Edf[i, q] += m[p] - m[s]
    res = lambda x: l96(x[None, :], theta)[0] + A @ x - b
    r2, pts, w, R = unscented(lambda x: res(x) ** 2, m, S)
    q = R @ isig
    e = 0.5 * float(w @ q)
    iS = np.linalg.inv(S)
    Zc = pts - m
    dm = 0.5 * iS @ (Zc.T @ (w * q))
    dS = 0.25 * iS @ np.einsum("n,ni,nj->ij", w * q, Zc, Zc) @ iS - 0.5 * e * iS
    r1 = Ef + A @ m - b
    return {"e": e, "Ef": Ef, "Edf": Edf, "dm": dm, "dS": dS, "r2": r2, "dth": isig * r1,
            "dA": isig[:, None] * ((Edf + A) @ S + np.outer(r1, m)), "db": -isig * r1}


def sde(point, A, b, m, S, isig, dt):
    """Whole window: dict of stacked fields plus total energy E, dtheta, dsigma (diagonal)."""
    rows = [point(A[t], b[t], m[t], S[t], isig) for t in range(len(b))]
    out = {k: np.array([r[k] for r in rows]) for k in rows[0]}
    isig = np.asarray(isig, float)
    out["E"] = float(trapz(out["e"], dt))
    if "dth" in out:
        out["dtheta"] = trapz(out["dth"], dt)
    out["dsigma"] = -0.5 * isig ** 2 * trapz(out["r2"], dt)
    return out


def obs_energy(y, obs_t, m, S, H, R):
    """-sum E log N(y; Hx, R): y (M,o), H (o,d), R (o,o)."""
    E = 0.0
    dm = np.zeros_like(m)
    dS = np.zeros_like(S)
    iR = np.linalg.inv(R)
    _, ld = np.linalg.slogdet(R)
    for n, t in enumerate(obs_t):
        r = y[n] - H @ m[t]
        E += 0.5 * (len(r) * math.log(2 * math.pi) + ld + r @ iR @ r + np.trace(iR @ H @ S[t] @ H.T))
        dm[t] += -H.T @ iR @ r
        dS[t] += 0.5 * H.T @ iR @ H
    return E, dm, dS


def kl(m0, S0, mu, tau):
    it = np.linalg.inv(tau)
    z = m0 - mu
    ld = np.linalg.slogdet(tau)[1] - np.linalg.slogdet(S0)[1]
    return 0.5 * (ld - len(m0) + np.trace(it @ S0) + z @ it @ z)


def vgpa(method, point, A, b, m0, S0, Sigma, isig, dt, y, obs_t, H, R, mu, tau):
    """Free energy and its gradient by the adjoint equations; everything in matrix form."""
    m, S = fwd(method, A, b, m0, S0, Sigma, dt)
    e = sde(point, A, b, m, S, isig, dt)
    Eo, om, oS = obs_energy(y, obs_t, m, S, H, R)
    lam, psi = bwd(method, A, e["dm"], e["dS"], om, oS, dt)
    gA = np.array([e["dA"][t] - np.outer(lam[t], m[t]) - 2.0 * psi[t] @ S[t] for t in range(len(b))])
    gb = e["db"] + lam
    return {"F": kl(m0, S0, mu, tau) + e["E"] + Eo, "m": m, "S": S, "lam": lam, "psi": psi,
            "Ef": e["Ef"], "Edf": e["Edf"], "gA": dt * gA, "gb": dt * gb,
            "E0": kl(m0, S0, mu, tau), "Esde": e["E"], "Eobs": Eo}


# ---- deterministic, structured numeric data (no random numbers anywhere)

def wave(*shape, seed=0, amp=1.0, base=0.0):
    """Generic values: an irrational rotation, all entries distinct."""
    n = int(np.prod(shape)) if shape else 1
    k = np.arange(1, n + 1, dtype=float) + 17.0 * seed
    v = 2.0 * np.mod(k * 0.6180339887498949 + 0.31 * seed, 1.0) - 1.0
    v = base + amp * v
    return v.reshape(shape) if shape else float(v[0])


def spd(d, seed=0, cond=1.0):
    """Generic symmetric positive definite matrix."""
    L = np.tril(wave(d, d, seed=seed, amp=0.5))
    L[np.diag_indices(d)] = 0.8 + 0.1 * np.arange(d) * cond + 0.05 * seed
    return L @ L.T
