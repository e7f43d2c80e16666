"""Exact smoothing answer for dx = (F x + c) dt + noise(Sigma), Gaussian start N(m0, S0) kept fixed.

Plain dense Gaussian algebra on the time grid; exact in continuous time for any step.
"""
import numpy as np
from scipy.linalg import expm

from mc import ref


def transition(F, c, Sigma, dt):
    d = len(c)
    Z = np.zeros((2 * d, 2 * d))
    Z[:d, :d], Z[:d, d:], Z[d:, d:] = -F, Sigma, F.T
    E = expm(Z * dt)
    Phi = E[d:, d:].T
    Q = Phi @ E[:d, d:]
    G = np.zeros((d + 1, d + 1))
    G[:d, :d], G[:d, d] = F, c
    return Phi, 0.5 * (Q + Q.T), expm(G * dt)[:d, d]


def answer(F, c, Sigma, dt, N, obs_t, y, H, R, m0, S0, mu, tau):
    """Minimal free energy, smoothed means (N,d) and covariances (N,d,d)."""
    F, c = np.atleast_2d(F), np.atleast_1d(c)
    d = len(c)
    Phi, Q, u = transition(F, c, Sigma, dt)
    # x_t = P_t x_0 + q_t + noise, noise covariance K
    P, q = [np.eye(d)], [np.zeros(d)]
    K = np.zeros((N * d, N * d))
    for t in range(1, N):
        P.append(Phi @ P[-1])
        q.append(Phi @ q[-1] + u)
        a, b = slice((t - 1) * d, t * d), slice(t * d, (t + 1) * d)
        K[b, :t * d] = Phi @ K[a, :t * d]
        K[:t * d, b] = K[b, :t * d].T
        K[b, b] = Phi @ K[a, a] @ Phi.T + Q
    P, q = np.vstack(P), np.concatenate(q)
    o = np.concatenate([np.arange(t * d, (t + 1) * d) for t in obs_t])
    Hb = np.kron(np.eye(len(obs_t)), H)
    Rb = np.kron(np.eye(len(obs_t)), R)
    yv = np.ravel(y)
    C = Hb @ K[np.ix_(o, o)] @ Hb.T + Rb
    iC = np.linalg.inv(C)
    L = Hb @ P[o]
    r0 = yv - Hb @ q[o]
    G = K[:, o] @ Hb.T @ iC
    Ft = P - G @ L
    mean = Ft @ m0 + q + G @ r0
    cov = K - G @ Hb @ K[o, :] + Ft @ S0 @ Ft.T
    r = r0 - L @ m0
    nll = 0.5 * (len(yv) * np.log(2 * np.pi) + np.linalg.slogdet(C)[1] + r @ iC @ r
                 + np.trace(L.T @ iC @ L @ S0))
    S = np.array([cov[t * d:(t + 1) * d, t * d:(t + 1) * d] for t in range(N)])
    return ref.kl(m0, S0, mu, tau) + float(nll), mean.reshape(N, d), S
