"""Independent universal-Kriging oracle and training helpers."""
import numpy as np
from .common import *


def corr_np(S, corr, theta, h):
    """correlation of componentwise differences h [n, nx] (formula from the literature)"""
    np_ = S.np
    if corr == "squar_exp":
        return np_.exp(-((h * h) * theta).sum(axis=1))
    a = abs(h)
    if corr == "abs_exp":
        return np_.exp(-(a * theta).sum(axis=1))
    ll = a * theta
    if corr == "matern52":
        p = 1 + 5 ** .5 * ll + (5.0 / 3.0) * ll * ll
        c = 5 ** .5
    else:
        p = 1 + 3 ** .5 * ll
        c = 3 ** .5
    r = p[:, 0]
    for k in range(1, p.shape[1]):
        r = r * p[:, k]
    return r * np_.exp(-c * ll.sum(axis=1))


def basis(S, poly, x):
    np_ = S.np
    c = [1.0 + 0 * x[:, 0]]
    n = x.shape[1]
    if poly in ("linear", "quadratic"):
        c += [x[:, k] for k in range(n)]
    if poly == "quadratic":
        c += [x[:, i] * x[:, j] for i in range(n) for j in range(i, n)]
    return np_.array([[c[j][i] for j in range(len(c))] for i in range(x.shape[0])])


class NPO:
    np = np


def weights(corr, theta, poly, X, noise):
    """concrete matrices of the BLUP at raw inputs X (theta in standardized units)"""
    mu, sd = X.mean(axis=0), X.std(axis=0, ddof=1)
    sd = np.where(sd == 0, 1.0, sd)
    Z = (X - mu) / sd
    n = len(Z)
    R = np.array([corr_np(NPO, corr, theta, Z[i] - Z) for i in range(n)]) + np.diag(np.ones(n) * noise)
    F = basis(NPO, poly, Z)
    Ri = np.linalg.inv(R)
    G = np.linalg.inv(F.T @ Ri @ F)
    B = G @ F.T @ Ri
    return dict(mu=mu, sd=sd, Z=Z, Ri=Ri, F=F, G=G, B=B, gamma=Ri @ (np.eye(n) - F @ B), n=n)


def predictor(S, corr, theta, poly, W, y, x):
    """mean (n_eval, ny) and variance (n_eval, ny) at raw x, for raw outputs y"""
    np_ = S.np
    z = (x - W['mu']) / W['sd']
    gam = W['gamma'] @ y
    beta = W['B'] @ y
    f = basis(S, poly, z)
    s2 = (y * gam).sum(axis=0) / W['n']
    M, V = [], []
    for i in range(x.shape[0]):
        r = corr_np(S, corr, theta, z[i] - W['Z'])
        M.append(f[i] @ beta + r @ gam)
        u = f[i] - r @ (W['Ri'] @ W['F'])
        b = 1.0 - r @ (W['Ri'] @ r) + u @ (W['G'] @ u)
        V.append((s2, b))
    return M, V


def fixed_theta(S, th):
    """the hyperparameter optimizer returns log10(th)"""
    th = np.asarray(th, dtype=float)

    def mini(fun, x0, *a, **k):
        return {"fun": 0.0, "x": np.log10(th), "success": True}
    S.minimize(mini)
