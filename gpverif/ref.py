"""Independent dense reference models (plain NumPy, no gpmp code)."""

import numpy as np
import scipy.linalg as sla

EPS = np.finfo(float).eps


def matern_np(p, h):
    """Half-integer Matern correlation, nu = p + 1/2, c = 2 sqrt(nu)."""
    from math import factorial

    h = np.asarray(h, dtype=float)
    c = 2.0 * np.sqrt(p + 0.5)
    t = c * h
    poly = np.zeros_like(t)
    for i in range(p + 1):
        coef = (
            factorial(p) / factorial(2 * p) * factorial(p + i) / (factorial(i) * factorial(p - i))
        )
        poly = poly + coef * (2.0 * t) ** (p - i)
    return np.exp(-t) * poly


def sdist(x, y, invrho):
    d = (x[:, None, :] - y[None, :, :]) * invrho
    return np.sqrt(np.sum(d * d, axis=2))


def sym(a):
    return 0.5 * (a + a.T)


def solve_refined(A, B, iters=3):
    """Solve A X = B with iterative refinement in extended precision."""
    A = np.asarray(A, float)
    B = np.asarray(B, float)
    lu = sla.lu_factor(A)
    X = sla.lu_solve(lu, B).astype(np.longdouble)
    Al = A.astype(np.longdouble)
    Bl = B.astype(np.longdouble)
    for _ in range(iters):
        r = (Bl - Al @ X).astype(float)
        X = X + sla.lu_solve(lu, r)
    return X


class RefGP:
    """Textbook Gaussian conditioning.

    Kii, Kit, Ktt are dense matrices; P, Pt basis matrices (linear predictor),
    mi, mt known mean vectors (parameterized).
    """

    def __init__(self, Kii, Kit, Ktt, meantype="zero", P=None, Pt=None, mi=None, mt=None):
        self.Kii, self.Kit, self.Ktt = Kii, Kit, Ktt
        self.meantype, self.P, self.Pt, self.mi, self.mt = meantype, P, Pt, mi, mt

    def cond(self):
        if self.meantype == "linear_predictor":
            n, q = self.P.shape
            s = np.sqrt(np.mean(np.diag(self.Kii)))
            L = np.block([[self.Kii / s**2, self.P], [self.P.T, np.zeros((q, q))]])
            return np.linalg.cond(L)
        return np.linalg.cond(self.Kii)

    def weights(self):
        n = self.Kii.shape[0]
        if self.meantype == "linear_predictor":
            q = self.P.shape[1]
            L = np.block([[self.Kii, self.P], [self.P.T, np.zeros((q, q))]])
            R = np.vstack([self.Kit, self.Pt.T])
            lm = solve_refined(L, R)
            return lm[:n], lm[n:]
        return solve_refined(self.Kii, self.Kit), None

    def predict(self, zi):
        lam, mu = self.weights()
        zi = np.asarray(zi, float).reshape(-1)
        if self.meantype == "parameterized":
            m = self.mt + lam.T @ (zi - self.mi)
        else:
            m = lam.T @ zi
        # error covariance of the linear predictor, from its definition
        A = lam.T @ self.Kit
        cov = self.Ktt - A - A.T + lam.T @ self.Kii.astype(np.longdouble) @ lam
        return (
            np.asarray(m, float),
            np.asarray(np.diag(cov), float),
            np.asarray(cov, float),
            np.asarray(lam, float),
        )


def nll(K, z):
    """-log N(z; 0, K) by eigen-decomposition."""
    z = np.asarray(z, float).reshape(-1)
    w, V = np.linalg.eigh(sym(K))
    q = solve_refined(K, z)
    return 0.5 * (
        len(z) * np.log(2 * np.pi) + np.sum(np.log(w)) + float(np.dot(z.astype(np.longdouble), q))
    )


def contrasts(P):
    """Orthonormal basis of the null space of P^T (via SVD, unlike the library)."""
    U, s, _ = np.linalg.svd(P, full_matrices=True)
    return U[:, P.shape[1] :]


def reml(K, P, z):
    W = contrasts(P)
    return nll(W.T @ K @ W, W.T @ np.asarray(z, float).reshape(-1))


def ks_pvalue(x, cdf):
    from scipy import stats

    return stats.kstest(np.asarray(x), cdf).pvalue


def ball_rho(x):
    """Initial length scales: radius factor of the unit-volume ball times the extent."""
    from math import exp, lgamma, pi

    d = x.shape[1]
    return exp(lgamma(d / 2 + 1) / d) / pi**0.5 * (x.max(0) - x.min(0))


def initial_guess(kref, x, z, P=None, kind="general"):
    """Documented data-driven guess: (mean or None, covparam)."""
    z = np.asarray(z, float).reshape(-1)
    n = len(z)
    rho = ball_rho(x)
    par = np.concatenate([[0.0], -np.log(rho)])
    K = kref(x, x, True, par=par)
    m = None
    if kind == "general":
        W = contrasts(P)
        y = W.T @ z
        s2 = float(y @ solve_refined(W.T @ K @ W, y)) / n
    else:
        s2 = float(z @ solve_refined(K, z)) / n
        if kind == "constant":
            m = float(np.sum(solve_refined(K, z)) / np.sum(solve_refined(K, np.ones(n))))
    return m, np.concatenate([[np.log(s2)], -np.log(rho)])


def logrho_min(x, factor):
    out = []
    for j in range(x.shape[1]):
        g = np.diff(np.sort(x[:, j]))
        g = g[g > 0]
        r = np.ptp(x[:, j])
        a = np.log(g.min()) if len(g) else -np.inf
        b = np.log(r * factor) if r > 0 else -np.inf
        out.append(max(a, b))
    return np.array(out)
