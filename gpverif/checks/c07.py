"""C07: covariance kernels are the documented positive-definite functions."""

import math

import mpmath as mp
import numpy as np

import gpmp.kernel as gk
import gpmp.num as gnp

from .. import ref
from ..core import Registry, to_np

REG = Registry(
    "C07",
    "Random distances (zero to infinity), regularities and evaluation orders against "
    "multiprecision closed forms; random point sets and parameters for the covariance.",
    more=20,
)


def mp_matern(p, h):
    """Bessel form with nu = p + 1/2 and argument 2 sqrt(nu) h (independent of the code)."""
    mp.mp.dps = 40
    if h == 0:
        return 1.0
    if math.isinf(h):
        return 0.0
    nu = mp.mpf(p) + mp.mpf(1) / 2
    t = 2 * mp.sqrt(nu) * mp.mpf(h)
    if t > 2000:
        return 0.0
    return float(mp.mpf(2) ** (1 - nu) / mp.gamma(nu) * t**nu * mp.besselk(nu, t))


def distances(rng, k):
    kind = rng.integers(0, 4, k)
    h = np.where(kind == 0, 10.0 ** rng.uniform(-12, -1, k), rng.exponential(1.0, k))
    h = np.where(kind == 2, rng.uniform(0, 60, k), h)
    big = rng.choice([1e3, 1e10, 1e100, 1e154, 1e200, 1e300, 1.7e308, np.inf], k)
    h = np.where((kind == 3) & (rng.random(k) < 0.5), big, h)
    h[0] = 0.0
    return h


@REG.scenario(quick=60)
def closed_forms(ctx):
    """Kernel values in a random order of regularities (history of evaluations)."""
    for _ in range(6):
        p = int(ctx.rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 15, 20]))
        h = distances(ctx.rng, 12)
        if ctx.rng.random() < 0.3:
            h = h.reshape(3, 4)
        got = to_np(gk.maternp_kernel(p, gnp.asarray(h.copy())))
        want = np.array([mp_matern(p, float(a)) for a in h.reshape(-1)]).reshape(h.shape)
        ctx.state(p, h.ndim)
        tol = 1e-12 * (1 + p) ** 2
        ctx.check(np.all(np.isfinite(got)), "finite", f"p={p} h={h} K={got}")
        ctx.close(got, want, "matern/absolute", atol=tol)
        big = want > 1e-290
        if big.any():
            r = got[big] / want[big]
            t = 2 * math.sqrt(p + 0.5) * h[big]
            # relative accuracy: the exponential amplifies rounding of its argument
            ctx.check(np.all(np.abs(r - 1) <= tol + 8 * ref.EPS * (1 + t) * (1 + p)), "matern/relative",
                      f"p={p} h={h[big]} ratio={r}")
        ctx.check(np.all((got >= 0) & (got <= 1 + 1e-12)), "between zero and one", f"{got}")
        hs = np.sort(h.reshape(-1))
        k = to_np(gk.maternp_kernel(p, gnp.asarray(hs)))
        ctx.check(np.all(np.diff(k) <= 1e-14), "decreasing", f"p={p}")
        ctx.close(to_np(gk.maternp_kernel(p, gnp.asarray(np.zeros(2)))), np.ones(2), "one at zero", rtol=1e-14)
    h = distances(ctx.rng, 10)
    e = to_np(gk.exponential_kernel(gnp.asarray(h.copy())))
    ctx.close(e, np.exp(-h), "exponential", atol=1e-15)
    m = to_np(gk.matern32_kernel(gnp.asarray(h.copy())))
    ctx.check(np.all(np.isfinite(m)), "matern32/finite", f"h={h} K={m}")
    ctx.close(m, np.array([mp_matern(1, float(a)) for a in h]), "matern32", atol=1e-13)
    ctx.note(h=h.tolist())


@REG.scenario(quick=100)
def covariance(ctx):
    rng = ctx.rng
    d = int(rng.integers(1, 6))
    n, m = int(rng.integers(1, 15)), int(rng.integers(1, 10))
    p = int(rng.integers(0, 7))
    x = rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-2, 2)
    y = x[rng.integers(0, n, m)] + rng.normal(size=(m, d)) * (x.std() + 1.0)
    rho = 10.0 ** rng.uniform(-1, 2, d) * (x.std() + 0.1)
    s2 = 10.0 ** (rng.uniform(-5, 5) if rng.random() < 0.7 else rng.uniform(-25, 25))
    par = np.concatenate([[math.log(s2)], -np.log(rho)])
    ctx.note(p=p, d=d, n=n, m=m, param=par.round(4).tolist())
    ctx.state(p, d, n > 1)
    X, Y, th = gnp.asarray(x.copy()), gnp.asarray(y.copy()), gnp.asarray(par.copy())
    inv = 1.0 / rho
    # error of the expanded squared distances of the PyTorch backend
    xs = np.vstack([x, y]) * inv
    e2 = 40 * ref.EPS * (1 + np.max(np.sum((xs - xs.mean(0)) ** 2, axis=1)))
    lip = math.sqrt(e2) if p == 0 else e2 * 4
    at = s2 * (1e-12 + (lip * 3 if ctx.backend == "torch" else 0))

    K = to_np(gk.maternp_covariance(X, X, p, th))
    want = s2 * ref.matern_np(p, ref.sdist(x, x, inv)) + 10 * s2 * ref.EPS * np.eye(n)
    ctx.close(K, want, "square/value", atol=at)
    ctx.close(K, K.T, "square/symmetric", atol=s2 * 1e-13)
    ctx.close(np.diag(K), np.full(n, s2), "square/diagonal", rtol=1e-13)
    w = np.linalg.eigvalsh(0.5 * (K + K.T))
    ctx.check(w.min() > -n * at - 1e-12 * s2 * n, "square/semidefinite", f"{w.min()}")
    ctx.equal(to_np(gk.maternp_covariance(X, None, p, th)), K, "square/none is self")
    ctx.close(to_np(gk.maternp_covariance(X, None, p, th, pairwise=True)), np.full(n, s2),
              "pairwise/self", rtol=1e-13)
    ctx.close(to_np(gk.maternp_covariance(X, X, p, th, pairwise=True)), np.full(n, s2),
              "pairwise/same object", rtol=1e-13)
    C = to_np(gk.maternp_covariance(X, Y, p, th))
    wantC = s2 * ref.matern_np(p, ref.sdist(x, y, inv))
    ctx.close(C, wantC, "rectangular/value", atol=at)
    ctx.close(to_np(gk.maternp_covariance(Y, X, p, th)), C.T, "rectangular/transpose", atol=at)
    k = min(n, m)
    D = to_np(gk.maternp_covariance(gnp.asarray(x[:k].copy()), gnp.asarray(y[:k].copy()), p, th, pairwise=True))
    ctx.close(D, np.diag(wantC[:k, :k]), "pairwise/value", atol=s2 * 1e-12)
    # a copy of the same points is still the same points (up to the tiny nugget)
    ctx.close(to_np(gk.maternp_covariance(X, gnp.asarray(x.copy()), p, th)), K, "copy of the points",
              atol=at + 20 * s2 * ref.EPS + (s2 * math.sqrt(e2) * (1 if p == 0 else 0)))
    # joint covariance matrix over x and y is positive semi-definite
    J = np.block([[K, C], [C.T, to_np(gk.maternp_covariance(Y, Y, p, th))]])
    w = np.linalg.eigvalsh(0.5 * (J + J.T))
    ctx.check(w.min() > -(n + m) * at - 1e-12 * s2 * (n + m), "joint/semidefinite", f"{w.min()}")
    # invariances: translation, joint scaling, reflection
    t = rng.normal(size=d) * 10.0 ** rng.uniform(0, 5)
    dt = 8 * ref.EPS * np.max(np.abs(t) * inv) * 4  # rounding of the shifted inputs
    at2 = at + s2 * dt * 3
    Ct = to_np(gk.maternp_covariance(gnp.asarray(x + t), gnp.asarray(y + t), p, th))
    ctx.close(Ct, C, "translation", atol=2 * at2)
    Kt = to_np(gk.maternp_covariance(gnp.asarray(x + t), None, p, th))
    ctx.close(Kt, K, "translation/square", atol=2 * at2)
    c = 10.0 ** rng.uniform(-3, 3, d)
    par2 = par.copy()
    par2[1:] -= np.log(c)
    Cs = to_np(gk.maternp_covariance(gnp.asarray(x * c), gnp.asarray(y * c), p, gnp.asarray(par2)))
    ctx.close(Cs, C, "joint scaling", atol=3 * at)


@REG.scenario(quick=30)
def distance_helpers(ctx):
    rng = ctx.rng
    d, n, m = int(rng.integers(1, 6)), int(rng.integers(1, 12)), int(rng.integers(1, 12))
    x, y = rng.normal(size=(n, d)), rng.normal(size=(m, d))
    li = rng.normal(size=d)
    ctx.note(n=n, m=m, d=d)
    X, Y, L = gnp.asarray(x), gnp.asarray(y), gnp.asarray(li)
    ctx.close(to_np(gnp.scaled_distance(L, X, Y)), ref.sdist(x, y, np.exp(li)), "scaled distance", atol=1e-6, rtol=1e-7)
    ctx.close(to_np(gnp.cdist(X, Y)), ref.sdist(x, y, 1.0), "distance", atol=1e-6, rtol=1e-7)
    ctx.close(np.diag(to_np(gnp.scaled_distance(L, X, X))), np.zeros(n), "zero to itself", atol=0)
    k = min(n, m)
    ctx.close(to_np(gnp.scaled_distance_elementwise(L, X[:k], Y[:k])),
              np.diag(ref.sdist(x[:k], y[:k], np.exp(li))), "elementwise", rtol=1e-12)
    ctx.close(to_np(gnp.scaled_distance_elementwise(L, X, None)), np.zeros(n), "elementwise/self", atol=0)


@REG.scenario(quick=20)
def table_history(ctx):
    """Values must not depend on which regularities were evaluated before."""
    h = gnp.asarray(np.array([0.0, 0.1, 1.0, 3.0]))
    ps = [int(p) for p in ctx.rng.permutation(12)]
    first = {p: to_np(gk.maternp_kernel(p, h)) for p in ps}
    ctx.note(order=ps)
    for p in ctx.rng.permutation(12):
        ctx.equal(to_np(gk.maternp_kernel(int(p), h)), first[int(p)], "same value later")
        ctx.close(first[int(p)], ref.matern_np(int(p), to_np(h)), "value", rtol=1e-10)
