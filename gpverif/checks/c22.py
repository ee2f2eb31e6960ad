"""C22: scoring rules and Gaussian distribution functions match their integrals.

Closed forms are compared, on generated arguments including tails, tiny and huge scales, with
composite Gauss-Legendre quadrature of their defining integrals (written here, independent of the
library) and followed through shifts, scalings and reflections.  Distribution functions are
compared with arbitrary precision values, densities with direct linear algebra, draws with their
law.
"""

import math

import mpmath
import numpy as np
from scipy import special as sp

import gpmp as gp
import gpmp.num as gnp

from .. import stats
from ..core import Registry, as_float, to_np

mpmath.mp.dps = 40
sr = gp.misc.scoringrules

REG = Registry(
    "C22",
    more=5,
    rule="one evaluation = one value, relation or law against an integral, an arbitrary precision value or direct linear algebra",
    assumptions=[
        "standard deviations are positive",
        "statistical verdicts have a false-alarm probability below 1e-9 each",
    ],
)

NODES, WEIGHTS = np.polynomial.legendre.leggauss(16)


def integral(f, lo, hi, mu, s, step=0.5):
    """Integral of a function of the law N(mu, s^2), flat beyond 40 s from mu (value f there)."""
    if hi <= lo:
        return 0.0
    a, b = mu - 40 * s, mu + 40 * s
    total = 0.0
    if lo < a:
        total += (min(hi, a) - lo) * float(f(np.array([min(hi, a) - 1e-3 * s]))[0])
    if hi > b:
        total += (hi - max(lo, b)) * float(f(np.array([max(lo, b) + 1e-3 * s]))[0])
    lo, hi = max(lo, a), min(hi, b)
    if hi <= lo:
        return total
    k = max(1, int(math.ceil((hi - lo) / (step * s))))
    e = np.linspace(lo, hi, k + 1)
    h = (e[1:] - e[:-1]) / 2
    u = ((e[1:] + e[:-1]) / 2)[:, None] + h[:, None] * NODES
    return total + float(np.sum(h[:, None] * WEIGHTS * f(u)))


def ref_ei1(mu, s, z):
    return integral(lambda u: sp.ndtr(-(u - mu) / s), z, max(z, mu + 40 * s), mu, s)


def ref_ei2(mu, s, z):
    """Expected excess over z of the larger of two independent copies."""
    return integral(lambda u: sp.ndtr(-(u - mu) / s) * (1 + sp.ndtr((u - mu) / s)), z, max(z, mu + 40 * s), mu, s)


def ref_tcrps(mu, s, z, a=-np.inf, b=np.inf):
    lo, hi = max(a, min(mu - 40 * s, z)), min(b, max(mu + 40 * s, z))
    below = integral(lambda u: sp.ndtr((u - mu) / s) ** 2, lo, min(hi, z), mu, s)
    above = integral(lambda u: sp.ndtr(-(u - mu) / s) ** 2, max(lo, z), hi, mu, s)
    return below + above


def draw(rng, n):
    s = 10.0 ** rng.uniform(-4, 4, n) if rng.uniform() < 0.4 else np.exp(rng.uniform(-1, 1, n))
    mu = float(rng.choice([0.0, 5.0, -300.0])) + rng.standard_normal(n)
    t = rng.choice([0.0, 1.0, 3.0, 8.0, 25.0]) * rng.standard_normal(n)
    return mu, s, mu + s * t


def give(rng, a):
    k = int(rng.integers(3))
    return [a.copy(), gnp.asarray(a.copy()), a.copy().tolist()][k]


def bounds(rng, mu, s, z):
    """Common thresholds around a random case."""
    i = int(rng.integers(len(mu)))
    kind = str(rng.choice(["both", "lower", "upper", "none"]))
    p = np.sort(mu[i] + s[i] * rng.uniform(-4, 4, 2))
    if rng.uniform() < 0.3:
        p[int(rng.integers(2))] = z[i]  # threshold equal to an observation
        p = np.sort(p)
        if p[1] <= p[0]:
            p[1] = p[0] + s[i]
    a = float(p[0]) if kind in ("both", "lower") else -np.inf
    b = float(p[1]) if kind in ("both", "upper") else np.inf
    return a, b, kind


@REG.scenario(quick=40)
def scoring(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 6]))
    mu, s, z = draw(rng, n)
    a, b, kind = bounds(rng, mu, s, z)
    got = to_np(sr.crps_gaussian(give(rng, mu), give(rng, s), give(rng, z))).ravel()
    ctx.shape(got, (n,), "crps-shape")
    want = np.array([ref_tcrps(*v) for v in zip(mu, s, z)])
    # rounding of mu, sigma, z themselves
    unit = s + 1e-3 * np.abs(z - mu) + 1e-4 * (np.abs(mu) + np.abs(z))
    for i in range(n):
        ctx.close(got[i], want[i], "crps", rtol=1e-9, atol=1e-11 * unit[i], msg=f"CRPS at t={(z[i] - mu[i]) / s[i]:.3g}")
    A = lambda v: gnp.asarray(v.copy())
    e1 = to_np(sr.ei1_up(A(mu), A(s), A(z))).ravel()
    e2 = to_np(sr.ei2_up(A(mu), A(s), A(z))).ravel()
    tc = to_np(sr.tcrps_gaussian(give(rng, mu), give(rng, s), give(rng, z), a, b)).ravel()
    for v, name in ((e1, "ei1"), (e2, "ei2"), (tc, "tcrps")):
        ctx.shape(v, (n,), f"{name}-shape")
        ctx.check(bool(np.all(v >= -1e-7 * unit)), f"{name}-sign", f"{name} is negative: {v.min()}")
    for i in range(n):
        ctx.close(e1[i], ref_ei1(mu[i], s[i], z[i]), "ei1", rtol=1e-9, atol=1e-11 * unit[i], msg="expected improvement")
        ctx.close(e2[i], ref_ei2(mu[i], s[i], z[i]), "ei2", rtol=1e-7, atol=1e-7 * unit[i], msg="expected improvement of two draws")
        ctx.close(tc[i], ref_tcrps(mu[i], s[i], z[i], a, b), "tcrps", rtol=1e-7, atol=3e-7 * (unit[i] + 1e-4 * (abs(a) if np.isfinite(a) else 0) + 1e-4 * (abs(b) if np.isfinite(b) else 0)),
                  msg=f"truncated CRPS ({kind}) at mu={mu[i]}, sigma={s[i]}, z={z[i]}, a={a}, b={b}")
    # scalars
    i = int(rng.integers(n))
    v = [float(mu[i]), float(s[i]), float(z[i])]
    ctx.close(as_float(sr.crps_gaussian(*v)), got[i], "crps-scalar", rtol=1e-12, atol=1e-13 * unit[i], msg="scalar CRPS")
    ctx.close(as_float(sr.ei1_up(*v)), e1[i], "ei1-scalar", rtol=1e-12, atol=1e-13 * unit[i], msg="scalar EI1")
    ctx.close(as_float(sr.ei2_up(*v)), e2[i], "ei2-scalar", rtol=1e-7, atol=1e-7 * unit[i], msg="scalar EI2")
    ctx.close(as_float(sr.tcrps_gaussian(*v, a=a, b=b)), tc[i], "tcrps-scalar", rtol=1e-7, atol=1e-7 * unit[i], msg="scalar truncated CRPS")
    ctx.state("scoring", n, kind, "tail" if np.max(np.abs(z - mu) / s) > 6 else "body")
    ctx.note(n=n, kind=kind, a=a, b=b)


@REG.scenario(quick=24)
def relations(ctx):
    """Shift, scale, reflection, additivity and array-bound relations."""
    rng = ctx.rng
    n = int(rng.choice([2, 5]))
    mu, s, z = draw(rng, n)
    s = np.exp(rng.uniform(-1, 1, n))
    z = mu + s * rng.uniform(-5, 5, n)
    A = gnp.asarray
    c, k = float(rng.uniform(-3, 3)), float(np.exp(rng.uniform(-2, 2)))
    p = np.sort(mu.mean() + rng.uniform(-3, 3, 3))
    a, m, b = (float(v) for v in p)
    tol = dict(rtol=1e-8, atol=1e-6 * max(1.0, k))
    T = lambda mu, s, z, a, b: to_np(sr.tcrps_gaussian(A(mu), A(s), A(z), a, b)).ravel()
    t = T(mu, s, z, a, b)
    ctx.close(T(k * mu + c, k * s, k * z + c, k * a + c, k * b + c), k * t, "scale", msg="truncated CRPS under scaling and shift", **tol)
    ctx.close(T(-mu, s, -z, -b, -a), t, "reflection", msg="truncated CRPS under reflection", **tol)
    ctx.close(T(mu, s, z, a, m) + T(mu, s, z, m, b), t, "additive", msg="truncated CRPS of adjacent intervals", **tol)
    full = to_np(sr.crps_gaussian(A(mu), A(s), A(z))).ravel()
    ctx.close(T(mu, s, z, -np.inf, m) + T(mu, s, z, m, np.inf), full, "split", msg="truncated CRPS of complementary half-lines", **tol)
    ctx.close(T(mu, s, z, -np.inf, np.inf), full, "whole-line", msg="truncated CRPS without bounds", rtol=1e-12)
    for f, name in ((sr.ei1_up, "ei1"), (sr.ei2_up, "ei2")):
        v = to_np(f(A(mu), A(s), A(z))).ravel()
        ctx.close(to_np(f(A(k * mu + c), A(k * s), A(k * z + c))).ravel(), k * v, f"{name}-scale", msg=f"{name} under scaling and shift", **tol)
        w = to_np(f(A(mu), A(s), A(z + 0.5 * s))).ravel()
        ctx.check(bool(np.all(w <= v + 1e-6)), f"{name}-monotone", f"{name} increases with the threshold")
    e1, e2 = to_np(sr.ei1_up(A(mu), A(s), A(z))).ravel(), to_np(sr.ei2_up(A(mu), A(s), A(z))).ravel()
    ctx.check(bool(np.all(e2 >= e1 - 1e-6) and np.all(e2 <= 2 * e1 + 1e-6)), "ei-order", "EI of two draws outside [EI1, 2 EI1]")
    # one bound per observation
    aa, bb = np.full(n, a), np.full(n, b)
    aa[0] = -np.inf
    bb[-1] = np.inf
    got = to_np(sr.tcrps_gaussian(A(mu), A(s), A(z), A(aa), A(bb))).ravel()
    ctx.shape(got, (n,), "bounds-shape")
    want = np.array([ref_tcrps(*v) for v in zip(mu, s, z, aa, bb)])
    ctx.close(got, want, "array-bounds", rtol=1e-7, atol=1e-6, msg="truncated CRPS with one interval per observation")
    ctx.state("relations", n, round(k), kind_of(z, a, b))


def kind_of(z, a, b):
    return int(np.any(z < a)), int(np.any(z > b))


def ref_cdf(t):
    return mpmath.ncdf(mpmath.mpf(float(t)))


@REG.scenario(quick=40)
def univariate(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 3, 8]))
    reach = float(rng.choice([1.0, 6.0, 12.0, 30.0]))
    loc = rng.standard_normal(n) * float(rng.choice([0.0, 1.0, 100.0]))
    scale = 10.0 ** rng.uniform(-3, 3, n)
    t = rng.uniform(-reach, reach, n)
    how = str(rng.choice(["standard", "scalars", "arrays", "positional"]))
    if how == "standard":
        loc, scale = np.zeros(n), np.ones(n)
        kw = ()
    elif how == "scalars":
        loc, scale = np.full(n, loc[0]), np.full(n, scale[0])
        kw = dict(loc=float(loc[0]), scale=float(scale[0]))
    x = loc + scale * t
    t = (x - loc) / scale
    if how == "arrays":
        kw = dict(loc=gnp.asarray(loc), scale=gnp.asarray(scale))
    elif how == "positional":
        kw = (gnp.asarray(loc), gnp.asarray(scale))
    arg = gnp.asarray(x)
    call = lambda f: to_np(f(arg, *kw) if isinstance(kw, tuple) else f(arg, **kw)).ravel()
    N = gnp.normal
    cdf = np.array([float(ref_cdf(v)) for v in t])
    lcdf = np.array([float(mpmath.log(ref_cdf(v)) if v < 0 else mpmath.log1p(-ref_cdf(-v))) for v in t])
    lpdf = -0.5 * t * t - 0.5 * math.log(2 * math.pi) - np.log(scale)
    # the standardised argument carries a relative rounding error, amplified by t in the tails
    amp = (1 + t * t) * (1 + np.abs(loc) / scale / np.maximum(np.abs(t), 1e-3))
    for i in range(n):
        ctx.close(call(N.cdf)[i], cdf[i], "cdf", rtol=1e-12 * amp[i], atol=0.0, msg=f"cdf at t={t[i]:.4g}")
        ctx.close(call(N.logcdf)[i], lcdf[i], "logcdf", rtol=1e-12 * amp[i], atol=1e-300, msg=f"logcdf at t={t[i]:.4g}")
        ctx.close(call(N.logpdf)[i], lpdf[i], "logpdf", rtol=1e-12 * amp[i], atol=1e-13 * amp[i], msg=f"logpdf at t={t[i]:.4g}, scale={scale[i]:.3g}")
        ctx.close(call(N.pdf)[i], math.exp(lpdf[i]), "pdf", rtol=2e-12 * amp[i], atol=1e-300, msg=f"pdf at t={t[i]:.4g}, scale={scale[i]:.3g}")
    ctx.close(call(N.cdf) + to_np(N.cdf(2 * gnp.asarray(loc) - arg, gnp.asarray(loc), gnp.asarray(scale))).ravel(), np.ones(n), "symmetry", rtol=1e-12, msg="cdf symmetry")
    far = np.array([-1e3, -60.0, 60.0, 1e3])
    ctx.close(to_np(N.logcdf(gnp.asarray(far))), np.array([float(sp.log_ndtr(v)) for v in far]), "logcdf-far", rtol=1e-10, atol=1e-300, msg="logcdf far in the tails")
    ctx.close(to_np(N.cdf(gnp.asarray(np.array([-np.inf, np.inf])))), np.array([0.0, 1.0]), "cdf-infinite", rtol=0, atol=0, msg="cdf at infinity")
    f = float(x[0])
    ctx.close(as_float(N.cdf(f, float(loc[0]), float(scale[0]))), cdf[0], "cdf-scalar", rtol=1e-12 * amp[0], msg="scalar cdf")
    ctx.close(as_float(N.logpdf(f, float(loc[0]), float(scale[0]))), lpdf[0], "logpdf-scalar", rtol=1e-12 * amp[0], atol=1e-13 * amp[0], msg="scalar logpdf")
    ctx.state("univariate", n, reach, how)


def ref_bvn(x, y, r):
    """P(X <= x, Y <= y), standard normals of correlation r."""
    q = math.sqrt(1 - r * r)
    return integral(lambda u: np.exp(-0.5 * u * u) / math.sqrt(2 * math.pi) * sp.ndtr((y - r * u) / q), -40.0, min(x, 40.0), 0.0, 1.0, min(0.5, q))


@REG.scenario(quick=30)
def multivariate(ctx):
    rng = ctx.rng
    d = int(rng.choice([1, 2, 3, 5]))
    n = int(rng.choice([1, 4]))
    q, _ = np.linalg.qr(rng.standard_normal((d, d)))
    ev = 10.0 ** rng.uniform(-2, 2, d) * 10.0 ** rng.uniform(-2, 2)
    C = (q * ev) @ q.T
    C = (C + C.T) / 2
    zero = rng.uniform() < 0.3
    mean = np.zeros(d) if zero else rng.standard_normal(d) * 3
    x = mean + (rng.standard_normal((n, d)) * float(rng.choice([1.0, 5.0]))) @ np.linalg.cholesky(C).T
    how = str(rng.choice(["matrix", "scalar"])) if d == 1 else "matrix"
    cov = float(C[0, 0]) if how == "scalar" else gnp.asarray(C)
    m = 0.0 if zero and rng.uniform() < 0.5 else (float(mean[0]) if d == 1 else gnp.asarray(mean))
    xa = gnp.asarray(x[:, 0] if d == 1 else x)
    got = to_np(gnp.multivariate_normal.logpdf(xa, mean=m, cov=cov)).ravel()
    r = np.linalg.solve(C, (x - mean).T)
    want = -0.5 * np.sum((x - mean).T * r, axis=0) - 0.5 * np.linalg.slogdet(C)[1] - 0.5 * d * math.log(2 * math.pi)
    ctx.shape(got, (n,), "logpdf-shape")
    ctx.close(got, want, "mv-logpdf", rtol=1e-9, atol=1e-9 * d, msg="multivariate log-density")
    if d > 1:
        ctx.close(as_float(gnp.multivariate_normal.logpdf(gnp.asarray(x[0]), mean=m, cov=cov)), want[0], "mv-logpdf-one", rtol=1e-9, atol=1e-9 * d, msg="log-density of one point")
        ctx.raises(lambda: gnp.multivariate_normal.logpdf(gnp.asarray(np.zeros((2, d + 1))), mean=m, cov=cov), "mv-dimension", ValueError)
    # distribution function
    if d == 1:
        c = to_np(gnp.multivariate_normal.cdf(xa, mean=m, cov=cov)).ravel()
        ctx.close(c, sp.ndtr((x[:, 0] - mean[0]) / math.sqrt(C[0, 0])), "mv-cdf-1", rtol=1e-9, atol=1e-12, msg="cdf, one dimension")
    elif d == 2:
        c = to_np(gnp.multivariate_normal.cdf(xa, mean=m, cov=cov)).ravel()
        sd = np.sqrt(np.diag(C))
        for i in range(n):
            h = (x[i] - mean) / sd
            ctx.close(c[i], ref_bvn(h[0], h[1], C[0, 1] / sd.prod()), "mv-cdf-2", rtol=0, atol=1e-6, msg="cdf, two dimensions")
    else:
        D = np.diag(ev)
        y = mean + rng.standard_normal(d) * np.sqrt(ev)
        c = as_float(gnp.multivariate_normal.cdf(gnp.asarray(y), mean=m, cov=gnp.asarray(D)))
        ctx.close(c, float(np.prod(sp.ndtr((y - mean) / np.sqrt(ev)))), "mv-cdf-independent", rtol=0, atol=2e-4, msg="cdf of independent components")
        E = 0.5 * (np.eye(d) + np.ones((d, d))) * ev[0]
        c = as_float(gnp.multivariate_normal.cdf(gnp.asarray(mean), mean=m, cov=gnp.asarray(E)))
        ctx.close(c, 1.0 / (d + 1), "mv-cdf-orthant", rtol=0, atol=2e-4, msg="orthant probability")
    # draws
    k = 400
    gnp.set_seed(int(rng.integers(2**31)))
    v = to_np(gnp.multivariate_normal.rvs(mean=m, cov=cov, n=k)).reshape(k, d)
    L = np.linalg.cholesky(C)
    w = np.linalg.solve(L, (v - mean).T).T
    p = stats.chi2_two_sided(float(np.sum(w**2)), k * d)
    ctx.check(p > stats.ALPHA, "rvs-scale", f"draws with the wrong covariance (p={p:.2g})")
    p = stats.whitened_pvalue(math.sqrt(k) * w.mean(axis=0), np.eye(d))
    ctx.check(p > stats.ALPHA, "rvs-mean", f"draws with the wrong mean (p={p:.2g})")
    p = stats.ks_normal(w)
    ctx.check(p > stats.ALPHA, "rvs-normal", f"draws not normal (p={p:.2g})")
    if d > 1:
        cr = w.T @ w / math.sqrt(k)
        off = cr[np.triu_indices(d, 1)]
        ctx.check(bool(np.all(np.abs(off) < 8)), "rvs-correlation", f"correlated whitened draws {off}")
    ctx.count("draws", k)
    ctx.state("multivariate", d, n, how, zero)


@REG.scenario(quick=6)
def basic_draws(ctx):
    """Uniform, normal, permutation and choice draws of the numerical layer."""
    rng = ctx.rng
    gnp.set_seed(int(rng.integers(2**31)))
    n = 3000
    u = to_np(gnp.rand(n // 3, 3))
    ctx.shape(u, (n // 3, 3), "rand-shape")
    ctx.check(bool(np.all((u >= 0) & (u < 1))), "rand-range", "uniform draws outside [0, 1)")
    ctx.check(stats.ks_uniform(u) > stats.ALPHA, "rand-law", "uniform draws")
    g = to_np(gnp.randn(n))
    ctx.check(stats.ks_normal(g) > stats.ALPHA, "randn-law", "normal draws")
    r = np.corrcoef(g[1:], g[:-1])[0, 1] * math.sqrt(n)
    ctx.check(abs(r) < 7, "randn-independent", f"serial correlation {r:.1f} standard errors")
    k = int(rng.integers(2, 7))
    counts = np.zeros((k, k))
    for _ in range(400):
        p = to_np(gnp.permutation(k)).astype(int)
        if not ctx.check(sorted(p.tolist()) == list(range(k)), "permutation", f"not a permutation: {p}"):
            break
        counts[np.arange(k), p] += 1
    p = min(stats.multinomial_pvalue(c, np.full(k, 1 / k)) for c in counts)
    ctx.check(p > stats.ALPHA, "permutation-law", f"positions of a permutation (p={p:.2g})")
    w = rng.dirichlet(np.ones(k))
    c = to_np(gnp.choice(gnp.asarray(np.arange(k)), size=1000, p=gnp.asarray(w))).astype(int)
    p = stats.multinomial_pvalue(np.bincount(c, minlength=k), w)
    ctx.check(p > stats.ALPHA, "choice-law", f"weighted choices (p={p:.2g})")
    c = to_np(gnp.choice(gnp.asarray(np.arange(k)), size=k, replace=False)).astype(int)
    ctx.check(sorted(c.tolist()) == list(range(k)), "choice-distinct", f"choice without replacement {c}")
    ctx.state("draws", k)
