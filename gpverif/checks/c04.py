"""C04: likelihood criteria are the exact Gaussian (restricted) likelihoods."""

import math

import numpy as np
from scipy import stats

import gpmp.core
import gpmp.num as gnp

from .. import ref
from ..core import Registry, as_float, to_np
from ..gen import Problem, Reused

REG = Registry(
    "C04",
    "Random Gaussian-process problems and parameter vectors; likelihood values and "
    "quadratic forms are compared with dense computations, singular covariances included.",
    ["condition number of the generated systems at most 1e6"],
    more=20,
)


def other_params(ctx, pb):
    """Explicit parameters that differ from those stored in the model."""
    for _ in range(50):
        par = pb.covparam + ctx.rng.normal(size=len(pb.covparam)) * 0.3
        K = pb.kref(pb.xi, pb.xi, True, par=par)
        c = np.linalg.cond(K)
        if c < 1e6:
            return par, K, c
    return pb.covparam.copy(), pb.kref(pb.xi, pb.xi, True), pb.cond


def tol(ctx, pb, c):
    return pb.rtol(ctx.backend) * max(1.0, c / pb.cond) * 4


@REG.scenario(quick=120)
def zero_mean(ctx):
    pb = Problem(ctx.rng, meantype=str(ctx.rng.choice(["zero", "linear_predictor"])))
    ctx.note(**pb.describe())
    par, K, c = other_params(ctx, pb)
    ctx.state(*pb.sig())
    model = pb.model()
    if pb.meantype == "linear_predictor":
        model.meanparam = None
    xi, zi = gnp.asarray(pb.xi.copy()), gnp.asarray(pb.zi.copy())
    want = ref.nll(K, pb.zi)
    quad = float(pb.zi @ ref.solve_refined(K, pb.zi))
    got = model.negative_log_likelihood_zero_mean(gnp.asarray(par), xi, zi)
    sc = pb.n + quad + abs(want)
    ctx.close(as_float(got), want, "value", rtol=tol(ctx, pb, c), scale=sc)
    # scipy's density as a second, unrelated oracle
    d = -stats.multivariate_normal(np.zeros(pb.n), K, allow_singular=False).logpdf(pb.zi)
    ctx.close(as_float(got), d, "value/scipy", rtol=tol(ctx, pb, c) * 10, scale=sc)
    ctx.close(as_float(model.norm_k_sqrd_with_zero_mean(xi, zi, gnp.asarray(par))), quad,
              "squared norm", rtol=tol(ctx, pb, c), scale=quad)
    a, b, e = model.k_inverses(xi, zi, gnp.asarray(par))
    ctx.close(as_float(a), quad, "k_inverses/zKz", rtol=tol(ctx, pb, c), scale=quad)
    one = np.asarray(ref.solve_refined(K, np.ones(pb.n)), float)
    kz = np.asarray(ref.solve_refined(K, pb.zi), float)
    ctx.close(to_np(b).reshape(-1), one, "k_inverses/K1", rtol=tol(ctx, pb, c))
    ctx.close(to_np(e).reshape(-1), kz, "k_inverses/Kz", rtol=tol(ctx, pb, c))
    # order of the observations is irrelevant
    p = ctx.rng.permutation(pb.n)
    g2 = model.negative_log_likelihood_zero_mean(
        gnp.asarray(par), gnp.asarray(pb.xi[p].copy()), gnp.asarray(pb.zi[p].copy()))
    ctx.close(as_float(g2), want, "value/permuted", rtol=tol(ctx, pb, c), scale=sc)


@REG.scenario(quick=80)
def given_mean(ctx):
    pb = Problem(ctx.rng, meantype="parameterized")
    ctx.note(**pb.describe())
    par, K, c = other_params(ctx, pb)
    ctx.state(*pb.sig())
    mp = pb.meanparam + ctx.rng.normal(size=len(pb.meanparam))
    model = pb.model()
    got = model.negative_log_likelihood(
        gnp.asarray(mp), gnp.asarray(par), gnp.asarray(pb.xi.copy()), gnp.asarray(pb.zi.copy()))
    r = pb.zi - pb.mref(pb.xi, mp)
    want = ref.nll(K, r)
    ctx.close(as_float(got), want, "value", rtol=tol(ctx, pb, c),
              scale=pb.n + abs(want) + float(r @ ref.solve_refined(K, r)))


@REG.scenario(quick=120)
def restricted(ctx):
    pb = Problem(ctx.rng, meantype="linear_predictor")
    ctx.note(**pb.describe())
    par, K, c = other_params(ctx, pb)
    ctx.state(*pb.sig())
    model = pb.model()
    P = pb.mref(pb.xi)
    xi = gnp.asarray(pb.xi.copy())

    def value(z):
        return as_float(model.negative_log_restricted_likelihood(
            gnp.asarray(par), xi, gnp.asarray(z)))

    want = ref.reml(K, P, pb.zi)
    W = ref.contrasts(P)
    G = W.T @ K @ W
    quad = float((W.T @ pb.zi) @ np.linalg.solve(G, W.T @ pb.zi))
    sc = pb.n + abs(want) + quad
    t = tol(ctx, pb, c)
    ctx.close(value(pb.zi.copy()), want, "value", rtol=t, scale=sc)
    ctx.close(as_float(model.norm_k_sqrd(xi, gnp.asarray(pb.zi.copy()), gnp.asarray(par))), quad,
              "squared norm", rtol=t, scale=quad + 1)
    # textbook REML expression, independent of contrasts
    L = np.linalg.slogdet(K)[1] + np.linalg.slogdet(P.T @ np.linalg.solve(K, P))[1]
    L -= np.linalg.slogdet(P.T @ P)[1]
    KiP = np.linalg.solve(K, P)
    r = pb.zi - P @ np.linalg.solve(P.T @ KiP, KiP.T @ pb.zi)
    alt = 0.5 * ((pb.n - pb.q) * math.log(2 * math.pi) + L + float(r @ np.linalg.solve(K, r)))
    ctx.close(value(pb.zi.copy()), alt, "value/textbook", rtol=t * 1e3, scale=sc)
    # insensitive to the drift
    beta = ctx.rng.normal(size=pb.q) * pb.sigma * 3
    zs = (np.abs(P @ beta).max() / pb.sigma) ** 2
    ctx.close(value(pb.zi + P @ beta), want, "drift invariance", rtol=t, scale=sc * (1 + zs))
    p = ctx.rng.permutation(pb.n)
    got = as_float(model.negative_log_restricted_likelihood(
        gnp.asarray(par), gnp.asarray(pb.xi[p].copy()), gnp.asarray(pb.zi[p].copy())))
    ctx.close(got, want, "value/permuted", rtol=t, scale=sc)


@REG.scenario(quick=60)
def not_factorisable(ctx):
    """Covariance matrices that have no Cholesky factor."""
    kind = str(ctx.rng.choice(["indefinite", "negative", "singular"]))
    n = int(ctx.rng.integers(3, 12))
    x = ctx.rng.random((n, 1))
    ctx.note(kind=kind, n=n)
    ctx.observe(x)

    def cov(x, y, param, pairwise=False):
        k = x.shape[0]
        if kind == "indefinite":
            return gnp.exp(param[0]) * (3.0 * gnp.ones((k, k)) - 2.5 * gnp.eye(k))
        if kind == "negative":
            return -gnp.exp(param[0]) * gnp.eye(k)
        return gnp.exp(param[0]) * (gnp.eye(k) - 1.5 * gnp.ones((k, k)))

    def mean(x, param):
        return gnp.ones((x.shape[0], 1))

    par = gnp.asarray(np.array([float(ctx.rng.normal())]))
    xi, zi = gnp.asarray(x), gnp.asarray(ctx.rng.normal(size=n))
    m0 = gpmp.core.Model(None, cov, None, par, meantype="zero")
    m1 = gpmp.core.Model(lambda x, p: p[0] * gnp.ones((x.shape[0], 1)), cov,
                         gnp.asarray(np.array([0.3])), par, meantype="parameterized")
    m2 = gpmp.core.Model(mean, cov, None, par, meantype="linear_predictor")
    ctx.state(kind)
    calls = {
        "zero mean": lambda: m0.negative_log_likelihood_zero_mean(par, xi, zi),
        "given mean": lambda: m1.negative_log_likelihood(m1.meanparam, par, xi, zi),
    }
    if kind != "singular":  # contrasts of I - c 11^T are regular
        calls["restricted"] = lambda: m2.negative_log_restricted_likelihood(par, xi, zi)
    if kind == "indefinite":
        # in the contrast space 3 * 11^T - 2.5 I is negative definite
        pass
    for name, f in calls.items():
        try:
            v = as_float(f())
        except Exception as exc:  # noqa: BLE001
            ctx.check(False, f"infinite/{name}", f"raised {type(exc).__name__}: {exc}")
            continue
        ctx.check(v == math.inf, f"infinite/{name}", f"value {v}")


@REG.scenario(quick=4)
def other_errors_propagate(ctx):
    """A programming error in the covariance is not turned into infinity."""
    class Boom(Exception):
        pass

    def cov(x, y, param, pairwise=False):
        raise Boom("user error")

    par = gnp.asarray(np.zeros(2))
    m = gpmp.core.Model(None, cov, None, par, meantype="zero")
    n = int(ctx.rng.integers(2, 6))
    xi, zi = gnp.asarray(ctx.rng.random((n, 1))), gnp.asarray(ctx.rng.normal(size=n))
    ctx.note(n=n)
    ctx.observe(xi)
    ctx.raises(lambda: m.negative_log_likelihood_zero_mean(par, xi, zi), "propagates", Boom)


@REG.scenario(quick=50)
def reused_arrays(ctx):
    """The same model and array objects, changed in place or replaced between calls."""
    ru = Reused(ctx.rng, nmax=12)
    pb, steps = ru.pb, ["first"]
    for _ in range(int(ctx.rng.integers(3, 7))):
        ctx.note(steps=list(steps), **pb.describe())
        ctx.state("reused", steps[-1], pb.meantype)
        K = pb.kref(pb.xi, pb.xi, True)
        par = ru.model.covparam
        if pb.meantype == "linear_predictor":
            want = ref.reml(K, pb.mref(pb.xi), pb.zi)
            got = ru.model.negative_log_restricted_likelihood(par, ru.xi, ru.zi)
            quad = abs(want)
        else:
            r = pb.zi - (pb.mref(pb.xi) if pb.meantype == "parameterized" else 0.0)
            want = ref.nll(K, r)
            quad = float(r @ ref.solve_refined(K, r))
            if pb.meantype == "parameterized":
                got = ru.model.negative_log_likelihood(ru.model.meanparam, par, ru.xi, ru.zi)
            else:
                got = ru.model.negative_log_likelihood_zero_mean(par, ru.xi, ru.zi)
        ctx.close(as_float(got), want, "reused/value", rtol=tol(ctx, pb, pb.cond), scale=pb.n + abs(want) + quad)
        steps.append(ru.step())


@REG.scenario(quick=24)
def larger_designs(ctx):
    """Hundreds of observations: determinants far outside the range of floating point."""
    kind = str(ctx.rng.choice(["zero", "parameterized", "linear_predictor"]))
    pb = Problem(ctx.rng, n=int(ctx.rng.integers(100, 420)), m=1, meantype=kind)
    ctx.note(**pb.describe())
    ctx.state(*pb.sig(), pb.n > 200)
    K = pb.kref(pb.xi, pb.xi, True)
    model = pb.model()
    par, xi, zi = gnp.asarray(pb.covparam.copy()), gnp.asarray(pb.xi.copy()), gnp.asarray(pb.zi.copy())
    if kind == "linear_predictor":
        want = ref.reml(K, pb.mref(pb.xi), pb.zi)
        got = model.negative_log_restricted_likelihood(par, xi, zi)
        z = pb.zi
    elif kind == "parameterized":
        z = pb.zi - pb.mref(pb.xi)
        want = ref.nll(K, z)
        got = model.negative_log_likelihood(model.meanparam, par, xi, zi)
    else:
        z = pb.zi
        want = ref.nll(K, z)
        got = model.negative_log_likelihood_zero_mean(par, xi, zi)
    sc = pb.n + abs(want) + float(z @ ref.solve_refined(K, z))
    ctx.close(as_float(got), want, "large/value", rtol=tol(ctx, pb, pb.cond), scale=sc)
    ctx.count("log-determinants beyond the floating-point range", int(abs(np.linalg.slogdet(K)[1]) > 700))
