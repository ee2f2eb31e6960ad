"""C08: prior penalties and REMAP objectives equal their documented densities."""

import math
from statistics import NormalDist

import numpy as np

import gpmp.kernel as gk
import gpmp.kernel.prior_defaults as pd
import gpmp.kernel.priors as pr
import gpmp.num as gnp

from .. import ref
from ..core import Registry, as_float, to_np
from ..gen import Problem
from .c06 import dref, fisher_ref

REG = Registry(
    "C08",
    "Random parameter vectors, hyperparameters, data sets and histories of default updates; "
    "priors compared with re-implemented densities, objectives with likelihood minus priors.",
    more=20,
)

FACTORY = dict(gamma=1.5, sigma2_coverage=0.95, alpha=1.0, rho_min_range_factor=1 / 20.0)


def reset():
    pd.set_default_prior_hyperparameters(**FACTORY)


def gauss_ref(ls2, ls20, gamma, cov):
    std = math.log(gamma) / NormalDist().inv_cdf(0.5 * (1 + cov))
    return -0.5 * ((ls2 - ls20) / std) ** 2


def rho_ref(logrho, lmin, l0, alpha):
    s = logrho - lmin
    with np.errstate(all="ignore"):
        v = -alpha * (l0 - lmin) * np.log(s) + alpha * s
    return np.where(s > 0, v, np.inf)


def power_ref(p, lv=1.0, cv=9.21, ll=0.0, lo=-9.21, hi=9.21, pf=100.0):
    return (
        -lv * p[0]
        - pf * max(p[0] - cv, 0.0)
        - ll * np.sum(p[1:])
        - pf * np.sum(np.maximum(lo - p[1:], 0.0))
        - pf * np.sum(np.maximum(p[1:] - hi, 0.0))
    )


@REG.scenario(quick=80)
def variance_priors(ctx):
    reset()
    rng = ctx.rng
    d = int(rng.integers(1, 5))
    p = np.concatenate([[rng.normal() * 4], rng.normal(size=d) * 3])
    P = gnp.asarray(p.copy())
    lam = float(rng.uniform(0.1, 3))
    ctx.note(param=p.round(4).tolist())
    ctx.close(as_float(gk.log_prior_jeffreys_variance(P)), -p[0], "jeffreys", rtol=1e-12)
    ctx.close(as_float(gk.log_prior_jeffreys_variance(P, lam)), -lam * p[0], "jeffreys/scaled", rtol=1e-12)

    g, c, m = float(1 + rng.exponential(2) + 1e-3), float(rng.uniform(0.05, 0.995)), float(rng.normal() * 3)
    ctx.state(d, round(g), round(c, 1))
    v = as_float(gk.log_prior_gaussian_logsigma2(P, m, gamma=g, sigma2_coverage=c))
    ctx.close(v, gauss_ref(p[0], m, g, c), "gaussian/value", rtol=1e-10, atol=1e-12)
    ctx.check(v <= 0, "gaussian/maximum at the anchor")
    # the calibrated interval carries the requested mass (numerical integration)
    t = np.linspace(-9, 9, 4001)
    std = math.log(g) / NormalDist().inv_cdf(0.5 * (1 + c))
    # integrate on a grid that contains the interval ends as panel boundaries
    half = math.log(g)

    def mass(a, b, k=1200):
        xs, ws = np.polynomial.legendre.leggauss(40)
        edges = np.linspace(a, b, 30)
        tot = 0.0
        for l, u in zip(edges[:-1], edges[1:]):
            xx = 0.5 * (u - l) * xs + 0.5 * (u + l)
            f = [math.exp(as_float(gk.log_prior_gaussian_logsigma2(
                gnp.asarray(np.array([m + q, 0.0])), m, gamma=g, sigma2_coverage=c))) for q in xx]
            tot += 0.5 * (u - l) * float(np.dot(ws, f))
        return tot

    if ctx.case % 8 == 0:
        inside = mass(-half, half)
        outside = mass(half, 10 * std + half)
        ctx.close(inside / (inside + 2 * outside), c, "gaussian/interval mass", atol=1e-6)
    # defaults used when nothing is given
    ctx.close(as_float(gk.log_prior_gaussian_logsigma2(P, m)), gauss_ref(p[0], m, 1.5, 0.95),
              "gaussian/defaults", rtol=1e-10, atol=1e-12)
    for bad in (dict(gamma=1.0), dict(gamma=0.5), dict(sigma2_coverage=0.0), dict(sigma2_coverage=1.0),
                dict(sigma2_coverage=1.2)):
        ctx.raises(lambda: gk.log_prior_gaussian_logsigma2(P, m, **bad), "gaussian/invalid refused", ValueError)


@REG.scenario(quick=80)
def power_law(ctx):
    reset()
    rng = ctx.rng
    d = int(rng.integers(1, 5))
    wide = rng.random() < 0.6
    p = np.concatenate([[rng.normal() * (14 if wide else 3)], rng.normal(size=d) * (12 if wide else 3)])
    ctx.note(param=p.round(4).tolist())
    ctx.state(bool(p[0] > 9.21), bool((p[1:] < -9.21).any()), bool((p[1:] > 9.21).any()))
    P = gnp.asarray(p.copy())
    ctx.close(as_float(gk.log_prior_power_law(P)), power_ref(p), "default", rtol=1e-10, atol=1e-9)
    kw = dict(lambda_var=float(rng.uniform(0, 3)), cut_logvariance_high=float(rng.normal() * 4),
              lambda_lengthscales=float(rng.uniform(0, 2)), cut_loginvrho_low=float(-rng.uniform(0, 9)),
              cut_loginvrho_high=float(rng.uniform(0, 9)), penalty_factor=float(rng.uniform(1, 200)))
    want = power_ref(p, kw["lambda_var"], kw["cut_logvariance_high"], kw["lambda_lengthscales"],
                     kw["cut_loginvrho_low"], kw["cut_loginvrho_high"], kw["penalty_factor"])
    got = as_float(gk.log_prior_power_law(P, **kw))
    ctx.close(got, want, "custom", rtol=1e-10, atol=1e-9)
    kw0 = dict(kw, penalty_factor=0.0)
    ctx.check(got <= as_float(gk.log_prior_power_law(P, **kw0)) + 1e-9, "cut-offs only penalise")


@REG.scenario(quick=100)
def length_scale_prior(ctx):
    reset()
    rng = ctx.rng
    d = int(rng.integers(1, 5))
    lmin = rng.normal(size=d) * 2
    l0 = lmin + rng.exponential(1.5, d) + 0.05
    alpha = float(rng.uniform(0.1, 5) if rng.random() < 0.7 else 10.0 ** rng.uniform(-6, 3))
    lr = lmin + rng.normal(size=d) * 2
    if rng.random() < 0.5:
        lr = lmin + rng.exponential(2.0, d) + 1e-6
    if rng.random() < 0.25:  # just inside the support, or far to the right
        lr = lmin + 10.0 ** rng.uniform(-9, 4, d)
    k = int(rng.integers(0, 4))
    if k == 0:
        lr[0] = lmin[0]  # exactly on the limit
    ctx.note(logrho=lr.tolist(), lmin=lmin.tolist(), l0=l0.tolist(), alpha=alpha)
    ctx.state(d, k, int((lr <= lmin).sum()))
    A = gnp.asarray
    got = to_np(gk.neglog_f_logrho(A(lr.copy()), A(lmin.copy()), A(l0.copy()), alpha))
    ctx.close(got, rho_ref(lr, lmin, l0, alpha), "penalty", rtol=1e-9, atol=1e-9)
    got1 = to_np(gk.neglog_f_logrho(A(lr.copy()), A(lmin.copy()), A(l0.copy())))
    ctx.close(got1, rho_ref(lr, lmin, l0, 1.0), "penalty/default slope", rtol=1e-9, atol=1e-9)
    # minimum at the reference, strictly larger on both sides
    at0 = to_np(gk.neglog_f_logrho(A(l0.copy()), A(lmin.copy()), A(l0.copy()), alpha))
    ctx.check(np.all(got >= at0 - 1e-9 * (1 + np.abs(at0))), "minimal at the reference", f"{got} vs {at0}")
    # asymptotic slope alpha
    f = [to_np(gk.neglog_f_logrho(A(lmin + s), A(lmin.copy()), A(l0.copy()), alpha)) for s in (1e7, 2e7)]
    ctx.close((f[1] - f[0]) / 1e7, np.full(d, alpha), "right-tail slope", rtol=1e-4)
    # left barrier grows without bound
    near = to_np(gk.neglog_f_logrho(A(lmin + 1e-12 * (1 + np.abs(lmin))), A(lmin.copy()), A(l0.copy()), alpha))
    ctx.check(np.all(near > at0), "barrier", f"{near} vs {at0}")
    cp = np.concatenate([[rng.normal()], -lr])
    lp = as_float(gk.log_prior_logrho_barrier_linear(A(cp), A(lmin.copy()), A(l0.copy()), alpha))
    ctx.close(lp, -np.sum(rho_ref(lr, lmin, l0, alpha)), "log-prior", rtol=1e-9, atol=1e-9)
    ctx.raises(lambda: gk.neglog_f_logrho(A(lr), A(l0), A(lmin), alpha), "reference below limit refused", ValueError)
    ctx.raises(lambda: gk.neglog_f_logrho(A(lr), A(lmin), A(l0), -1.0), "negative slope refused", ValueError)


@REG.scenario(quick=80)
def objectives(ctx):
    reset()
    rng = ctx.rng
    pb = Problem(rng, meantype="linear_predictor", covkind=str(rng.choice(["matern", "rq"])), nmax=14)
    ctx.note(**pb.describe())
    ctx.state(*pb.sig())
    model = pb.model()
    d = pb.d
    for _ in range(30):
        par = pb.covparam + 0.4 * rng.normal(size=len(pb.covparam))
        K = pb.kref(pb.xi, pb.xi, True, par=par)
        if np.linalg.cond(K) < 1e6:
            break
    else:
        par, K = pb.covparam, pb.kref(pb.xi, pb.xi, True)
    xi, zi, P = gnp.asarray(pb.xi.copy()), gnp.asarray(pb.zi.copy()), gnp.asarray(par.copy())
    base = ref.reml(K, pb.mref(pb.xi), pb.zi)
    t = pb.rtol(ctx.backend) * 10 * max(1.0, np.linalg.cond(K) / pb.cond)
    sc = pb.n + abs(base) + float((pb.zi**2).sum() / np.linalg.eigvalsh(K)[0]) * 1e-3

    def close(v, w, key):
        ctx.close(as_float(v), w, key, rtol=t, scale=sc + abs(w - base))

    lam = float(rng.uniform(0.2, 3))
    close(pr.neg_log_restricted_posterior_with_jeffreys_prior(model, P, xi, zi), base + par[0], "jeffreys")
    close(pr.neg_log_restricted_posterior_with_jeffreys_prior(model, P, xi, zi, lam), base + lam * par[0], "jeffreys/scaled")
    close(gk.neg_log_restricted_posterior_power_laws_prior(model, P, xi, zi), base - power_ref(par), "power law")
    g, c, m = float(1.1 + rng.exponential(1)), float(rng.uniform(0.3, 0.99)), float(rng.normal())
    gp = gauss_ref(par[0], m, g, c)
    lmin = -par[1:] - rng.exponential(1.0, d) - 0.1
    l0 = lmin + rng.exponential(1.0, d) + 0.1
    al = float(rng.uniform(0.2, 3))
    rp = -float(np.sum(rho_ref(-par[1:], lmin, l0, al)))
    A = gnp.asarray

    close(gk.neg_log_restricted_posterior_logsigma2_prior(model, P, xi, zi, m, g, c), base - gp, "gaussian")
    close(gk.neg_log_restricted_posterior_logsigma2_prior(model, P, xi, zi, m), base - gauss_ref(par[0], m, 1.5, 0.95),
          "gaussian/defaults")
    close(gk.neg_log_restricted_posterior_with_logrho_prior(model, P, xi, zi, A(lmin), A(l0), al), base - rp, "length scales")
    close(gk.neg_log_restricted_posterior_with_logrho_prior(model, P, xi, zi, A(lmin), A(l0)),
          base + float(np.sum(rho_ref(-par[1:], lmin, l0, 1.0))), "length scales/defaults")
    close(gk.neg_log_restricted_posterior_logsigma2_and_logrho_prior(
        model, P, xi, zi, log_sigma2_0=m, gamma=g, sigma2_coverage=c, logrho_min=A(lmin), logrho_0=A(l0), alpha=al),
        base - gp - rp, "both")
    close(gk.neg_log_restricted_posterior_logsigma2_and_logrho_prior(
        model, P, xi, zi, log_sigma2_0=m, logrho_min=A(lmin), logrho_0=A(l0)),
        base - gauss_ref(par[0], m, 1.5, 0.95) + float(np.sum(rho_ref(-par[1:], lmin, l0, 1.0))), "both/defaults")
    # outside the support the objective is infinite
    bad = A(-par[1:] + 0.5)
    v = as_float(gk.neg_log_restricted_posterior_with_logrho_prior(model, P, xi, zi, bad, bad + 1.0, al))
    ctx.check(v == math.inf, "outside the support", f"{v}")


@REG.scenario(quick=30)
def reference_prior(ctx):
    """Half the log-determinant of the trace formula, at the parameters given."""
    reset()
    rng = ctx.rng
    pb = Problem(rng, n=int(rng.integers(8, 16)), d=int(rng.integers(1, 5)), maxcond=1e4)
    par = pb.covparam + 0.3 * rng.normal(size=len(pb.covparam))
    K = pb.kref(pb.xi, pb.xi, True, par=par)
    F = fisher_ref(K, dref(pb, par))
    w = np.linalg.eigvalsh(F)
    if not (np.linalg.cond(K) < 1e5 and w.min() > 1e-3 * w.max()):
        ctx.count("reference prior: ill conditioned", 1)
        return
    model = pb.model()
    if rng.random() < 0.3:
        model.covparam = None
    got = gk.log_prior_reference(model, gnp.asarray(par.copy()), gnp.asarray(pb.xi.copy()))
    ctx.note(**pb.describe())
    ctx.state(pb.covkind, pb.meantype, len(par))
    ctx.close(as_float(got), 0.5 * float(np.linalg.slogdet(F)[1]), "reference/half log-determinant", rtol=0, atol=1e-3)


@REG.scenario(quick=60)
def default_store(ctx):
    """Random histories of default updates against a model of the store."""
    reset()
    rng = ctx.rng
    store = dict(FACTORY)
    names = dict(gamma="prior_logsigma2_gamma", sigma2_coverage="prior_logsigma2_coverage",
                 alpha="prior_logrho_alpha", rho_min_range_factor="prior_logrho_min_range_factor")
    good = dict(gamma=lambda: 1 + rng.exponential(1) + 1e-3, sigma2_coverage=lambda: rng.uniform(0.1, 0.99),
                alpha=lambda: 10.0 ** rng.uniform(-5, 2), rho_min_range_factor=lambda: 10.0 ** rng.uniform(-6, 0.5))
    bad = dict(gamma=[1.0, 0.2, -1], sigma2_coverage=[0.0, 1.0, 1.5, -0.1], alpha=[0.0, -2], rho_min_range_factor=[0.0, -1])
    hist = []
    x = gnp.asarray(np.sort(rng.random(7)).reshape(-1, 1) * np.array([[3.0, 0.5]]))
    gaps = [np.min(np.diff(np.sort(to_np(x)[:, j]))) for j in range(2)]
    rngs = [np.ptp(to_np(x)[:, j]) for j in range(2)]
    try:
        for _ in range(8):
            op = int(rng.integers(0, 4))
            ks = [str(k) for k in rng.permutation(list(FACTORY))[: int(rng.integers(1, 4))]]
            if op == 0:
                new = {k: float(good[k]()) for k in ks}
                pd.set_default_prior_hyperparameters(**new)
                store.update(new)
                hist.append(("set", tuple(ks)))
            elif op == 1:
                new = {k: float(good[k]()) for k in ks}
                kw = {names[k]: v for k, v in new.items()}
                kw["unrelated"] = 3
                pd.set_default_prior_hyperparameters_from_kwargs(kw)
                store.update(new)
                ctx.check(kw == {"unrelated": 3}, "recognised keys removed", f"{kw}")
                hist.append(("kwargs", tuple(ks)))
            elif op == 2:
                k = ks[0]
                v = float(rng.choice(bad[k]))
                ctx.raises(lambda: pd.set_default_prior_hyperparameters(**{k: v}), "invalid refused", ValueError)
                hist.append(("bad", k))
            else:
                d = pd.get_default_prior_hyperparameters()
                d["gamma"] = 99.0  # a returned dictionary is not the store
                hist.append(("get",))
            got = pd.get_default_prior_hyperparameters()
            ctx.check(got == store, "store contents", f"{got} expected {store} after {hist}")
            ls2, m = float(rng.normal()), float(rng.normal())
            ctx.close(as_float(gk.log_prior_gaussian_logsigma2(gnp.asarray(np.array([ls2, 0.0])), m)),
                      gauss_ref(ls2, m, store["gamma"], store["sigma2_coverage"]), "used by the variance prior",
                      rtol=1e-9, atol=1e-12)
            ctx.close(to_np(gk.neglog_f_logrho(gnp.asarray(np.array([1.0])), gnp.asarray(np.array([0.2])), gnp.asarray(np.array([0.7])))),
                      rho_ref(np.array([1.0]), np.array([0.2]), np.array([0.7]), store["alpha"]), "used by the length-scale prior",
                      rtol=1e-9)
            want = [max(math.log(g), math.log(r * store["rho_min_range_factor"])) for g, r in zip(gaps, rngs)]
            ctx.close(to_np(gk.compute_logrho_min_from_xi(x)), np.array(want), "used by the length-scale limit", rtol=1e-9, atol=1e-9)
        ctx.note(history=hist)
        ctx.state(tuple(h[0] for h in hist))
    finally:
        reset()
