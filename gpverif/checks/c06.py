"""C06: Fisher information equals the trace formula, also on contrasts."""

import math

import numpy as np

import gpmp.core
import gpmp.kernel
import gpmp.num as gnp

from .. import ref
from ..core import Registry, as_float, to_np
from ..gen import Problem

REG = Registry(
    "C06",
    "Random designs, covariances, parameters and steps; matrices compared with the trace "
    "formula evaluated with accurate derivatives of the reference covariance.",
    ["condition number of the generated systems at most 1e5"],
    more=20,
)


def dref(pb, par, h=1e-2):
    """Derivatives of the reference covariance, 8th-order central differences."""
    out = []
    c = np.array([4 / 5, -1 / 5, 4 / 105, -1 / 280])
    for i in range(len(par)):
        D = 0.0
        for k in range(4):
            a, b = par.copy(), par.copy()
            a[i] += (k + 1) * h
            b[i] -= (k + 1) * h
            D = D + c[k] * (pb.kref(pb.xi, pb.xi, True, par=a) - pb.kref(pb.xi, pb.xi, True, par=b)) / h
        out.append(D)
    return out


def fisher_ref(K, dK):
    S = [np.linalg.solve(K, D) for D in dK]
    p = len(dK)
    return np.array([[0.5 * np.trace(S[i] @ S[j]) for j in range(p)] for i in range(p)])


def setting(ctx, **kw):
    pb = Problem(ctx.rng, maxcond=1e5, nmax=14, **kw)
    explicit = bool(ctx.rng.random() < 0.6)
    par = pb.covparam.copy()
    if explicit:
        for _ in range(30):
            par = pb.covparam + 0.3 * ctx.rng.normal(size=len(pb.covparam))
            if np.linalg.cond(pb.kref(pb.xi, pb.xi, True, par=par)) < 1e5:
                break
        else:
            par = pb.covparam.copy()
    ctx.note(explicit=explicit, **pb.describe())
    ctx.state(explicit, *pb.sig())
    return pb, par, explicit


def judge(ctx, got, want, cond, eps, tag):
    got = to_np(got)
    # finite differences of order 4 with step eps
    fd = 200 * eps**4 + 1e-12 / eps
    rt = 1e-6 + fd * 10 + 1e4 * ref.EPS * cond
    ctx.close(got, want, f"{tag}/value", rtol=rt, scale=np.abs(want).max())
    ctx.close(got, got.T, f"{tag}/symmetric", rtol=1e-12)
    w = np.linalg.eigvalsh(0.5 * (got + got.T))
    ctx.check(w.min() > -rt * np.abs(want).max(), f"{tag}/semidefinite", f"{w.min()}")


@REG.scenario(quick=80)
def plain(ctx):
    pb, par, explicit = setting(ctx)
    eps = float(ctx.rng.choice([1e-3, 1e-3, 1e-2, 3e-4]))
    model = pb.model()
    kw = {} if eps == 1e-3 else dict(epsilon=eps)
    xi = gnp.asarray(pb.xi.copy())
    got = model.fisher_information(xi, gnp.asarray(par.copy()) if explicit else None, **kw)
    K = pb.kref(pb.xi, pb.xi, True, par=par)
    judge(ctx, got, fisher_ref(K, dref(pb, par)), np.linalg.cond(K), eps, "plain")
    ctx.close(to_np(model.covparam), pb.covparam, "stored parameters untouched", rtol=0)


@REG.scenario(quick=80)
def contrast_space(ctx):
    pb, par, explicit = setting(ctx)
    model = pb.model()
    xi = gnp.asarray(pb.xi.copy())
    got = model.fisher_information_cpd(xi, gnp.asarray(par.copy()) if explicit else None)
    K = pb.kref(pb.xi, pb.xi, True, par=par)
    dK = dref(pb, par)
    if pb.meantype == "linear_predictor":
        W = ref.contrasts(pb.mref(pb.xi))
        K, dK = W.T @ K @ W, [W.T @ D @ W for D in dK]
    judge(ctx, got, fisher_ref(K, dK), np.linalg.cond(K), 1e-3, f"cpd/{pb.meantype}")


@REG.scenario(quick=40)
def known_values(ctx):
    """A pure variance parameter has information n/2 (n - q)/2 on contrasts."""
    pb, par, explicit = setting(ctx, covkind=str(ctx.rng.choice(["matern", "rq", "nonstat"])))
    model = pb.model()
    xi = gnp.asarray(pb.xi.copy())
    a = to_np(model.fisher_information(xi, gnp.asarray(par.copy())))
    b = to_np(model.fisher_information_cpd(xi, gnp.asarray(par.copy())))
    ctx.close(a[0, 0], pb.n / 2, "n/2", rtol=1e-5)
    ctx.close(b[0, 0], (pb.n - pb.q) / 2, "(n-q)/2", rtol=1e-5)
    # reference prior: half the log-determinant
    w = np.linalg.eigvalsh(a)
    if w.min() > 1e-5 * w.max():
        r = gpmp.kernel.log_prior_reference(model, gnp.asarray(par.copy()), xi)
        ctx.close(as_float(r), 0.5 * float(np.sum(np.log(w))), "reference prior", rtol=1e-4, scale=1 + abs(np.log(w)).max())


@REG.scenario(quick=30, backends=("torch",))
def logdet_hessian(ctx):
    """The differentiating variant equals half the Hessian of the log-determinant."""
    pb, par, explicit = setting(ctx, d=int(ctx.rng.integers(1, 3)))
    model = pb.model()
    got = to_np(model.fisher_information_torch(pb.xi.copy(), gnp.asarray(par.copy())))
    h = 2e-3
    p = len(par)

    def ld(t):
        return np.linalg.slogdet(pb.kref(pb.xi, pb.xi, True, par=t))[1]

    H = np.zeros((p, p))
    e = np.eye(p) * h
    for i in range(p):
        for j in range(p):
            H[i, j] = (ld(par + e[i] + e[j]) - ld(par + e[i] - e[j]) - ld(par - e[i] + e[j])
                       + ld(par - e[i] - e[j])) / (4 * h * h)
    ctx.close(got, 0.5 * H, "half Hessian", rtol=3e-3, scale=np.abs(H).max() + 1)
