"""C02: predictions honour the data and are coherent across related calls."""

import math
import warnings

import numpy as np

import gpmp.num as gnp

from ..core import Registry, to_np
from ..gen import Problem

REG = Registry(
    "C02",
    "Families of related prediction calls (permuted, split, enlarged, rescaled, shifted "
    "variants of one random problem); metamorphic relations are monitored between them.",
    ["condition number of the generated systems at most 1e6"],
    more=20,
)


def run(pb, model=None, xi=None, zi=None, xt=None, **kw):
    model = model or pb.model()
    r = model.predict(
        (pb.xi if xi is None else xi).copy(),
        (pb.zi if zi is None else zi).copy(),
        (pb.xt if xt is None else xt).copy(),
        **kw,
    )
    return tuple(to_np(a) for a in r)


def scales(pb, backend):
    mean, var, cov, lam = pb.ref().predict(pb.zi)
    ls = 1.0 + float(np.max(np.sum(np.abs(lam), axis=0)))
    zs = (pb.zsize() + float(np.max(np.abs(mean)))) * ls
    vs = (float(np.max(np.diag(pb.ref().Ktt))) + float(np.max(np.abs(var)))) * ls
    return 2 * pb.rtol(backend), zs, vs


@REG.scenario(quick=60)
def interpolation(ctx):
    pb = Problem(ctx.rng, covkind=str(ctx.rng.choice(["matern", "rq", "nonstat", "sqexp"])))
    ctx.note(**pb.describe())
    ctx.state(*pb.sig())
    xt = pb.xi[ctx.rng.permutation(pb.n)]
    idx = [int(np.where((pb.xi == r).all(1))[0][0]) for r in xt]
    zpm, zpv = run(pb, xt=xt)
    rt = pb.rtol(ctx.backend)
    if ctx.backend == "torch" and pb.covkind.startswith("matern"):
        rt += 1e-6 if pb.covkind != "matern0" else 1e-4
    zs = pb.zsize()
    ctx.close(zpm, pb.zi[idx], "interpolates", rtol=rt, scale=zs * 10)
    ctx.close(zpv, np.zeros(pb.n), "zero variance at data", atol=rt * 10 * pb.sigma**2 * 3)
    # the same array object given as data and targets
    x = gnp.asarray(pb.xi.copy())
    m2, v2 = pb.model().predict(x, gnp.asarray(pb.zi.copy()), x)
    ctx.close(m2, pb.zi, "interpolates at its own array", rtol=rt, scale=zs * 10)


@REG.scenario(quick=80)
def variance_bounds(ctx):
    pb = Problem(ctx.rng)
    ctx.note(**pb.describe())
    ctx.state(*pb.sig())
    rt, zs, vs = scales(pb, ctx.backend)
    zpm, zpv = run(pb)
    prior = np.diag(pb.ref().Ktt)
    ctx.check(np.all(zpv >= 0.0), "variance non-negative", f"{zpv.min()}")
    if pb.meantype != "linear_predictor":
        ctx.check(np.all(zpv <= prior * (1 + 1e-12) + rt * vs), "variance below prior",
                  f"{zpv} vs {prior}")
    # variance does not depend on the observed values
    _, v2 = run(pb, zi=pb.zi[::-1] * 3.7 + 11.0)
    ctx.close(v2, zpv, "variance independent of values", rtol=1e-12, scale=vs)
    # dropping observations never decreases the variance
    if pb.n > pb.q + 3:
        k = int(ctx.rng.integers(1, 3))
        keep = np.sort(ctx.rng.permutation(pb.n)[: pb.n - k])
        P = pb.mref(pb.xi[keep]) if pb.meantype == "linear_predictor" else None
        if P is None or np.linalg.cond(P) < 1e4:
            _, v3 = run(pb, xi=pb.xi[keep], zi=pb.zi[keep])
            ctx.check(np.all(v3 >= zpv - rt * vs * 10), "more data never hurts",
                      f"with all {zpv}, with fewer {v3}")


@REG.scenario(quick=60)
def negative_variances_clipped(ctx):
    """Targets at the data: rounding makes raw variances negative; default clips."""
    pb = Problem(ctx.rng, n=int(ctx.rng.integers(8, 30)),
                 covkind=str(ctx.rng.choice(["matern", "rq", "sqexp"])))
    ctx.note(**pb.describe())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        raw = run(pb, xt=pb.xi, zero_neg_variances=False)[1]
        clip = run(pb, xt=pb.xi)[1]
    ctx.state(bool((raw < 0).any()))
    ctx.count("raw variances below zero", int((raw < 0).sum()))
    ctx.check(np.all(clip >= 0.0), "default is clipped", f"{clip.min()}")
    ctx.equal(clip, np.where(raw < 0, 0.0, raw), "clipping changes only negative entries")


@REG.scenario(quick=80)
def order_and_grouping(ctx):
    pb = Problem(ctx.rng, m=int(ctx.rng.integers(2, 12)))
    ctx.note(**pb.describe())
    ctx.state(*pb.sig())
    rt, zs, vs = scales(pb, ctx.backend)
    zpm, zpv, lam = run(pb, return_lambdas=True)
    ls = 1.0 + np.max(np.sum(np.abs(lam), axis=0))
    # observation order
    p = ctx.rng.permutation(pb.n)
    a, b, l2 = run(pb, xi=pb.xi[p], zi=pb.zi[p], return_lambdas=True)
    ctx.close(a, zpm, "observation order/mean", rtol=rt, scale=zs)
    ctx.close(b, zpv, "observation order/variance", rtol=rt, scale=vs)
    ctx.close(l2, lam[p], "observation order/weights", rtol=rt, scale=ls)
    # target order and repetition
    q = ctx.rng.integers(0, pb.m, pb.m + 3)
    a, b = run(pb, xt=pb.xt[q])
    ctx.close(a, zpm[q], "target order/mean", rtol=rt, scale=zs)
    ctx.close(b, zpv[q], "target order/variance", rtol=rt, scale=vs)
    # targets one group at a time
    cut = int(ctx.rng.integers(1, pb.m))
    a1, b1 = run(pb, xt=pb.xt[:cut])
    a2, b2 = run(pb, xt=pb.xt[cut:])
    ctx.close(np.concatenate([a1, a2]), zpm, "target grouping/mean", rtol=rt, scale=zs)
    ctx.close(np.concatenate([b1, b2]), zpv, "target grouping/variance", rtol=rt, scale=vs)
    # data as targets together with others must not matter
    a, b = run(pb, xt=np.vstack([pb.xi, pb.xt]))
    ctx.close(a[pb.n :], zpm, "extra targets/mean", rtol=rt, scale=zs)
    ctx.close(b[pb.n :], zpv, "extra targets/variance", rtol=rt, scale=vs)


@REG.scenario(quick=80)
def output_equivariance(ctx):
    pb = Problem(ctx.rng)
    ctx.note(**pb.describe())
    ctx.state(*pb.sig())
    rt, zs, vs = scales(pb, ctx.backend)
    zpm, zpv = run(pb)
    c = float(ctx.rng.choice([-1, 1]) * 10.0 ** ctx.rng.uniform(-3, 3))
    if pb.meantype == "parameterized":
        mi, mt = pb.mref(pb.xi), pb.mref(pb.xt)
        a, b = run(pb, zi=mi + c * (pb.zi - mi))
        ctx.close(a, mt + c * (zpm - mt), "scaling/mean", rtol=rt, scale=(zs + np.abs(mi).max()) * (1 + abs(c)))
        ctx.close(b, zpv, "scaling/variance", rtol=rt, scale=vs)
    else:
        a, b = run(pb, zi=c * pb.zi)
        ctx.close(a, c * zpm, "scaling/mean", rtol=rt, scale=zs * abs(c))
        ctx.close(b, zpv, "scaling/variance", rtol=rt, scale=vs)
        # covariance scaled along with the outputs
        m2 = pb.model()
        par = pb.covparam.copy()
        par[0] += math.log(c * c)
        if pb.covkind == "noisy":
            par[-1] += math.log(c * c)
        m2.covparam = gnp.asarray(par)
        a, b = run(pb, model=m2, zi=c * pb.zi)
        ctx.close(a, c * zpm, "joint scaling/mean", rtol=rt, scale=zs * abs(c))
        ctx.close(b, c * c * zpv, "joint scaling/variance", rtol=rt, scale=vs * c * c)
    if pb.meantype == "linear_predictor":
        beta = ctx.rng.normal(size=pb.q) * 10
        Pi, Pt = pb.mref(pb.xi), pb.mref(pb.xt)
        a, b = run(pb, zi=pb.zi + Pi @ beta)
        big = zs + (np.abs(Pi @ beta).max() + np.abs(Pt @ beta).max()) * zs / pb.sigma
        ctx.close(a, zpm + Pt @ beta, "drift/mean", rtol=rt, scale=big)
        ctx.close(b, zpv, "drift/variance", rtol=rt, scale=vs)
        # data inside the span of the basis is reproduced exactly
        a, _ = run(pb, zi=Pi @ beta)
        ctx.close(a, Pt @ beta, "drift/reproduced", rtol=rt, scale=big)


@REG.scenario(quick=60)
def input_rescaling(ctx):
    pb = Problem(ctx.rng, covkind=str(ctx.rng.choice(["matern", "rq", "sqexp"])),
                 meantype=str(ctx.rng.choice(["zero", "linear_predictor"])))
    if pb.meantype == "linear_predictor" and pb.meankind == "trig":
        pb = Problem(ctx.rng, covkind="matern", meantype="zero")
    ctx.note(**pb.describe())
    ctx.state(*pb.sig())
    rt, zs, vs = scales(pb, ctx.backend)
    zpm, zpv = run(pb)
    c = 10.0 ** ctx.rng.uniform(-1.5, 1.5, pb.d)
    m2 = pb.model()
    par = pb.covparam.copy()
    par[1 : 1 + pb.d] -= np.log(c)
    m2.covparam = gnp.asarray(par)
    a, b = run(pb, model=m2, xi=pb.xi * c, xt=pb.xt * c)
    rt = rt * (1 + 1e3 * (pb.meantype == "linear_predictor"))
    ctx.close(a, zpm, "input scaling/mean", rtol=rt, scale=zs)
    ctx.close(b, zpv, "input scaling/variance", rtol=rt, scale=vs)
    # permuting the input coordinates with their length scales
    p = ctx.rng.permutation(pb.d)
    if pb.meankind in ("zero", "const"):
        m3 = pb.model()
        par = pb.covparam.copy()
        par[1 : 1 + pb.d] = par[1 : 1 + pb.d][p]
        m3.covparam = gnp.asarray(par)
        a, b = run(pb, model=m3, xi=pb.xi[:, p], xt=pb.xt[:, p])
        ctx.close(a, zpm, "input permutation/mean", rtol=rt, scale=zs)
        ctx.close(b, zpv, "input permutation/variance", rtol=rt, scale=vs)
        # translation of all inputs
        t = ctx.rng.normal(size=pb.d) * pb.scale
        a, b = run(pb, xi=pb.xi + t, xt=pb.xt + t)
        ctx.close(a, zpm, "input translation/mean", rtol=rt * 10, scale=zs)
        ctx.close(b, zpv, "input translation/variance", rtol=rt * 10, scale=vs)
