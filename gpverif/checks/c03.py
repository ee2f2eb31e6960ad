"""C03: leave-one-out results equal explicit refits."""

import numpy as np

import gpmp.num as gnp

from .. import ref
from ..core import Registry, to_np
from ..gen import Problem, Reused

REG = Registry(
    "C03",
    "Random Gaussian-process problems; every leave-one-out triple is compared with n "
    "explicit predictions from the remaining observations (dense reference model).",
    ["condition number of the generated systems at most 1e6"],
    more=20,
)


def loo_reference(pb):
    n = pb.n
    z, v = np.zeros(n), np.zeros(n)
    worst = 1.0
    Kall = pb.kref(pb.xi, pb.xi, True)
    for i in range(n):
        k = np.array([j for j in range(n) if j != i], dtype=int)
        a = {}
        if pb.meantype == "linear_predictor":
            P = pb.mref(pb.xi)
            a = dict(P=P[k], Pt=P[[i]])
        elif pb.meantype == "parameterized":
            m = pb.mref(pb.xi)
            a = dict(mi=m[k], mt=m[[i]])
        if len(k) == 0:
            z[i] = a["mt"][0] if "mt" in a else 0.0
            v[i] = Kall[i, i]
            continue
        g = ref.RefGP(Kall[np.ix_(k, k)], Kall[np.ix_(k, [i])], Kall[np.ix_([i], [i])],
                      pb.meantype, **a)
        worst = max(worst, g.cond())
        if not worst < 1e12:  # the other observations do not determine the mean
            return z, v, np.inf
        mm, vv, _, lam = g.predict(pb.zi[k])
        z[i], v[i] = mm[0], vv[0]
    return z, v, worst


def judge(ctx, pb, model, zi=None, convert=None, tag=""):
    z, v, worst = loo_reference(pb)
    if worst > 1e8:
        return
    ctx.state(tag, *pb.sig())
    rt = pb.rtol(ctx.backend) * max(1.0, worst / pb.cond)
    zs = pb.zsize() + float(np.max(np.abs(z)))
    vs = float(np.max(v)) + pb.sigma**2
    zi = pb.zi.copy() if zi is None else zi
    kw = {} if convert is None else dict(convert_out=convert)
    zl, vl, el = model.loo(pb.xi.copy(), zi, **kw)
    if convert:
        ctx.check(all(isinstance(a, np.ndarray) for a in (zl, vl, el)), "converted")
    ctx.close(to_np(zl), z, "prediction", rtol=rt * 10, scale=zs)
    ctx.close(to_np(vl), v, "variance", rtol=rt * 10, scale=vs)
    ctx.close(to_np(el), pb.zi - z, "error", rtol=rt * 10, scale=zs)
    ctx.close(to_np(zl) + to_np(el), pb.zi, "prediction plus error", rtol=1e-12, scale=zs)
    ctx.check(np.all(to_np(vl) > 0), "variance positive")


@REG.scenario(quick=150)
def refits(ctx):
    pb = Problem(ctx.rng, nmax=16)
    ctx.note(**pb.describe())
    convert = [None, True, False][int(ctx.rng.integers(0, 3))]
    judge(ctx, pb, pb.model(), convert=convert, tag="vector")


@REG.scenario(quick=60)
def column_outputs(ctx):
    """Observations given as an (n, 1) column."""
    pb = Problem(ctx.rng, nmax=12)
    ctx.note(**pb.describe())
    judge(ctx, pb, pb.model(), zi=pb.zi.reshape(-1, 1).copy(), convert=True, tag="column")


@REG.scenario(quick=40)
def against_library_prediction(ctx):
    """Leave-one-out versus the library's own prediction without the point."""
    pb = Problem(ctx.rng, n=int(ctx.rng.integers(6, 16)))
    ctx.note(**pb.describe())
    ctx.state(*pb.sig())
    model = pb.model()
    zl, vl, el = model.loo(pb.xi.copy(), pb.zi.copy())
    rt = pb.rtol(ctx.backend) * 100
    i = int(ctx.rng.integers(0, pb.n))
    k = [j for j in range(pb.n) if j != i]
    if pb.meantype == "linear_predictor" and np.linalg.cond(pb.mref(pb.xi[k])) > 1e4:
        return
    m, v = model.predict(pb.xi[k].copy(), pb.zi[k].copy(), pb.xi[[i]].copy())
    zs = pb.zsize() + abs(float(m[0]))
    ctx.close(to_np(zl)[[i]], to_np(m), "same as predict/mean", rtol=rt, scale=zs)
    ctx.close(to_np(vl)[[i]], to_np(v), "same as predict/variance", rtol=rt,
              scale=pb.sigma**2 + float(v[0]))


@REG.scenario(quick=30)
def changed_parameters(ctx):
    """One model object, parameters replaced between calls."""
    pb = Problem(ctx.rng, nmax=10)
    ctx.note(**pb.describe())
    model = pb.model()
    for _ in range(3):
        sub = Problem(ctx.rng, d=pb.d, meantype=pb.meantype, nmax=10)
        model.covariance, model.mean = sub.cov, sub.mean
        model.covparam = gnp.asarray(sub.covparam.copy())
        model.meanparam = None if sub.meanparam is None else gnp.asarray(sub.meanparam.copy())
        judge(ctx, sub, model, tag="history")


@REG.scenario(quick=40)
def reused_arrays(ctx):
    """The same model and array objects, changed in place or replaced between calls."""
    ru = Reused(ctx.rng, nmax=10)
    pb = ru.pb
    steps = ["first"]
    for _ in range(int(ctx.rng.integers(3, 6))):
        ctx.note(steps=list(steps), **pb.describe())
        z, v, worst = loo_reference(pb)
        if worst < 1e8:
            ctx.state("reused", steps[-1], pb.meantype)
            rt = pb.rtol(ctx.backend) * max(1.0, worst / pb.cond) * 10
            zs = pb.zsize() + float(np.max(np.abs(z)))
            zl, vl, el = ru.model.loo(ru.xi, ru.zi)
            ctx.close(to_np(zl), z, "reused/prediction", rtol=rt, scale=zs)
            ctx.close(to_np(vl), v, "reused/variance", rtol=rt, scale=float(np.max(v)) + pb.sigma**2)
            ctx.close(to_np(el), pb.zi - z, "reused/error", rtol=rt, scale=zs)
        steps.append(ru.step())


@REG.scenario(quick=16)
def larger_designs(ctx):
    pb = Problem(ctx.rng, n=int(ctx.rng.integers(30, 90)))
    ctx.note(**pb.describe())
    judge(ctx, pb, pb.model(), convert=True, tag="large")


@REG.scenario(quick=24)
def one_observation(ctx):
    """A single observation is predicted by the prior."""
    pb = Problem(ctx.rng, n=int(ctx.rng.integers(1, 3)), meantype=str(ctx.rng.choice(["zero", "parameterized"])))
    ctx.note(**pb.describe())
    judge(ctx, pb, pb.model(), tag="tiny")
