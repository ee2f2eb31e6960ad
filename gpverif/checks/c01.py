"""C01: prediction is exact Gaussian conditioning."""

import numpy as np

import gpmp.num as gnp

from ..core import Registry, to_np
from ..faults import failing_calls
from ..gen import Problem, Reused

REG = Registry(
    "C01",
    "Random Gaussian-process problems (designs, covariances, means, targets); every "
    "prediction is compared with dense textbook conditioning.",
    ["condition number of the generated systems at most 1e6"],
    more=20,
)


def judge(ctx, pb, model, tag, arm=lambda: None):
    mean, var, cov, lam = pb.ref().predict(pb.zi)
    rt = pb.rtol(ctx.backend)
    zs = pb.zsize() + float(np.max(np.abs(mean)))
    ls = 1.0 + float(np.max(np.sum(np.abs(lam), axis=0)))
    vs = float(np.max(np.diag(pb.ref().Ktt))) + float(np.max(np.abs(var)))
    ctx.state(tag, *pb.sig())

    zi = pb.zi if ctx.rng.random() < 0.7 else pb.zi.reshape(-1, 1)
    conv_out = bool(ctx.rng.random() < 0.7)
    arm()
    r = model.predict(pb.xi.copy(), zi.copy(), pb.xt.copy(), return_lambdas=True,
                      convert_out=conv_out)
    ctx.require(len(r) == 3, "predict/arity", f"{len(r)} values returned")
    zpm, zpv, lt = r
    if conv_out:
        ctx.check(isinstance(zpm, np.ndarray) and isinstance(zpv, np.ndarray),
                  "predict/converted", f"{type(zpm)}, {type(zpv)}")
    ctx.close(zpm, mean, "predict/mean", rtol=rt, scale=zs * ls)
    ctx.close(zpv, np.maximum(var, 0.0), "predict/variance", rtol=rt, scale=vs * ls)
    ctx.close(lt, lam, "predict/weights", rtol=rt, scale=ls)
    if pb.meantype == "parameterized":
        m2 = pb.mref(pb.xt) + to_np(lt).T @ (pb.zi - pb.mref(pb.xi))
    else:
        m2 = to_np(lt).T @ pb.zi
    ctx.close(m2, to_np(zpm).reshape(-1), "predict/weights-reproduce-mean", rtol=1e-10, scale=zs * ls)
    if pb.meantype == "linear_predictor":
        ctx.close(to_np(lt).T @ pb.mref(pb.xi), pb.mref(pb.xt), "predict/unbiased", rtol=rt,
                  scale=ls * (1 + np.max(np.abs(pb.mref(pb.xi)))))
    arm()
    r2 = model.predict(pb.xi.copy(), pb.zi.copy(), pb.xt.copy())
    ctx.require(len(r2) == 2, "predict/arity2", f"{len(r2)} values returned")
    ctx.close(r2[0], mean, "predict/mean-no-weights", rtol=rt, scale=zs * ls)

    xi, xt = gnp.asarray(pb.xi.copy()), gnp.asarray(pb.xt.copy())
    f = (model.kriging_predictor if pb.meantype == "linear_predictor"
         else model.kriging_predictor_with_zero_mean)
    for rtype in (-1, 0, 1):
        arm()
        l2, v2 = f(xi, xt, return_type=rtype)
        ctx.close(l2, lam, f"entry/weights{rtype}", rtol=rt, scale=ls)
        if rtype == -1:
            ctx.check(v2 is None, "entry/none", f"{v2!r}")
        elif rtype == 0:
            ctx.close(v2, var, "entry/variance", rtol=rt, scale=vs * ls)
        else:
            ctx.close(v2, cov, "entry/covariance", rtol=rt, scale=vs * ls)


@REG.scenario(quick=160)
def conditioning(ctx):
    pb = Problem(ctx.rng)
    ctx.note(**pb.describe())
    judge(ctx, pb, pb.model(), "direct")


@REG.scenario(quick=40)
def larger_designs(ctx):
    pb = Problem(ctx.rng, n=int(ctx.rng.integers(40, 120)), m=20)
    ctx.note(**pb.describe())
    judge(ctx, pb, pb.model(), "large")


@REG.scenario(quick=60)
def solver_failure(ctx):
    """The library's general linear solve raises once per call; the result must not change."""
    pb = Problem(ctx.rng, meantype="linear_predictor")
    ctx.note(**pb.describe())
    model = pb.model()
    exc = RuntimeError("injected") if ctx.rng.random() < 0.5 else np.linalg.LinAlgError("injected")
    with failing_calls(gnp, "solve", exc) as fault:
        judge(ctx, pb, model, "fault", fault.arm)
    ctx.count("injected solver failures", fault.raised)


@REG.scenario(quick=30)
def one_model_many_calls(ctx):
    """One model object, a history of predictions with changing data and parameters."""
    pb = Problem(ctx.rng)
    model = pb.model()
    for k in range(4):
        n = int(ctx.rng.integers(pb.q + 2, pb.q + 14))
        sub = Problem(ctx.rng, n=n, d=pb.d, meantype=pb.meantype)
        # same structure, new data: swap the model's functions and parameters
        model.covariance, model.mean = sub.cov, sub.mean
        model.covparam = gnp.asarray(sub.covparam.copy())
        model.meanparam = None if sub.meanparam is None else gnp.asarray(sub.meanparam.copy())
        judge(ctx, sub, model, "history")
    ctx.note(**pb.describe())


@REG.scenario(quick=40)
def extreme_targets(ctx):
    """Targets on, next to and very far from the data; one target; many targets."""
    pb = Problem(ctx.rng, covkind=str(ctx.rng.choice(["matern", "rq", "nonstat"])))
    k = int(ctx.rng.integers(0, 4))
    if k == 0:
        pb.xt = pb.xi[ctx.rng.permutation(pb.n)[: pb.m]].copy()
    elif k == 1:
        pb.xt = pb.xt[:1]
    elif k == 2:
        pb.xt = pb.xt + 1e3 * pb.scale * ctx.rng.choice([-1, 1])
        if pb.meantype == "linear_predictor" and pb.meankind in ("affine", "quad1"):
            pb.xt = pb.xi[:1] + 2 * pb.scale
    else:
        pb.xt = pb.xi.mean(0) + pb.scale * ctx.rng.uniform(-1, 1, (64, pb.d))
    pb.m = len(pb.xt)
    ctx.note(kind=k, **pb.describe())
    judge_points(ctx, pb)


def judge_points(ctx, pb):
    mean, var, cov, lam = pb.ref().predict(pb.zi)
    rt = pb.rtol(ctx.backend)
    if ctx.backend == "torch" and pb.covkind.startswith("matern"):
        # coincident points: distance error is the square root of the squared one
        rt += 4 * np.sqrt(rt * 1e-6) if pb.covkind != "matern0" else 1e-5
    zs = pb.zsize() + float(np.max(np.abs(mean)))
    ls = 1.0 + float(np.max(np.sum(np.abs(lam), axis=0)))
    vs = float(np.max(np.diag(pb.ref().Ktt))) + float(np.max(np.abs(var)))
    model = pb.model()
    zpm, zpv = model.predict(pb.xi.copy(), pb.zi.copy(), pb.xt.copy())
    ctx.state("targets", *pb.sig())
    ctx.close(zpm, mean, "predict/mean", rtol=rt, scale=zs * ls)
    ctx.close(zpv, np.maximum(var, 0.0), "predict/variance", rtol=rt, scale=vs * ls)


@REG.scenario(quick=60)
def reused_arrays(ctx):
    """The same model and array objects, changed in place or replaced between predictions."""
    ru = Reused(ctx.rng, nmax=12, meantype=str(ctx.rng.choice(["zero", "parameterized", "linear_predictor"])))
    pb = ru.pb
    steps = ["first"]
    for _ in range(int(ctx.rng.integers(3, 7))):
        ctx.note(steps=list(steps), **pb.describe())
        ctx.state("reused", steps[-1], pb.meantype)
        mean, var, cov, lam = pb.ref().predict(pb.zi)
        rt = pb.rtol(ctx.backend)
        ls = 1.0 + float(np.max(np.sum(np.abs(lam), axis=0)))
        zs = (pb.zsize() + float(np.max(np.abs(mean)))) * ls
        vs = (float(np.max(np.diag(pb.ref().Ktt))) + float(np.max(np.abs(var)))) * ls
        zpm, zpv, lt = ru.model.predict(ru.xi, ru.zi, ru.xt, return_lambdas=True)
        ctx.close(zpm, mean, "reused/mean", rtol=rt, scale=zs)
        ctx.close(zpv, np.maximum(var, 0.0), "reused/variance", rtol=rt, scale=vs)
        ctx.close(lt, lam, "reused/weights", rtol=rt, scale=ls)
        steps.append(ru.step())
