"""C09: selection procedures optimise the criterion they name, from the right start.

The criterion exposed by a run, its recorded history and the parameters left in the model are
compared with an independent criterion built from the documented precedence rules.
"""

import math
import warnings

import numpy as np

import gpmp.core
import gpmp.kernel as gk
import gpmp.kernel.prior_defaults as pd
import gpmp.num as gnp
from gpmp.dataloader import DataLoader, Dataset

from .. import ref
from ..core import Registry, as_float, to_np
from ..gen import Problem
from .c10 import auto_bounds
from .c08 import FACTORY, gauss_ref, power_ref, reset, rho_ref

REG = Registry(
    "C09",
    rule="one evaluation = one clause (criterion value, start, bounds, stored parameter, history "
    "entry) of one select/update call compared with the reference procedure",
    more=8,
)

LP = ("reml", "remap", "remap_power", "remap_gauss", "remap_both")


def problem(rng, proc, n=None):
    for _ in range(300):
        mt = "linear_predictor" if proc in LP else ("parameterized" if proc == "ml" else None)
        pb = Problem(
            rng,
            n=n or int(rng.integers(8, 15)),
            d=int(rng.integers(1, 4)),
            meantype=mt,
            covkind=str(rng.choice(["matern", "matern", "rq", "nonstat"])),
            dkind=str(rng.choice(["lhs", "far"])),
            maxcond=1e5,
        )
        if proc == "ml" and pb.meankind != "const":
            continue
        if n and not np.linalg.cond(pb.kref(pb.xi, pb.xi, True, par=np.concatenate([[0.0], -np.log(ref.ball_rho(pb.xi))]))) < 1e7:
            continue  # the data-driven start would be singular
        return pb
    raise RuntimeError("no problem")


class Reference:
    """Documented criterion of a procedure on given batches."""

    def __init__(self, pb, proc, batches, opts):
        self.pb, self.proc, self.batches, self.o = pb, proc, batches, opts

    def one(self, mp, cp, x, z):
        pb = self.pb
        K = pb.kref(x, x, True, par=cp)
        self.cond = max(self.cond, np.linalg.cond(K))
        self.size = max(self.size, float(np.abs(z @ np.linalg.solve(K, z))))
        if self.proc == "ml":
            return ref.nll(K, z - mp[0])
        if self.proc == "user":
            return float(np.sum(np.cos(cp)) + np.sum(z**2) * cp[0] ** 2 + x.sum() * cp[-1] + np.sum(cp**2) * len(z))
        base = ref.reml(K, pb.mref(x), z)
        o = self.o
        if self.proc == "reml":
            return base
        if self.proc == "remap_power":
            return base - power_ref(cp)
        v = base - gauss_ref(cp[0], o["ls20"], o["gamma"], o["cover"])
        if self.proc in ("remap", "remap_both"):
            v = v + float(np.sum(rho_ref(-cp[1:], o["lrmin"], o["lr0"], o["alpha"])))
        return v

    def __call__(self, p):
        self.cond, self.size = 1.0, 1.0
        ml = 1 if self.proc == "ml" else 0
        tot, n = 0.0, 0
        try:
            with np.errstate(all="ignore"):
                for x, z in self.batches:
                    tot += len(z) * self.one(p[:ml], p[ml:], x, z)
                    n += len(z)
        except (np.linalg.LinAlgError, ValueError):
            self.cond = math.inf  # the reference cannot tell
            return math.nan
        return tot / n


def user_criterion(model, cp, x, z):
    return (
        gnp.sum(gnp.cos(cp))
        + gnp.sum(z**2) * cp[0] ** 2
        + gnp.sum(x) * cp[-1]
        + gnp.sum(cp**2) * x.shape[0]
    )


SELECT = dict(
    reml=gk.select_parameters_with_reml,
    remap=gk.select_parameters_with_remap,
    remap_power=gk.select_parameters_with_remap_with_power_laws_prior,
    remap_gauss=gk.select_parameters_with_remap_gaussian_logsigma2,
    remap_both=gk.select_parameters_with_remap_gaussian_logsigma2_and_logrho_prior,
    ml=gk.select_parameters_with_ml_constant_mean,
)
UPDATE = dict(
    reml=gk.update_parameters_with_reml,
    remap=gk.update_parameters_with_remap,
    remap_power=gk.update_parameters_with_remap_with_power_laws_prior,
    remap_gauss=gk.update_parameters_with_remap_gaussian_logsigma2,
    remap_both=gk.update_parameters_with_remap_gaussian_logsigma2_and_logrho_prior,
    ml=gk.update_parameters_with_ml_constant_mean,
)


def guess(pb, model, proc, data):
    """Data-driven start: NumPy formula for arrays, the library's own guess for loaders (see C12)."""
    if "xi" in data:
        if proc == "ml":
            return ref.initial_guess(pb.kref, pb.xi, pb.zi, kind="constant")
        if pb.meantype == "linear_predictor":
            return None, ref.initial_guess(pb.kref, pb.xi, pb.zi, pb.mref(pb.xi))[1]
        return None, to_np(gk.anisotropic_parameters_initial_guess(model, **data))
    if proc == "ml":
        m, c = gk.anisotropic_parameters_initial_guess_constant_mean(model, **data)
        return as_float(m), to_np(c)
    return None, to_np(gk.anisotropic_parameters_initial_guess(model, **data))


def near(rng, v, s=0.3):
    return v + s * rng.normal(size=np.shape(v))


def one_call(ctx, pb, model, proc, mode, data, batches):
    """Run one procedure and judge it. Returns False if the drawn arguments are not admissible."""
    rng = ctx.rng
    base = pb.covparam
    kw = {}
    cp_model = None if model.covparam is None else to_np(model.covparam).astype(float)
    mp_model = None if model.meanparam is None else to_np(model.meanparam).astype(float)
    mguess, cguess = guess(pb, model, proc, data)
    given = {}

    def put(name, value):
        given[name] = value.copy()
        kw[name] = gnp.asarray(value.copy())

    remap = proc in ("remap", "remap_gauss", "remap_both")
    if mode == "select" or remap:
        if rng.random() < 0.45:
            put("covparam0", near(rng, base))
    if remap:
        if rng.random() < 0.4:
            put("covparam0_init", near(rng, base))
        if rng.random() < 0.4:
            put("covparam0_prior", near(rng, base, 0.6))
    if proc == "ml" and mode == "select" and rng.random() < 0.5:
        put("meanparam0", np.array([rng.normal() * pb.sigma]))

    # documented precedence
    c0 = given.get("covparam0")
    if mode == "select":
        start = given.get("covparam0_init", c0 if c0 is not None else cguess)
        anchor = given.get("covparam0_prior", c0 if c0 is not None else cguess)
    else:
        fb = c0 if c0 is not None else (cp_model if cp_model is not None else cguess)
        start = given.get("covparam0_init", fb)
        anchor = given.get("covparam0_prior", fb)
    mstart = None
    if proc == "ml":
        mstart = given.get("meanparam0", None)
        if mode == "update":
            mstart = mp_model
        if mstart is None:
            mstart = np.array([mguess])

    store = pd.get_default_prior_hyperparameters()
    o = dict(gamma=store["gamma"], cover=store["sigma2_coverage"], alpha=store["alpha"])
    fac = store["rho_min_range_factor"]
    if remap:
        if rng.random() < 0.3:
            o["gamma"] = kw["prior_gamma"] = float(rng.uniform(1.2, 4))
        if rng.random() < 0.3:
            o["cover"] = kw["prior_sigma2_coverage"] = float(rng.uniform(0.5, 0.99))
        o["ls20"], o["lr0"] = float(anchor[0]), -np.asarray(anchor[1:])
        if proc != "remap_gauss":
            if rng.random() < 0.3:
                o["alpha"] = kw["prior_alpha"] = float(rng.uniform(0.3, 3))
            if rng.random() < 0.3:
                fac = kw["prior_rho_min_range_factor"] = float(rng.uniform(0.005, 0.1))
            if rng.random() < 0.25:
                o["ls20"] = kw["prior_log_sigma2_0"] = float(near(rng, base[0]))
            if rng.random() < 0.25:
                o["lr0"] = near(rng, -base[1:])
                kw["prior_logrho_0"] = gnp.asarray(o["lr0"].copy())
            o["lrmin"] = ref.logrho_min(pb.xi, fac)
            if rng.random() < 0.25:
                o["lrmin"] = -base[1:] - rng.uniform(1.0, 3.0, pb.d)
                kw["prior_logrho_min"] = gnp.asarray(o["lrmin"].copy())
            if not np.all(o["lr0"] > o["lrmin"] + 0.05) or not np.all(-start[1:] > o["lrmin"] + 0.05):
                return False
    J = Reference(pb, proc, batches, o)
    p0 = start if mstart is None else np.concatenate([mstart, start])
    bounds = None
    k = rng.random()
    if k < 0.4:
        kw["bounds_delta"] = dl = float(rng.uniform(0.2, 1.5))
        bounds = auto_bounds(p0, dl)
    elif k < 0.6:
        bounds = [(float(v - rng.uniform(0.1, 1)), float(v + rng.uniform(0.1, 1))) for v in p0]
        kw["bounds"] = bounds
    else:
        bounds = auto_bounds(p0, 10.0)
    kw["method"] = str(rng.choice(["SLSQP", "L-BFGS-B"]))
    kw["method_options"] = dict(maxiter=int(rng.integers(1, 8)))
    args = sorted(a for a in kw if a not in ("method", "method_options"))
    ctx.note(procedure=f"{mode} {proc}", arguments=args, source="loader" if "dataloader" in data else "arrays",
             stored=cp_model is not None)
    ctx.state(mode, proc, "xi" in data, cp_model is not None, tuple(sorted(given)))

    if proc == "user":
        f = gk.select_parameters_with_criterion if mode == "select" else gk.update_parameters_with_criterion
        call = lambda **e: f(model, user_criterion, **data, **kw, **e)  # noqa: E731
    else:
        f = (SELECT if mode == "select" else UPDATE)[proc]
        call = lambda **e: f(model, **data, **kw, **e)  # noqa: E731
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out, r = call(info=True)
    ctx.check(out is model, "same-model", "a different model object was returned")

    tol0 = pb.rtol(ctx.backend, 1e-9) * 10
    shape0 = p0.shape

    # conditioning of the normalised problem behind a data-driven start or anchor
    kg = pb.kref(pb.xi, pb.xi, True, par=np.concatenate([[0.0], cguess[1:]]))
    gerr = 1e3 * ref.EPS * min(np.linalg.cond(kg), 1e14)
    slope = 0.0
    if remap and anchor is cguess and "prior_log_sigma2_0" not in kw:
        # an error of the guessed log-variance moves the centre of the prior
        slope = -2.0 * gauss_ref(1.0, 0.0, o["gamma"], o["cover"])

    def value_close(v, q, key):
        w = J(q)
        if not J.cond < 1e9:
            return
        amp = 1.0 + float(np.sum(((pb.xi.max(0) - pb.xi.min(0)) * np.exp(np.asarray(q[-pb.d :]))) ** 2))
        t = tol0 + 1e3 * ref.EPS * J.cond * amp
        at = gerr * slope * (abs(float(q[0]) - float(cguess[0])) + gerr)
        ctx.close(as_float(v), w, key, rtol=t, atol=at, scale=abs(w) + pb.n + J.size, msg=f"at {q}")

    gt = 1e-13
    if start is cguess or (proc == "ml" and mode == "select" and "meanparam0" not in given):
        gt = max(1e-8, tol0) + 1e4 * ref.EPS * min(np.linalg.cond(kg), 1e14)
    ctx.close(to_np(r["covparam0"]), start, "reported-start", rtol=gt, scale=np.abs(start).max() + 1)
    if mstart is not None:
        ctx.close(to_np(r["meanparam0"]), mstart, "reported-mean-start", rtol=gt, scale=np.abs(mstart).max() + pb.sigma)
    hp = [to_np(q).astype(float) for q in r["history_params"]]
    hv = [as_float(v) for v in r["history_criterion"]]
    ctx.close(hp[0], p0, "first-evaluated", rtol=gt, scale=np.abs(p0).max() + 1)
    ctx.close(to_np(r["initial_params"]), p0, "initial-params", rtol=gt, scale=np.abs(p0).max() + 1)
    ctx.close(
        np.array([[float(u) for u in t] for t in r["bounds"]]), np.array(bounds, dtype=float), "bounds", rtol=gt
    )
    x = to_np(r["x"]).astype(float)
    ml = 1 if proc == "ml" else 0
    ctx.equal(model.covparam, x[ml:], "model-covparam")
    ctx.equal(r["covparam"], x[ml:], "info-covparam")
    if ml:
        ctx.equal(model.meanparam, x[:ml], "model-meanparam")
        ctx.equal(r["meanparam"], x[:ml], "info-meanparam")
    else:
        ctx.check(
            (mp_model is None) == (model.meanparam is None)
            and (mp_model is None or np.array_equal(mp_model, to_np(model.meanparam))),
            "meanparam-untouched",
            "",
        )
    ctx.check(
        any(np.array_equal(x, q) for q in hp) and as_float(r["fun"]) == min(v for v in hv if not math.isnan(v)),
        "best-is-returned",
        "",
    )
    for i in sorted(set([0, len(hp) - 1] + rng.integers(0, len(hp), 4).tolist())):
        value_close(hv[i], hp[i], "history-value")
    pts = [p0, x, p0 + 0.05 * rng.normal(size=shape0), p0 + 0.3 * rng.normal(size=shape0)]
    for q in pts:
        value_close(r["selection_criterion_nograd"](gnp.asarray(q.copy())), q, "exposed-nograd")
        value_close(r["selection_criterion"](gnp.asarray(q.copy())), q, "exposed")
    for name, v in given.items():
        ctx.equal(kw[name], v, "argument-untouched")
    # the objective did not get worse
    if math.isfinite(hv[0]):
        ctx.check(as_float(r["fun"]) <= hv[0], "improves", "")
    return True


def sources(rng, pb):
    if rng.random() < 0.65:
        z = pb.zi.reshape(-1, 1) if False else pb.zi
        return dict(xi=gnp.asarray(pb.xi.copy()), zi=gnp.asarray(z.copy())), [(pb.xi, pb.zi)]
    lo = max(pb.q + 3, 4)
    bs = int(rng.integers(lo, pb.n + 1)) if lo <= pb.n else pb.n
    if pb.n % bs and pb.n % bs < lo:
        bs = pb.n
    dl = DataLoader(Dataset(gnp.asarray(pb.xi.copy()), gnp.asarray(pb.zi.copy())), batch_size=bs, shuffle=False)
    return dict(dataloader=dl), [(pb.xi[a : a + bs], pb.zi[a : a + bs]) for a in range(0, pb.n, bs)]


def fresh(rng, pb, stored):
    mp = None if pb.meanparam is None else gnp.asarray(pb.meanparam.copy())
    if pb.meantype == "parameterized" and not stored:
        mp = None
    cp = gnp.asarray(near(rng, pb.covparam)) if stored else None
    return gpmp.core.Model(pb.mean, pb.cov, mp, cp, meantype=pb.meantype)


@REG.scenario(quick=260)
def procedures(ctx):
    rng = ctx.rng
    reset()
    try:
        if rng.random() < 0.3:
            pd.set_default_prior_hyperparameters(
                gamma=float(rng.uniform(1.2, 3)),
                sigma2_coverage=float(rng.uniform(0.6, 0.97)),
                alpha=float(rng.uniform(0.4, 2)),
                rho_min_range_factor=float(rng.uniform(0.01, 0.08)),
            )
        for _ in range(12):
            proc = str(rng.choice(["reml", "remap", "remap_power", "remap_gauss", "remap_both", "ml", "user"]))
            mode = str(rng.choice(["select", "update"]))
            pb = problem(rng, "reml" if proc == "user" else proc)
            stored = bool(rng.random() < 0.5)
            model = fresh(rng, pb, stored)
            data, batches = sources(rng, pb)
            ctx.note(**pb.describe())
            if one_call(ctx, pb, model, proc, mode, data, batches):
                break
    finally:
        reset()


@REG.scenario(quick=60)
def histories(ctx):
    """select, then updates: each call starts from what the previous one left in the model."""
    rng = ctx.rng
    reset()
    fam = str(rng.choice(["lp", "ml"]))
    pb = problem(rng, "reml" if fam == "lp" else "ml")
    model = fresh(rng, pb, False)
    ctx.note(**pb.describe())
    done = 0
    for step in range(5):
        proc = "ml" if fam == "ml" else str(rng.choice(LP))
        mode = "select" if step == 0 or rng.random() < 0.25 else "update"
        data, batches = sources(rng, pb)
        if mode == "update" and rng.random() < 0.3:
            # the model was changed by the user between calls
            model.covparam = gnp.asarray(near(rng, pb.covparam))
        if model.covparam is not None:
            c = to_np(model.covparam)
            K = pb.kref(pb.xi, pb.xi, True, par=c)
            if not np.linalg.cond(K) < 1e7:
                model.covparam = gnp.asarray(near(rng, pb.covparam, 0.1))
        done += bool(one_call(ctx, pb, model, proc, mode, data, batches))
    ctx.count("chained calls", done)


@REG.scenario(quick=2)
def larger_designs(ctx):
    """More than a hundred observations."""
    rng = ctx.rng
    reset()
    proc = str(rng.choice(["reml", "remap", "remap_power", "remap_gauss", "remap_both", "remap_both", "ml"]))
    pb = problem(rng, proc, n=int(rng.integers(102, 150)))
    # the closest pair of points often lies among the last ones
    if rng.random() < 0.5:
        pb.xi = pb.xi[::-1].copy()
        pb.zi = pb.zi[::-1].copy()
    model = fresh(rng, pb, True)
    ctx.note(**pb.describe())
    data, batches = sources(rng, pb)
    one_call(ctx, pb, model, proc, str(rng.choice(["select", "update"])), data, batches)


@REG.scenario(quick=20)
def refusals(ctx):
    """Ambiguous or missing data and wrong mean types are refused; info is optional."""
    rng = ctx.rng
    reset()
    pb = problem(rng, "reml")
    model = fresh(rng, pb, True)
    x, z = gnp.asarray(pb.xi), gnp.asarray(pb.zi)
    dl = DataLoader(Dataset(x, z), batch_size=pb.n, shuffle=False)
    ctx.note(**pb.describe())
    for name, f in list(SELECT.items()):
        if name == "ml":
            ctx.raises(lambda: f(model, x, z), "ml-needs-parameterized", ValueError)
            continue
        ctx.raises(lambda: f(model, x, z, dl, covparam0=model.covparam), "both-sources", ValueError)
        ctx.raises(lambda: f(model, covparam0=model.covparam), "no-source", ValueError)
    a, b = fresh(rng, pb, False), fresh(rng, pb, False)
    kw = dict(covparam0=gnp.asarray(pb.covparam), bounds_delta=1.0, method_options=dict(maxiter=3))
    a, r = gk.select_parameters_with_reml(a, x, z, info=True, **kw)
    b, none = gk.select_parameters_with_reml(b, x, z, info=False, **kw)
    ctx.check(none is None, "no-info", f"{none}")
    ctx.equal(b.covparam, to_np(a.covparam), "info-does-not-matter")
