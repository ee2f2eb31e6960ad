"""C10: the optimiser returns the best point it visited, within bounds, and survives failures.

Every criterion evaluation is an event recorded by the harness; the trace is judged afterwards.
"""

import math

import numpy as np

import gpmp.core
import gpmp.kernel as gk
import gpmp.num as gnp

from ..core import Registry, as_float, to_np
from ..gen import Problem

REG = Registry(
    "C10",
    rule="one evaluation = one contract clause judged on one recorded optimisation run "
    "(trace of evaluated points and values, returned point, stored history)",
    assumptions=["SciPy's own SLSQP and L-BFGS-B are trusted to request points"],
    more=8,
)

METHODS = ("SLSQP", "L-BFGS-B")


class Boom(Exception):
    pass


class BoomArithmetic(Boom, FloatingPointError):
    pass


class BoomValue(Boom, ValueError):
    pass


class BoomRuntime(Boom, RuntimeError):
    pass


class BoomLookup(Boom, KeyError):
    pass


BOOMS = (Boom, BoomArithmetic, BoomValue, BoomRuntime, BoomLookup)


class Trace:
    """Criterion wrapper: the harness's own record of what was evaluated."""

    def __init__(self, f, grad=None):
        self.f = f
        self.grad = grad
        self.points = []
        self.values = []
        self.fault = {}
        self.boom = Boom
        self.calls = 0

    def __call__(self, p):
        x = to_np(p).astype(float)
        k = self.calls
        self.calls += 1
        kind = self.fault.get(k)
        if kind is None and "region" in self.fault and self.fault["region"][0](x):
            kind = self.fault["region"][1]
        self.points.append(x)
        if kind == "linalg":
            self.values.append(math.inf)
            gnp.cholesky(gnp.asarray(-np.eye(2)))
            raise AssertionError("the factorisation of a negative matrix succeeded")
        if kind == "boom":
            self.values.append(None)
            raise self.boom("criterion error at evaluation %d" % k)
        if kind == "inf":
            v = math.inf
        elif kind == "nan":
            v = math.nan
        else:
            v = float(self.f(x))
        self.values.append(v)
        return v


def target(rng, d):
    """A random criterion with its gradient."""
    kind = str(rng.choice(["quad", "rosen", "abs", "wavy", "flat", "steep", "log"]))
    c = rng.normal(size=d) * 2
    w = 10.0 ** rng.uniform(-2, 2, d)
    if kind == "quad":
        return kind, lambda x: np.sum(w * (x - c) ** 2), lambda x: 2 * w * (x - c)
    if kind == "rosen":
        def f(x):
            return np.sum((1 - x) ** 2) + 10 * np.sum((x[1:] - x[:-1] ** 2) ** 2)

        def g(x):
            r = -2 * (1 - x)
            t = x[1:] - x[:-1] ** 2
            r[1:] += 20 * t
            r[:-1] -= 40 * x[:-1] * t
            return r
        return kind, f, g
    if kind == "abs":
        return kind, lambda x: np.sum(np.abs(x - c)), lambda x: np.sign(x - c)
    if kind == "wavy":
        return (
            kind,
            lambda x: np.sum(np.sin(3 * x) + 0.1 * (x - c) ** 2),
            lambda x: 3 * np.cos(3 * x) + 0.2 * (x - c),
        )
    if kind == "flat":
        return kind, lambda x: 1.5, lambda x: np.zeros(d)
    if kind == "steep":
        # gradient of the wrong size: line searches overshoot
        s = 10.0 ** rng.uniform(-3, 3)
        return kind, lambda x: np.sum((x - c) ** 4), lambda x: s * 4 * (x - c) ** 3
    return kind, lambda x: np.sum(np.logaddexp(0, x - c) - 0.3 * x), lambda x: 1 / (1 + np.exp(-(x - c))) - 0.3


def rescaled(rng, kind, f, g):
    """The same criterion in other units and with an offset."""
    s = 10.0 ** rng.uniform(-7, 5)
    b = rng.normal() * 10.0 ** rng.uniform(-2, 4) if rng.random() < 0.4 else 0.0
    return kind + "*", lambda x: s * f(x) + b, lambda x: s * g(x)


def judge(ctx, tr, r, p_ret, p0, bounds):
    """Contract on one finished run; `tr` is the harness trace."""
    pts = np.array(tr.points)
    vals = np.array(tr.values, dtype=float)
    start_ok = math.isfinite(vals[0])
    ctx.count("criterion evaluations observed", len(vals))
    ctx.count("failed evaluations survived", int(np.sum(~np.isfinite(vals))))
    x = to_np(p_ret).astype(float)
    ctx.shape(p_ret, p0.shape, "returned-shape")
    fin = np.isfinite(vals)
    if fin.any():
        best = float(np.min(vals[fin]))
        hit = [i for i in range(len(vals)) if np.array_equal(pts[i], x)]
        got = min((vals[i] for i in hit if not math.isnan(vals[i])), default=math.nan)
        ctx.check(
            bool(hit) and got <= best,
            "best-visited",
            lambda: f"returned {x} (value {got}), but {pts[int(np.nanargmin(np.where(fin, vals, np.inf)))]}"
            f" was evaluated with value {best}",
        )
    if start_ok and np.array_equal(pts[0], p0):
        ctx.check(got <= vals[0], "not-worse-than-start", f"start {vals[0]}, returned {got}")
    if bounds is not None:
        lo = np.array([-np.inf if b[0] is None else b[0] for b in bounds], dtype=float)
        hi = np.array([np.inf if b[1] is None else b[1] for b in bounds], dtype=float)
        slack = 1e-12 * (1 + np.abs(p0) + np.where(np.isfinite(hi - lo), hi - lo, 0))
        inside = np.all((x >= lo - slack) & (x <= hi + slack))
        ctx.check(inside, "returned-in-bounds", f"{x} outside {bounds}")
        if start_ok:
            # after a failed evaluation SciPy may propose NaN, which is not a point
            bad = [q for q in pts if np.any((q < lo - slack) | (q > hi + slack))]
            ctx.check(not bad, "evaluated-in-bounds", lambda: f"{bad[0]} evaluated, bounds {bounds}")
    if r is not None:
        hp = [to_np(q).astype(float) for q in r.history_params]
        hv = [as_float(v) for v in r.history_criterion]
        ctx.check(
            len(hp) == len(pts) == len(hv)
            and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(hp, pts))
            and np.array_equal(np.array(hv), vals, equal_nan=True),
            "history-is-trace",
            lambda: f"history of {len(hp)} points/{len(hv)} values, {len(pts)} evaluated; "
            f"values {hv[:6]} vs {vals[:6]}",
        )
        ctx.check(np.array_equal(to_np(r.x), x), "info-x", "info.x differs from the returned point")
        ctx.check(np.array_equal(to_np(r.final_params), x), "info-final", "final_params")
        ctx.check(np.array_equal(to_np(r.initial_params), p0), "info-initial", "initial_params")
        if fin.any():
            ctx.check(as_float(r.fun) == best, "info-fun", f"fun {r.fun}, best visited {best}")
        # later changes to the returned arrays must not reach the history
        before = [q.copy() for q in hp]
        try:
            r.x[...] = 1234.5
        except (ValueError, TypeError, RuntimeError):
            return
        after = [to_np(q).astype(float) for q in r.history_params]
        ctx.check(
            all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, after)),
            "history-isolated",
            "writing to the returned point changed the history",
        )


def auto_bounds(p0, delta):
    """Start +- delta, clipped to +-500 unless the start lies beyond."""
    return [
        (max(v - delta, -500.0) if v >= -500 else v - delta, min(v + delta, 500.0) if v <= 500 else v + delta)
        for v in p0
    ]


def random_bounds(rng, p0):
    """(kwargs, bounds expected to apply, label)"""
    d = len(p0)
    kind = str(rng.choice(["auto", "delta", "explicit", "half", "none", "tight"]))
    if kind == "auto":
        return {}, auto_bounds(p0, 10.0), kind
    if kind == "delta":
        dl = float(10.0 ** rng.uniform(-2, 1.5))
        return (
            dict(bounds_delta=dl),
            auto_bounds(p0, dl),
            kind,
        )
    if kind == "none":
        return dict(bounds_auto=False), None, kind
    if kind == "half":
        b = [
            (v - rng.uniform(0.1, 3), None) if rng.random() < 0.5 else (None, v + rng.uniform(0.1, 3))
            for v in p0
        ]
    elif kind == "tight":
        b = [(v, v + rng.uniform(0, 0.05)) for v in p0]
    else:
        b = [(v - rng.uniform(0, 3), v + rng.uniform(0, 3)) for v in p0]
    b = [tuple(None if u is None else float(u) for u in t) for t in b]
    extra = {} if rng.random() < 0.5 else dict(bounds_auto=bool(rng.random() < 0.5))
    return dict(bounds=b, **extra), b, kind


def as_start(rng, p0):
    return gnp.asarray(p0.copy()) if rng.random() < 0.5 else p0.copy()


@REG.scenario(quick=220)
def synthetic(ctx):
    """Random criteria, failing regions, bounds and options."""
    rng = ctx.rng
    d = int(rng.integers(1, 5))
    kind, f, g = target(rng, d)
    if rng.random() < 0.4:
        kind, f, g = rescaled(rng, kind, f, g)
    p0 = rng.normal(size=d) * rng.choice([0.1, 1.0, 4.0])
    if rng.random() < 0.1:
        # around the safety limit at 500
        p0 = (p0 + rng.uniform(480, 520)) * rng.choice([-1.0, 1.0])
    method = METHODS[int(rng.integers(2))]
    kw, bounds, bk = random_bounds(rng, p0)
    tr = Trace(f)
    fault = "none"
    if rng.random() < 0.6:
        fault = str(rng.choice(["linalg", "inf", "nan"]))
        a = rng.normal(size=d)
        b = float(a @ p0 + abs(rng.normal()) * rng.choice([0.01, 0.3, 2.0]))
        tr.fault["region"] = ((lambda x: float(a @ x) > b), fault)
    use_grad = rng.random() < 0.6
    grad = (lambda p: g(to_np(p).astype(float))) if use_grad else None
    opts = {}
    if rng.random() < 0.3:
        opts = dict(maxiter=int(rng.integers(1, 6)))
    ctx.note(criterion=kind, d=d, method=method, bounds=bk, fault=fault, grad=use_grad, options=opts, p0=p0)
    start = as_start(rng, p0)
    if rng.random() < 0.5:
        kw["silent"] = True
    p, r = gk.autoselect_parameters(
        start, tr, grad, info=True, method=method, method_options=opts or None, **kw
    )
    vals = np.array(tr.values, dtype=float)
    ctx.state(kind, method, bk, fault, use_grad, bool(np.any(~np.isfinite(vals))))
    p = to_np(p)
    if r.bounds is None or bounds is None:
        ctx.check((r.bounds is None) == (bounds is None), "bounds-reported", f"{r.bounds} / {bounds}")
    else:
        ctx.check(
            all(
                (u is None and v is None) or (u is not None and v is not None and as_float(u) == v)
                for s, t in zip(r.bounds, bounds)
                for u, v in zip(s, t)
            ),
            "bounds-reported",
            lambda: f"{r.bounds} expected {bounds}",
        )
    ctx.equal(start, p0, "start-untouched")
    if "maxiter" in opts:
        ctx.check(r.nit <= opts["maxiter"], "options-honoured", f"nit {r.nit} > {opts}")
    judge(ctx, tr, r, p, p0, bounds)
    # the same run without diagnostics returns the same point
    tr2 = Trace(f)
    tr2.fault = dict(tr.fault)
    p2, r2 = gk.autoselect_parameters(
        as_start(rng, p0), tr2, grad, info=False, method=method, method_options=opts or None, **kw
    )
    ctx.check(r2 is None, "no-info", "diagnostics returned although not requested")
    ctx.equal(p2, p, "same-point-without-info")


@REG.scenario(quick=16)
def fault_schedule(ctx):
    """One run, then the same run with a failure at each of its evaluations in turn."""
    rng = ctx.rng
    d = int(rng.integers(1, 4))
    kind, f, g = target(rng, d)
    p0 = rng.normal(size=d)
    method = METHODS[int(rng.integers(2))]
    kw, bounds, bk = random_bounds(rng, p0)
    use_grad = rng.random() < 0.5
    grad = (lambda p: g(to_np(p).astype(float))) if use_grad else None
    kw["method_options"] = dict(maxiter=40)
    clean = Trace(f)
    gk.autoselect_parameters(p0.copy(), clean, grad, method=method, **kw)
    n = clean.calls
    ctx.note(criterion=kind, d=d, method=method, bounds=bk, grad=use_grad, evaluations=n)
    for k in range(min(n, 30)):
        for fault in ("linalg", "inf", "nan"):
            tr = Trace(f)
            tr.fault[k] = fault
            p, r = gk.autoselect_parameters(p0.copy(), tr, grad, info=True, method=method, **kw)
            ctx.state(method, use_grad, fault, min(k, 12))
            judge(ctx, tr, r, to_np(p), p0, bounds)
        tr = Trace(f)
        tr.fault[k] = "boom"
        tr.boom = BOOMS[int(rng.integers(len(BOOMS)))]
        try:
            gk.autoselect_parameters(p0.copy(), tr, grad, info=True, method=method, **kw)
            ctx.check(False, "error-propagates", f"error at evaluation {k} was swallowed")
        except Boom:
            ctx.check(tr.calls == k + 1, "error-propagates", f"{tr.calls} calls, error at {k}")


@REG.scenario(quick=20)
def gradient_errors(ctx):
    """Errors of the gradient and unknown methods reach the caller."""
    rng = ctx.rng
    d = int(rng.integers(1, 4))
    _, f, _ = target(rng, d)
    tr = Trace(f)
    method = METHODS[ctx.case % 2]

    def bad(p):
        raise Boom("gradient")

    ctx.note(method=method)
    ctx.raises(
        lambda: gk.autoselect_parameters(rng.normal(size=d), tr, bad, method=method), "gradient-error", Boom
    )
    ctx.raises(
        lambda: gk.autoselect_parameters(rng.normal(size=d), tr, None, method="no-such-method"),
        "unknown-method",
        ValueError,
    )


class EventLog:
    """User criterion that logs its arguments and values."""

    def __init__(self, f):
        self.f = f
        self.tracked = []

    def __call__(self, model, *a):
        return self.f(model, *a)


@REG.scenario(quick=60)
def model_runs(ctx):
    """Real likelihood criteria on data that make the covariance singular for some parameters."""
    rng = ctx.rng
    pb = Problem(rng, n=int(rng.integers(6, 16)), d=int(rng.integers(1, 3)), covkind=str(rng.choice(["sqexp", "matern", "rq"])))
    nb = len(pb.xi)
    xi, zi = pb.xi.copy(), pb.zi.copy()
    if rng.random() < 0.7:
        # nearly coincident points: long length scales are not factorisable
        xi[1] = xi[0] + 1e-9 * pb.scale
        zi[1] = zi[0]
    sign = float(rng.choice([0.0, 1e-12, -1e-10]))

    def cov(x, y, param, pairwise=False):
        K = pb.cov(x, y, param, pairwise)
        if not pairwise and (y is None or y is x):
            K = K + sign * gnp.exp(param[0]) * gnp.eye(x.shape[0])
        return K

    mp = None if pb.meanparam is None else gnp.asarray(pb.meanparam)
    model = gpmp.core.Model(pb.mean, cov, mp, None, meantype=pb.meantype)
    method = METHODS[ctx.case % 2]
    cp0 = pb.covparam + rng.normal(size=len(pb.covparam)) * 0.5
    kw, bounds, bk = random_bounds(rng, cp0)
    ctx.note(**pb.describe(), method=method, bounds=bk, diag=sign)
    if pb.meantype == "linear_predictor":
        f = gk.negative_log_restricted_likelihood
    else:
        f = gk.negative_log_likelihood_zero_mean
    loader = rng.random() < 0.25
    if loader:
        from gpmp.dataloader import DataLoader, Dataset

        data = dict(
            dataloader=DataLoader(
                Dataset(gnp.asarray(xi), gnp.asarray(zi)), batch_size=max(pb.q + 2, nb // 2), shuffle=False
            )
        )
        if pb.meantype == "linear_predictor" and nb % max(pb.q + 2, nb // 2) in range(1, pb.q + 1):
            data = dict(xi=gnp.asarray(xi), zi=gnp.asarray(zi))
    else:
        data = dict(xi=gnp.asarray(xi), zi=gnp.asarray(zi))
    model, r = gk.select_parameters_with_criterion(
        model, f, covparam0=gnp.asarray(cp0), info=True, method=method, **data, **kw
    )
    hv = np.array([as_float(v) for v in r.history_criterion])
    hp = [to_np(q).astype(float) for q in r.history_params]
    ctx.count("criterion evaluations observed", len(hv))
    ctx.count("failed evaluations survived", int(np.sum(~np.isfinite(hv))))
    ctx.state(pb.covkind, pb.meantype, method, bk, bool(np.isinf(hv).any()), bool(np.isfinite(hv[0])))
    x = to_np(model.covparam).astype(float)
    fin = np.isfinite(hv)
    if fin.any():
        ctx.check(as_float(r.fun) == hv[fin].min(), "best-visited", f"{as_float(r.fun)} / {hv[fin].min()}")
        i = int(np.argmin(np.where(fin, hv, np.inf)))
        ctx.check(
            any(np.array_equal(x, q) and v == hv[i] for q, v in zip(hp, hv)),
            "model-has-best",
            lambda: f"model {x}, best {hp[i]}",
        )
        if fin[0]:
            ctx.check(as_float(r.fun) <= hv[0], "not-worse-than-start", f"{r.fun} / {hv[0]}")
    ctx.equal(hp[0], cp0, "starts-at-start") if bk != "tight" else None
    if bounds is not None and fin[0]:
        lo = np.array([-np.inf if b[0] is None else b[0] for b in bounds])
        hi = np.array([np.inf if b[1] is None else b[1] for b in bounds])
        ctx.check(
            not any(np.any((q < lo - 1e-9) | (q > hi + 1e-9)) for q in hp), "evaluated-in-bounds", f"{bounds}"
        )
    # the history tells the truth about the criterion
    for k in sorted(set([0, len(hp) - 1] + rng.integers(0, len(hp), 3).tolist())):
        if not np.all(np.isfinite(hp[k])):
            continue
        v = as_float(r.selection_criterion_nograd(gnp.asarray(hp[k])))
        ctx.close(v, hv[k], "history-values", rtol=1e-9, scale=abs(hv[k]) + 1.0 if np.isfinite(hv[k]) else 1.0)
