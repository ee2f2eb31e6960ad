"""C11: criterion values and gradients are consistent and every batch is used once.

Wrapped criteria and loaders log each (parameters, batch) event; values, gradients and the
consumption order are judged against the log.
"""

import numpy as np

import gpmp.core
import gpmp.kernel as gk
import gpmp.num as gnp
from gpmp.dataloader import DataLoader, Dataset

from ..core import Registry, as_float, to_np
from ..gen import Problem

REG = Registry(
    "C11",
    rule="one evaluation = one value, gradient or batch-consumption record compared with the "
    "harness's own recomputation from the logged events",
    more=20,
)

TORCH = gnp._gpmp_backend_ == "torch"


def grad_of(f, p):
    """Gradient of f at p, by automatic differentiation independent of the wrappers."""
    import torch

    q = torch.tensor(np.array(p), dtype=torch.float64, requires_grad=True)
    v = f(q)
    (g,) = torch.autograd.grad(v, q)
    return float(v.detach()), g.detach().numpy()


def fd_grad(f, p, h=1e-4):
    """Central differences with one Richardson step (h: one step, or one per parameter)."""
    g = np.zeros(len(p))
    hs = np.broadcast_to(np.asarray(h, float), (len(p),))
    for i, h in enumerate(hs):
        e = np.zeros(len(p))

        def D(s):
            e[i] = s
            return (f(p + e) - f(p - e)) / (2 * s)

        g[i] = (4 * D(h / 2) - D(h)) / 3
    return g


class Log:
    """Synthetic criterion logging what it is given; depends on every sample."""

    def __init__(self, w):
        self.w = w
        self.events = []

    def cov(self, model, p, x, z):
        self.events.append((to_np(p), to_np(x), to_np(z)))
        return self.value(p, x, z)

    def meancov(self, model, m, c, x, z):
        self.events.append((to_np(m), to_np(c), to_np(x), to_np(z)))
        return self.value(c, x, z) + (gnp.sin(m) * (x.shape[0] + z.sum())).sum()

    def value(self, p, x, z):
        s = (x * x).sum() * 0.3 + (gnp.cos(z)).sum()
        return (gnp.exp(0.3 * p * gnp.asarray(self.w))).sum() * (1.0 + s * s) + p[0] * z.sum()


def value_np(w, p, x, z, m=None):
    s = (x * x).sum() * 0.3 + np.cos(z).sum()
    v = np.exp(0.3 * p * w).sum() * (1.0 + s * s) + p[0] * z.sum()
    if m is not None:
        v += (np.sin(m) * (x.shape[0] + z.sum())).sum()
    return v


def magnitude(w, p, x, z):
    """Size of the terms summed by value_np, weighted by the number of samples."""
    s = (x * x).sum() * 0.3 + len(z)
    return len(z) * (np.exp(0.3 * p * w).sum() * (1.0 + s * s) + np.abs(p[0]) * np.abs(z).sum() + len(z) + np.abs(z).sum())


def grad_np(w, p, x, z, m=None):
    s = (x * x).sum() * 0.3 + np.cos(z).sum()
    g = 0.3 * w * np.exp(0.3 * p * w) * (1.0 + s * s)
    g[0] += z.sum()
    if m is not None:
        return np.concatenate([np.cos(m) * (x.shape[0] + z.sum()), g])
    return g


def give(rng, p):
    """Parameters as a user or SciPy passes them."""
    return gnp.asarray(p.copy()) if TORCH and rng.random() < 0.5 else p.copy()


@REG.scenario(quick=120)
def arrays(ctx):
    """Arbitrary call sequences on the array wrapper."""
    rng = ctx.rng
    n, d = int(rng.integers(1, 9)), int(rng.integers(1, 4))
    x, z = rng.normal(size=(n, d)), rng.normal(size=n)
    if rng.random() < 0.3:
        z = z.reshape(-1, 1)
    k = int(rng.integers(1, 5))
    w = rng.normal(size=k)
    ml = int(rng.integers(0, 4))
    log = Log(w)
    model = gpmp.core.Model(None, None, None, None, meantype="zero")
    xg, zg = gnp.asarray(x.copy()), gnp.asarray(z.copy())
    if ml:
        ev, pre, nog, grad = gk.make_selection_criterion_with_gradient(
            model, log.meancov, xg, zg, parameterized_mean=True, meanparam_len=ml
        )
    else:
        ev, pre, nog, grad = gk.make_selection_criterion_with_gradient(model, log.cov, xg, zg)
    ctx.note(n=n, d=d, covparams=k, meanparams=ml)

    def want(p):
        return value_np(w, p[ml:], x, z, p[:ml] if ml else None)

    ctx.check(TORCH == (grad is not None), "gradient-offered", f"gradient {grad}")
    last = None
    seq = []
    for _ in range(int(rng.integers(4, 12))):
        p = rng.normal(size=ml + k)
        op = str(rng.choice(["evaluate", "pre", "nograd", "grad"]))
        seq.append(op)
        before = len(log.events)
        if op == "grad":
            if not TORCH or last is None:
                continue
            g = grad(give(rng, last))
            ctx.close(
                g, grad_np(w, last[ml:], x, z, last[:ml] if ml else None), "gradient", rtol=1e-10
            )
            ctx.check(len(log.events) == before, "gradient-does-not-reevaluate", "")
            last = None
            continue
        f = dict(evaluate=ev, pre=pre, nograd=nog)[op]
        arg = give(rng, p)
        if op == "evaluate":
            arg = gnp.asarray(arg)
        v = f(arg)
        ctx.close(as_float(v), want(p), "value-" + op, rtol=1e-12)
        ctx.equal(arg, p, "parameters-untouched")
        ctx.check(len(log.events) == before + 1, "one-call", f"{len(log.events) - before} calls")
        e = log.events[-1]
        if ml:
            ctx.equal(e[0], p[:ml], "mean-part")
            ctx.equal(e[1], p[ml:], "cov-part")
        else:
            ctx.equal(e[0], p, "cov-part")
        ctx.equal(e[-2], x, "data-x")
        ctx.equal(e[-1], z, "data-z")
        if op == "pre":
            last = p
            if TORCH:
                ctx.check(isinstance(v, float), "plain-number", f"{type(v)}")
    ctx.state(tuple(seq[:4]), ml)
    if TORCH:
        q = rng.normal(size=ml + k)
        pre(q)
        ctx.raises(lambda: grad(q + 1.0), "gradient-elsewhere-refused", ValueError)
        pre(q)
        q2 = q * (1 + 1e-6) + 1e-7
        try:
            g2 = to_np(grad(q2))
        except ValueError:
            ctx.check(True, "gradient-nearby-refused", "")
        else:
            # not refused: then it must be the gradient there
            ctx.close(g2, grad_np(w, q2[ml:], x, z, q2[:ml] if ml else None), "gradient-nearby", rtol=1e-10)


@REG.scenario(quick=60)
def model_criteria(ctx):
    """Likelihood and REMAP criteria: equal values; gradient against differences."""
    rng = ctx.rng
    pb = Problem(rng, n=int(rng.integers(6, 14)), d=int(rng.integers(1, 3)))
    model = pb.model()
    x, z = gnp.asarray(pb.xi), gnp.asarray(pb.zi)
    kw = {}
    if pb.meantype == "parameterized":
        f, kw = gk.negative_log_likelihood, dict(parameterized_mean=True, meanparam_len=len(pb.meanparam))
        p = np.concatenate([pb.meanparam, pb.covparam])
        name = "ml"
    elif pb.meantype == "zero":
        f, p, name = gk.negative_log_likelihood_zero_mean, pb.covparam, "ml0"
    else:
        name = str(rng.choice(["reml", "remap-power", "remap-gauss", "remap-both"]))
        p = pb.covparam
        ls0 = float(p[0] + rng.normal())
        lr0 = -p[1 : 1 + pb.d] + rng.normal(size=pb.d)
        lrm = np.minimum(lr0, -p[1 : 1 + pb.d]) - rng.uniform(0.5, 2.0, pb.d)
        if pb.covkind == "noisy" and name == "remap-both":
            name = "remap-gauss"
        f = {
            "reml": gk.negative_log_restricted_likelihood,
            "remap-power": gk.neg_log_restricted_posterior_power_laws_prior,
            "remap-gauss": lambda m, c, a, b: gk.neg_log_restricted_posterior_logsigma2_prior(
                m, c, a, b, log_sigma2_0=ls0
            ),
            "remap-both": lambda m, c, a, b: gk.neg_log_restricted_posterior_logsigma2_and_logrho_prior(
                m, c, a, b, log_sigma2_0=ls0, logrho_min=gnp.asarray(lrm), logrho_0=gnp.asarray(lr0)
            ),
        }[name]
    ctx.note(**pb.describe(), criterion=name)
    ctx.state(name, pb.covkind, pb.meantype)
    ev, pre, nog, grad = gk.make_selection_criterion_with_gradient(model, f, x, z, **kw)
    v = as_float(pre(p.copy()))
    tol = pb.rtol(ctx.backend, 1e-12)
    ctx.close(as_float(ev(gnp.asarray(p.copy()))), v, "evaluate=pre", rtol=tol, scale=abs(v) + 1)
    ctx.close(as_float(nog(p.copy())), v, "nograd=pre", rtol=tol, scale=abs(v) + 1)
    if TORCH:
        nog(p + 0.1)  # an evaluation elsewhere in between must not matter
        g = to_np(grad(p.copy()))
        # absolute size of the value around p sets the noise floor of differences
        step = np.full(len(p), 2e-3)
        if pb.meankind == "wave":  # a frequency: its natural step is that of the inputs
            step[1] /= 1.0 + np.abs(pb.xi).max()
        fd = fd_grad(lambda q: as_float(nog(q)), p, h=step)
        noise = 2e-13 * pb.cond * (abs(v) + pb.n) / step.min()
        ctx.close(g, fd, "gradient=difference", rtol=2e-5, atol=noise + 1e-6, scale=np.abs(fd).max() + 1.0)


class LoggedLoader:
    """Loader proxy recording every batch handed out and every pass started."""

    def __init__(self, loader):
        self.loader = loader
        self.log = []

    def __len__(self):
        return len(self.loader)

    def __iter__(self):
        self.log.append("start")
        for xb, zb in self.loader:
            self.log.append((to_np(xb), to_np(zb)))
            yield xb, zb


def make_loader(rng, n, d):
    x = rng.normal(size=(n, d))
    z = np.arange(n) * 1.0 + 0.25
    bs = int(rng.integers(1, n + 1))
    shuffle = bool(rng.random() < 0.5)
    seed = int(rng.integers(0, 1000)) if rng.random() < 0.7 else None
    drop = bool(rng.random() < 0.2)
    if rng.random() < 0.3 and n > 1:
        c = int(rng.integers(1, n))
        data = Dataset([gnp.asarray(x[:c]), gnp.asarray(x[c:])], [gnp.asarray(z[:c]), gnp.asarray(z[c:])])
    else:
        data = Dataset(gnp.asarray(x), gnp.asarray(z))
    dl = DataLoader(data, batch_size=bs, shuffle=shuffle, seed=seed, drop_last=drop)
    return x, z, dl, bs, shuffle, drop


@REG.scenario(quick=140)
def full_pass(ctx):
    """Loader criteria with full passes: weighted average over every sample once."""
    rng = ctx.rng
    n, d = int(rng.integers(1, 16)), int(rng.integers(1, 3))
    x, z, dl, bs, shuffle, drop = make_loader(rng, n, d)
    k = int(rng.integers(1, 4))
    w = rng.normal(size=k)
    log = Log(w)
    proxy = LoggedLoader(dl)
    model = gpmp.core.Model(None, None, None, None, meantype="zero")
    ml = int(rng.integers(0, 3))
    reduction = "mean"
    if ml == 0 and rng.random() < 0.3:
        reduction = "sum"
        W = gnp.BatchDifferentiableSelectionCriterion(
            lambda p, a, b: log.cov(model, p, a, b), proxy, reduction="sum"
        )
        ev, pre, nog, grad = W.evaluate, W.evaluate_pre_grad, W.evaluate_no_grad, W.gradient
    else:
        ev, pre, nog, grad = gk.make_selection_criterion_with_gradient(
            model,
            log.meancov if ml else log.cov,
            dataloader=proxy,
            parameterized_mean=bool(ml),
            **(dict(meanparam_len=ml) if ml else {}),
        )
    ctx.note(n=n, batch=bs, shuffle=shuffle, drop=drop, reduction=reduction, meanparams=ml)
    ctx.state(reduction, ml, shuffle, drop, n % bs == 0, bs == 1)
    rows = sorted(map(tuple, np.column_stack([x, z])))
    for op in rng.choice(["evaluate", "pre", "nograd"], int(rng.integers(2, 6))):
        p = rng.normal(size=ml + k)
        m = p[:ml] if ml else None
        arg = gnp.asarray(p.copy()) if op == "evaluate" else give(rng, p)
        proxy.log.clear()
        log.events.clear()
        if len(dl) == 0:
            break
        v = dict(evaluate=ev, pre=pre, nograd=nog)[str(op)](arg)
        ctx.equal(arg, p, "parameters-untouched")
        batches = [e for e in proxy.log if e != "start"]
        ctx.check(len(batches) == len(dl), "batch-count", f"{len(batches)} batches, loader has {len(dl)}")
        seen = sorted(tuple(r) for e in batches for r in np.column_stack([e[0], e[1]]))
        if not drop:
            ctx.check(seen == rows, "every-sample-once", f"{len(seen)} of {len(rows)} samples")
        else:
            ctx.check(len(set(seen)) == len(seen) == (n // bs) * bs, "every-sample-once", f"{len(seen)}")
        ctx.check(
            len(log.events) == len(batches)
            and all(
                np.array_equal(a[-2], b[0]) and np.array_equal(a[-1], b[1])
                for a, b in zip(log.events, batches)
            ),
            "criterion-sees-batches",
            f"{len(log.events)} criterion calls for {len(batches)} batches",
        )
        tot = sum(len(b[0]) for b in batches)
        val = sum(value_np(w, p[ml:], b[0], b[1], m) * len(b[0]) for b in batches)
        g = sum(grad_np(w, p[ml:], b[0], b[1], m) * len(b[0]) for b in batches)
        if reduction == "mean":
            val, g = val / tot, g / tot
        mag = sum(magnitude(w, p[ml:], b[0], b[1]) for b in batches)
        ctx.close(as_float(v), val, "weighted-value", rtol=1e-12, atol=1e-14 * mag)
        if TORCH and op == "pre":
            ctx.close(grad(arg), g, "weighted-gradient", rtol=1e-11)
            # another evaluation in between must not change the gradient
            pre(arg)
            nog(rng.normal(size=ml + k))
            if not shuffle and not drop:
                ctx.close(grad(arg), g, "weighted-gradient", rtol=1e-11)
            proxy.log.clear()


@REG.scenario(quick=140)
def cyclic(ctx):
    """A fixed number of batches per evaluation: successive batches, wrapping around."""
    rng = ctx.rng
    n, d = int(rng.integers(1, 14)), int(rng.integers(1, 3))
    x = rng.normal(size=(n, d))
    z = np.arange(n) + 0.5
    bs = int(rng.integers(1, n + 1))
    shuffle = bool(rng.random() < 0.4)
    seed = int(rng.integers(0, 1000))
    bpe = int(rng.integers(1, 6))

    def loader():
        return DataLoader(
            Dataset(gnp.asarray(x), gnp.asarray(z)), batch_size=bs, shuffle=shuffle, seed=seed
        )

    dl = loader()
    w = rng.normal(size=2)
    log = Log(w)
    model = gpmp.core.Model(None, None, None, None, meantype="zero")
    ev, pre, nog, grad = gk.make_selection_criterion_with_gradient(
        model, log.cov, dataloader=dl, batches_per_eval=bpe
    )
    calls = int(rng.integers(3, 9))
    # reference: the batches of the same loader, epoch after epoch
    twin = loader()
    want = []
    while len(want) < bpe * (calls + 2):
        want += [(to_np(a), to_np(b)) for a, b in twin]
    ctx.note(n=n, batch=bs, shuffle=shuffle, batches_per_eval=bpe, calls=calls)
    ctx.state(n % bs == 0, shuffle, bpe, len(dl))
    pos = 0
    for c in range(calls):
        p = rng.normal(size=2)
        op = str(rng.choice(["evaluate", "pre", "nograd"]))
        log.events.clear()
        arg = gnp.asarray(p) if op == "evaluate" else give(rng, p)
        v = dict(evaluate=ev, pre=pre, nograd=nog)[op](arg)
        exp = want[pos : pos + bpe]
        pos += bpe
        ctx.check(
            len(log.events) == bpe
            and all(
                np.array_equal(e[-2], b[0]) and np.array_equal(e[-1], b[1])
                for e, b in zip(log.events, exp)
            ),
            "successive-batches",
            lambda: f"call {c}: first outputs {[e[-1].tolist() for e in log.events]},"
            f" expected {[b[1].tolist() for b in exp]}",
        )
        tot = sum(len(b[0]) for b in exp)
        val = sum(value_np(w, p, b[0], b[1]) * len(b[0]) for b in exp) / tot
        mag = sum(magnitude(w, p, b[0], b[1]) for b in exp)
        ctx.close(as_float(v), val, "weighted-value", rtol=1e-12, atol=1e-14 * mag)
        if TORCH and op == "pre":
            g = sum(grad_np(w, p, b[0], b[1]) * len(b[0]) for b in exp) / tot
            ctx.close(grad(arg), g, "weighted-gradient", rtol=1e-11)


@REG.scenario(quick=30)
def loader_selection(ctx):
    """A real selection on a loader: recorded values are the weighted batch criterion."""
    rng = ctx.rng
    pb = Problem(rng, n=int(rng.integers(10, 18)), d=1, meantype="zero", covkind="matern")
    bs = int(rng.integers(4, pb.n + 1))
    dl = DataLoader(
        Dataset(gnp.asarray(pb.xi), gnp.asarray(pb.zi)), batch_size=bs, shuffle=bool(rng.random() < 0.5)
    )
    model = pb.model()
    method = str(rng.choice(["SLSQP", "L-BFGS-B"]))
    ctx.note(**pb.describe(), batch=bs, method=method)
    f = gk.negative_log_likelihood_zero_mean
    shuffled = dl.shuffle
    model, r = gk.select_parameters_with_criterion(
        model, f, dataloader=dl, covparam0=gnp.asarray(pb.covparam), info=True, method=method
    )
    ctx.state(method, shuffled, pb.n % bs == 0)
    if shuffled:
        return
    for k in rng.integers(0, len(r.history_params), 4):
        q = to_np(r.history_params[int(k)])
        val = 0.0
        for a in range(0, pb.n, bs):
            b = min(a + bs, pb.n)
            val += (b - a) * as_float(f(model, gnp.asarray(q), gnp.asarray(pb.xi[a:b]), gnp.asarray(pb.zi[a:b])))
        ctx.close(as_float(r.history_criterion[int(k)]), val / pb.n, "history-weighted", rtol=1e-8, scale=abs(val) + 1)
