"""C20: posterior samplers use the criterion as negative log-density on the box.

The criterion handed to the library is wrapped and logs every point at which it is asked; the
target each sampler receives is intercepted and compared with minus the criterion (over the
temperature) inside, on and outside the box.  Runs are replayed (stored values, layouts, initial
states, transport steps), compared pairwise under metamorphic changes of the criterion, and their
marginals compared with numerically integrated laws, case by case and pooled.
"""

import contextlib
import io
import math
import warnings
from types import SimpleNamespace

import numpy as np
from scipy import stats as st

import gpmp.num as gnp
from gpmp.mcmc import param_posterior as pp
from gpmp.mcmc.svgd import SVGDOptions, rbf_kernel_matrix, svgd_sample, svgd_step

from .. import gen, stats
from ..core import Registry, as_float, offline_violation, to_np
from .c19 import seed_defaults

REG = Registry(
    "C20",
    more=2,
    rule="one evaluation = one clause on one target, initial state, stored value, transport step, pair of runs or marginal law",
    assumptions=[
        "the transition kernels themselves are judged by C17, C18 and C19",
        "statistical verdicts have a false-alarm probability below 1e-9 each",
    ],
)


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


class Criterion:
    """Separable criterion with an exact marginal law on any box; logs its evaluations."""

    KINDS = ["quadratic", "quartic", "cosh", "gumbel"]

    def __init__(self, rng, dim, offset=None):
        self.dim = dim
        self.kind = str(rng.choice(self.KINDS))
        self.loc = rng.uniform(-1, 1, dim)
        self.scale = np.exp(rng.uniform(-1.0, 0.7, dim))
        self.offset = float(rng.choice([0.0, 37.5, -250.0])) if offset is None else offset
        self.shape = str(rng.choice(["scalar", "one"]))
        self.domain = None  # (coordinate, bound, how): undefined below
        self.factor = 1.0
        self.asked = []

    def __deepcopy__(self, memo):
        raise RuntimeError("not copied")

    def terms(self, t, lib):
        if self.kind == "quadratic":
            return 0.5 * t * t
        if self.kind == "quartic":
            return 0.25 * t**4 + 0.1 * t * t
        if self.kind == "cosh":
            return 2.0 * (lib.exp(0.5 * t) + lib.exp(-0.5 * t))
        return t + lib.exp(-t)

    def value(self, theta):
        """(...,) from (..., dim), plain NumPy."""
        t = (np.asarray(theta, dtype=float) - self.loc) / self.scale
        with np.errstate(all="ignore"):
            v = (np.sum(self.terms(t, np), axis=-1) + self.offset) * self.factor
        if self.domain is not None:
            j, b, _ = self.domain
            v = np.where(np.asarray(theta)[..., j] < b, np.inf, v)
        return v

    def grad(self, theta):
        t = (np.asarray(theta, dtype=float) - self.loc) / self.scale
        d = {
            "quadratic": t,
            "quartic": t**3 + 0.2 * t,
            "cosh": np.exp(0.5 * t) - np.exp(-0.5 * t),
            "gumbel": 1 - np.exp(-t),
        }[self.kind]
        return d / self.scale * self.factor

    def mode(self):
        return self.loc.copy()  # every kind is minimal at t = 0

    def __call__(self, theta):
        x = to_np(theta).copy().ravel()
        self.asked.append(x)
        if self.domain is not None:
            j, b, how = self.domain
            if x[j] < b:
                if how == "raise":
                    raise np.linalg.LinAlgError("criterion undefined")
                if how == "nan":
                    return gnp.asarray(np.nan) + 0.0 * gnp.sum(theta)
                return gnp.asarray(np.inf) + 0.0 * gnp.sum(theta)
        t = (theta - gnp.asarray(self.loc)) / gnp.asarray(self.scale)
        v = (gnp.sum(self.terms(t, gnp)) + self.offset) * self.factor
        return v.reshape(1) if self.shape == "one" else v

    def pit(self, x, T, lower, upper):
        """Marginal distribution functions of exp(-J/T) on the box, by quadrature."""
        x = np.asarray(x, dtype=float).reshape(-1, self.dim)
        out = np.empty_like(x)
        for j in range(self.dim):
            lo, hi = lower[j], upper[j]
            if self.domain is not None and self.domain[0] == j:
                lo = max(lo, self.domain[1])
            g = np.linspace(lo, hi, 20001)
            e = -self.terms((g - self.loc[j]) / self.scale[j], np) * self.factor / T
            f = np.exp(e - e.max())
            c = np.concatenate([[0.0], np.cumsum((f[1:] + f[:-1]) / 2)])
            out[:, j] = np.interp(x[:, j], g, c / c[-1])
        return out

    def wide(self, T=1.0):
        r = 12.0 * math.sqrt(max(T, 1.0))
        return self.loc - r * self.scale, self.loc + r * self.scale


def draw_box(rng, crit):
    """A box cutting the law on some sides, as lists, arrays or common scalar bounds."""
    lo = crit.loc - crit.scale * rng.uniform(0.3, 3.0, crit.dim)
    hi = crit.loc + crit.scale * rng.uniform(0.3, 3.0, crit.dim)
    form = str(rng.choice(["list", "array", "gnp", "scalar", "single"]))
    if form in ("scalar", "single"):
        lo, hi = np.full(crit.dim, lo.min()), np.full(crit.dim, hi.max())
    box = {
        "list": lambda: [list(lo), list(hi)],
        "array": lambda: [lo.copy(), hi.copy()],
        "gnp": lambda: [gnp.asarray(lo), gnp.asarray(hi)],
        "scalar": lambda: [float(lo[0]), float(hi[0])],
        "single": lambda: ([float(lo[0])], [float(hi[0])]),
    }[form]()
    return box, lo, hi, form


def inside(rng, lo, hi, n):
    return lo + rng.uniform(0.05, 0.95, (n, len(lo))) * (hi - lo)


def draw_states(rng, crit, lo, hi, n_chains):
    """(argument, expected (n_chains, dim) array, layout)."""
    d = crit.dim
    layouts = ["vector", "row", "matrix", "info"]
    if d == 1:
        layouts.append("scalar")
    if d not in (1, n_chains):
        layouts += ["transposed"] * 3
    layout = str(rng.choice(layouts))
    pts = inside(rng, lo, hi, n_chains)
    if layout in ("vector", "row", "scalar", "info"):
        pts = np.tile(pts[:1], (n_chains, 1))
    arg = {
        "vector": pts[0],
        "row": pts[:1],
        "matrix": pts,
        "transposed": pts.T.copy(),
        "scalar": float(pts[0, 0]),
        "info": None,
    }[layout]
    if arg is not None and not isinstance(arg, float):
        arg = [lambda a: a, gnp.asarray, lambda a: a.tolist()][int(rng.integers(3))](arg.copy())
    return arg, pts, layout


@contextlib.contextmanager
def intercept(names):
    """Record the keyword arguments with which the module calls its samplers."""
    calls, saved = {}, {}

    def wrap(name, f):
        def g(*a, **k):
            calls.setdefault(name, []).append((a, k))
            return f(*a, **k)

        return g

    for name in names:
        if hasattr(pp, name):
            saved[name] = getattr(pp, name)
            setattr(pp, name, wrap(name, saved[name]))
    try:
        yield calls
    finally:
        for name, f in saved.items():
            setattr(pp, name, f)


def probe_target(ctx, rng, crit, target, T, lo, hi, boxed):
    """A captured target against minus the criterion over the temperature."""
    pts = [inside(rng, lo, hi, 6)]
    pts.append(lo + rng.uniform(-0.6, 1.6, (8, crit.dim)) * (hi - lo))
    edge = inside(rng, lo, hi, 4)
    edge[0] = lo
    edge[1] = hi
    edge[2, 0] = lo[0]
    edge[3, -1] = hi[-1]
    pts.append(edge)
    out = inside(rng, lo, hi, 2 * crit.dim)
    for j in range(crit.dim):
        out[2 * j, j] = lo[j] - 1e-9 * max(1.0, abs(lo[j]))
        out[2 * j + 1, j] = hi[j] + 1e-9 * max(1.0, abs(hi[j]))
    pts.append(out)
    for x in np.concatenate(pts):
        got = as_float(target(gnp.asarray(x.copy())))
        if boxed and (np.any(x < lo) or np.any(x > hi)):
            ctx.check(got == -np.inf, "zero-outside", f"log-density {got} outside the sampling box")
            continue
        want = -float(crit.value(x)) / T
        if want == -np.inf:
            ctx.check(not got > -np.inf, "zero-where-undefined", f"log-density {got} where the criterion is undefined")
            continue
        ctx.close(got, want, "target", rtol=1e-10, atol=1e-10, msg="log-density is not minus the criterion over the temperature")


def check_samples(ctx, crit, x, shape, lo, hi, boxed):
    x = to_np(x)
    ctx.shape(x, shape, "layout")
    ctx.check(bool(np.all(np.isfinite(x))), "finite", "non-finite samples")
    if boxed:
        bad = np.any((x < lo) | (x > hi), axis=-1)
        ctx.check(not np.any(bad), "in-box", f"{int(np.sum(bad))} samples outside the sampling box")
    return x


def asked_first(ctx, crit, k0, expected, key):
    """Every expected initial state is among the points at which the criterion was asked."""
    asked = np.array(crit.asked[k0:])
    for row in expected:
        d = np.min(np.max(np.abs(asked - row), axis=1)) if len(asked) else np.inf
        ctx.check(d <= 1e-12 * (1 + np.max(np.abs(row))), key, f"initial state {row} never evaluated (nearest {d:.2g})")


def source(crit, states):
    """info or selection_criterion argument."""
    if states is None:
        return None
    return dict(info=SimpleNamespace(covparam=gnp.asarray(states[0].copy()), selection_criterion=crit, selection_criterion_nograd=crit))


def draw_setting(ctx, dim_max=3):
    rng = ctx.rng
    crit = Criterion(rng, int(rng.integers(1, dim_max + 1)))
    box, lo, hi, form = draw_box(rng, crit)
    boxed = rng.uniform() < 0.6
    if not boxed:
        lo, hi = crit.loc - 2 * crit.scale, crit.loc + 2 * crit.scale
    if boxed and rng.uniform() < 0.3:
        j = int(rng.integers(crit.dim))
        crit.domain = (j, float(lo[j] + 0.2 * (hi[j] - lo[j])), str(rng.choice(["raise", "nan", "inf"])))
    return crit, box, lo, hi, form, boxed


def start_region(crit, lo, hi):
    a, b = lo.copy(), hi.copy()
    if crit.domain is not None:
        a[crit.domain[0]] = crit.domain[1]
    return a, b


def common_kwargs(rng, crit, n_chains, lo, hi, ctx):
    """Source of the criterion and of the initial states; returns kwargs, expected states (or box)."""
    a, b = start_region(crit, lo, hi)
    if rng.uniform() < 0.3:
        ibox = [list(a), list(b)]
        how = dict(random_init=True, init_box=ibox)
        if rng.uniform() < 0.5:
            how.update(selection_criterion=crit)
        else:
            how.update(source(crit, inside(rng, a, b, 1)))
        return how, None, (a, b), "random"
    arg, pts, layout = draw_states(rng, crit, a, b, n_chains)
    how = dict(param_initial_states=arg)
    if layout == "info" or rng.uniform() < 0.4:
        how.update(source(crit, pts if layout == "info" else inside(rng, a, b, 1)))
    else:
        how.update(selection_criterion=crit)
    return how, pts, (a, b), layout


# -- Metropolis-Hastings ---------------------------------------------------------------------------


@REG.scenario(quick=40)
def mh(ctx):
    rng = ctx.rng
    crit, box, lo, hi, form, boxed = draw_setting(ctx)
    T = float(rng.choice([1.0, 1.0, 0.25, 5.0, 100.0]))
    nc = int(rng.choice([1, 2, 3, 4]))
    pool = int(rng.choice([k for k in (1, nc) if nc % k == 0]))
    total, burn = int(rng.choice([60, 150])), int(rng.choice([0, 20, 50]))
    how, init, (a, b), layout = common_kwargs(rng, crit, nc, lo, hi, ctx)
    ctx.note(kind=crit.kind, dim=crit.dim, T=T, n_chains=nc, boxed=boxed, box=form, layout=layout, domain=crit.domain)
    ctx.state("mh", crit.kind, layout, form if boxed else None, T, nc)
    gnp.set_seed(int(rng.integers(2**31)))
    np.random.seed(int(rng.integers(2**31)))
    with intercept(["MetropolisHastings"]) as calls, silent():
        x, s = pp.sample_from_selection_criterion_mh(
            sampling_box=box if boxed else None, temperature=T, n_steps_total=total, burnin_period=burn, n_chains=nc,
            n_pool=pool, silent=True, plot_chains=False, plot_empirical_distributions=False, **how,
        )
    x = check_samples(ctx, crit, x, (nc, total - burn, crit.dim), lo, hi, boxed)
    full = to_np(s.x)
    m = total - burn
    ends = [np.array_equal(full[:, k : k + m], x) for k in range(burn, full.shape[1] - m + 1)]
    ctx.check(any(ends), "post-burnin", "returned samples are not the states stored after the burn-in period")
    if init is not None:
        ctx.close(full[:, 0, :], init, "initial-states", rtol=1e-14, atol=1e-14, msg="chains do not start at the states given")
    else:
        ctx.check(bool(np.all((full[:, 0] >= a) & (full[:, 0] <= b))), "initial-box", "random initial states outside the initial box")
        ctx.record("init:mh", ((full[:, 0] - a) / (b - a)).ravel().tolist())
        ctx.check(nc == 1 or len(np.unique(full[:, 0], axis=0)) == nc, "initial-distinct", "random initial states are equal")
    want = -crit.value(full) / T
    got = to_np(pp.get_log_target_values(s))
    ctx.shape(got, full.shape[:2], "values-shape")
    ctx.close(got, want, "stored-values", rtol=1e-10, atol=1e-10, msg="stored log-densities differ from the criterion at the samples")
    tail = to_np(pp.get_log_target_values(s, discard_burnin=True))
    ctx.equal(tail, got[:, burn:], "values-after-burnin", msg="values after burn-in")
    targets = [k.get("log_target", p[0] if p else None) for p, k in calls.get("MetropolisHastings", [])]
    for t in targets:
        if t is not None:
            probe_target(ctx, rng, crit, t, T, lo, hi, boxed)
            ctx.count("targets_probed", 1)


@REG.scenario(quick=8)
def mh_law(ctx):
    """Long tempered, truncated runs against the exact marginals."""
    rng = ctx.rng
    crit = Criterion(rng, int(rng.integers(1, 3)))
    box, lo, hi, form = draw_box(rng, crit)
    boxed = bool(ctx.case % 2)
    T = float(rng.choice([1.0, 0.25, 4.0]))
    gnp.set_seed(int(rng.integers(2**31)))
    L, U = (lo, hi) if boxed else crit.wide(T)
    n = 2500 if ctx.backend == "numpy" else 1500
    with silent():
        x, s = pp.sample_from_selection_criterion_mh(
            selection_criterion=crit, param_initial_states=inside(rng, lo, hi, 2), sampling_box=box if boxed else None,
            temperature=T, n_steps_total=n + 500, burnin_period=500, n_chains=2, silent=True, plot_chains=False,
            plot_empirical_distributions=False,
        )
    ctx.note(kind=crit.kind, dim=crit.dim, T=T, boxed=boxed)
    law(ctx, crit, to_np(x), T, L, U, "mh")


def law(ctx, crit, x, T, L, U, tag):
    """Batch means of the distribution function along each chain."""
    d = x.shape[-1]
    u = crit.pit(x, T, L, U).reshape(x.shape)
    ctx.check(bool(np.all((u >= 0) & (u <= 1))), "law-support", "samples outside the support")
    for j in range(d):
        for name, h, mean in (("mean", lambda v: v, 0.5), ("second", lambda v: (v - 0.5) ** 2, 1 / 12)):
            v = h(u[..., j])
            nb = 20
            m = v.shape[1] // nb
            bm = v[:, : nb * m].reshape(v.shape[0] * nb, m).mean(axis=1)
            # neighbouring batches are positively correlated: inflate
            r = float(np.clip(np.corrcoef(bm[:-1], bm[1:])[0, 1], 0.0, 0.9))
            se = bm.std(ddof=1) / math.sqrt(len(bm)) * math.sqrt((1 + r) / (1 - r))
            z = (bm.mean() - mean) / max(se, 1e-12)
            ctx.observe("z", z)
            ctx.check(abs(z) < 9 or abs(bm.mean() - mean) < 0.02, f"law-{name}",
                      f"marginal {j}: {bm.mean():.4f} instead of {mean:.4f} ({z:.1f} standard errors)")
            ctx.record(f"{tag}:{name}", [float(np.clip(z, -6, 6))])
    ctx.state("law", tag, crit.kind, d, T)


@REG.scenario(quick=10)
def mh_metamorphic(ctx):
    """Same random stream: constants do not matter, temperature divides the criterion."""
    rng = ctx.rng
    crit, box, lo, hi, form, boxed = draw_setting(ctx, 2)
    seed, T = int(rng.integers(2**31)), float(rng.choice([0.5, 4.0]))
    a, b = start_region(crit, lo, hi)
    start = inside(rng, a, b, 2)

    def run(offset, factor, temperature):
        crit.offset, crit.factor = offset, factor
        gnp.set_seed(seed)
        with silent():
            x, s = pp.sample_from_selection_criterion_mh(
                selection_criterion=crit, param_initial_states=start, sampling_box=box if boxed else None,
                temperature=temperature, n_steps_total=120, burnin_period=0, n_chains=2, silent=True, plot_chains=False,
                plot_empirical_distributions=False,
            )
        return to_np(x)

    x0 = run(0.0, 1.0, T)
    c = float(rng.choice([64.0, -512.0, 3.0]))
    ctx.close(run(c, 1.0, T), x0, "constant", rtol=1e-9, atol=1e-9, msg="adding a constant to the criterion changed the chains")
    ctx.close(run(0.0, 1.0 / T, 1.0), x0, "temperature", rtol=1e-9, atol=1e-9, msg="(J, T) and (J/T, 1) differ")
    ctx.check(len(np.unique(x0[0], axis=0)) > 3, "moves", "the chain never moves")
    ctx.note(kind=crit.kind, T=T, c=c, boxed=boxed)
    ctx.state("metamorphic", crit.kind, T, boxed)


# -- NUTS ------------------------------------------------------------------------------------------


@REG.scenario(quick=24)
def nuts(ctx):
    rng = ctx.rng
    crit, box, lo, hi, form, boxed = draw_setting(ctx)
    nc = int(rng.choice([1, 2, 3, 4]))
    ns, nw = int(rng.choice([5, 20])), int(rng.choice([0, 10, 40]))
    how, init, (a, b), layout = common_kwargs(rng, crit, nc, lo, hi, ctx)
    ctx.note(kind=crit.kind, dim=crit.dim, n_chains=nc, boxed=boxed, box=form, layout=layout, domain=crit.domain, warmup=nw)
    ctx.state("nuts", crit.kind, layout, form if boxed else None, nc)
    np.random.seed(int(rng.integers(2**31)))
    k0 = len(crit.asked)
    with intercept(["nuts_sample"]) as calls, silent():
        x, info = pp.sample_from_selection_criterion_nuts(
            sampling_box=box if boxed else None, num_samples=ns, num_warmup=nw, n_chains=nc, progress=False, verbose=0,
            seed=int(rng.integers(2**31)), max_depth=6, **how,
        )
    x = check_samples(ctx, crit, x, (nc, ns, crit.dim), lo, hi, boxed)
    vals = to_np(info["log_prob_trace"])  # (num_samples, n_chains)
    ctx.close(vals, -crit.value(x).T, "stored-values", rtol=1e-9, atol=1e-9, msg="stored log-densities differ from the criterion at the samples")
    if init is not None:
        asked_first(ctx, crit, k0, init, "initial-states")
    for p, k in calls.get("nuts_sample", []):
        t = k.get("log_prob", p[0] if p else None)
        q = k.get("q_init", p[1] if len(p) > 1 else None)
        if t is not None:
            probe_target(ctx, rng, crit, t, 1.0, lo, hi, boxed)
            ctx.count("targets_probed", 1)
        if q is not None:
            q = to_np(q)
            if init is not None:
                ctx.close(q, init, "initial-states", rtol=1e-14, atol=1e-14, msg="chains do not start at the states given")
            else:
                ctx.check(bool(np.all((q >= a) & (q <= b))), "initial-box", "random initial states outside the initial box")
                ctx.record("init:nuts", ((q - a) / (b - a)).ravel().tolist())


@REG.scenario(quick=4)
def nuts_law(ctx):
    rng = ctx.rng
    crit = Criterion(rng, int(rng.integers(1, 3)), offset=float(rng.choice([0.0, 20.0])))
    box, lo, hi, form = draw_box(rng, crit)
    boxed = bool(ctx.case % 2)
    L, U = (lo, hi) if boxed else crit.wide()
    n = 300 if ctx.tier == "quick" else 600
    with silent():
        x, info = pp.sample_from_selection_criterion_nuts(
            selection_criterion=crit, param_initial_states=inside(rng, lo, hi, 2), sampling_box=box if boxed else None,
            num_samples=n, num_warmup=150, n_chains=2, progress=False, verbose=0, seed=int(rng.integers(2**31)), max_depth=6,
        )
    ctx.note(kind=crit.kind, dim=crit.dim, boxed=boxed)
    law(ctx, crit, to_np(x), 1.0, L, U, "nuts")


@REG.scenario(quick=6)
def nuts_metamorphic(ctx):
    rng = ctx.rng
    crit = Criterion(rng, int(rng.integers(1, 3)), offset=0.0)
    seed = int(rng.integers(2**31))
    start = inside(rng, crit.loc - crit.scale, crit.loc + crit.scale, 2)

    def run(offset):
        crit.offset = offset
        with silent():
            x, _ = pp.sample_from_selection_criterion_nuts(
                selection_criterion=crit, param_initial_states=start, num_samples=8, num_warmup=0, n_chains=2, progress=False,
                verbose=0, seed=seed, init_step_size=0.15, max_depth=4,
            )
        return to_np(x)

    x0 = run(0.0)
    c = float(rng.choice([2.0, -16.0]))
    ctx.close(run(c), x0, "constant", rtol=1e-5, atol=1e-5, msg="adding a constant to the criterion changed the chains")
    ctx.check(len(np.unique(x0[0], axis=0)) > 2, "moves", "the chain never moves")
    ctx.state("nuts-metamorphic", crit.kind, c)


# -- SMC -------------------------------------------------------------------------------------------


@REG.scenario(quick=10)
def smc(ctx):
    rng = ctx.rng
    crit, box, lo, hi, form, boxed = draw_setting(ctx, 2)
    T = float(rng.choice([1.0, 1.0, 3.0]))
    n = int(rng.choice([60, 120]))
    w = rng.uniform(1.0, 1.5)
    if boxed:
        a, b = lo.copy(), hi.copy()  # the particles must be able to reach the whole box
    else:
        a, b = crit.loc - 5 * w * crit.scale, crit.loc + 5 * w * crit.scale
    form_i = str(rng.choice(["list", "array", "single"]))
    how = dict(selection_criterion=crit)
    if form_i == "single" or rng.uniform() < 0.4:
        how = source(crit, inside(rng, a, b, 1))
    if form_i == "single":
        a, b = np.full(crit.dim, a.min()), np.full(crit.dim, b.max())
        ibox = [float(a[0]), float(b[0])] if rng.uniform() < 0.5 else [[float(a[0])], [float(b[0])]]
    else:
        ibox = [list(a), list(b)] if form_i == "list" else [a.copy(), b.copy()]
    seed_defaults(int(rng.integers(2**31)))
    ctx.note(kind=crit.kind, dim=crit.dim, T=T, n=n, boxed=boxed, init=form_i, domain=crit.domain, offset=crit.offset)
    ctx.state("smc", crit.kind, crit.dim, form_i, boxed, T, crit.domain is not None)
    k0 = len(crit.asked)
    with intercept(["run_smc_sampling"]) as calls, silent():
        x, s = pp.sample_from_selection_criterion_smc(
            init_box=ibox, sampling_box=box if boxed else None, n_particles=n, initial_temperature=float(rng.choice([1e6, 1e3])),
            final_temperature=T, mh_steps=20, **how,
        )
    x = check_samples(ctx, crit, x, (n, crit.dim), lo, hi, boxed)
    v = crit.value(x)
    ctx.check(bool(np.all(np.isfinite(v))), "smc-support", "particles where the criterion is undefined")
    ctx.close(to_np(s.particles.logpx), -v / T, "stored-values", rtol=1e-9, atol=1e-9, msg="stored log-densities differ from the criterion at the samples")
    first = np.array(crit.asked[k0 : k0 + n])
    ctx.check(bool(np.all((first >= a - 1e-12) & (first <= b + 1e-12))), "initial-box", "initial particles outside the initial box")
    if first.shape == (n, crit.dim):
        ctx.record("init:smc", ((first - a) / (b - a)).ravel().tolist())
    L, U = (lo, hi) if boxed else crit.wide(T)
    u = crit.pit(x, T, L, U)
    for j in range(crit.dim):
        D = st.kstest(u[:, j], "uniform").statistic
        ctx.check(D < 0.15 + 5 / math.sqrt(n), "smc-law", f"particles far from the target (KS distance {D:.2f}, n={n})")
        ctx.record("smc:mean", [float(np.clip((u[:, j].mean() - 0.5) * math.sqrt(12 * n), -6, 6))])
        ctx.record("smc:second", [float(np.clip((np.mean((u[:, j] - 0.5) ** 2) - 1 / 12) * math.sqrt(180 * n), -6, 6))])
    for p, k in calls.get("run_smc_sampling", []):
        f = k.get("logpdf_parameterized_function", p[0] if p else None)
        if f is None:
            continue
        for temp in (T, 7.0):
            probe_target(ctx, rng, crit, lambda z: f(z.reshape(1, -1), temp), temp, lo, hi, boxed)
            probe_target(ctx, rng, crit, lambda z: f(z, temp), temp, lo, hi, boxed)
        ctx.count("targets_probed", 4)


# -- particle transport ------------------------------------------------------------------------------


def ref_step(crit, x, step, T, bw, bw_scale, bw_min, pre, lo, hi, jitter=1e-12):
    """One transport step from the definition."""
    if lo is not None:
        x = np.clip(x, lo, hi)
    n = len(x)
    lp = -crit.value(x) / T
    alive = np.isfinite(lp)
    score = np.where(alive[:, None], -crit.grad(x) / T, 0.0)
    diff = x[:, None, :] - x[None, :, :]
    sq = np.sum(diff**2, axis=2)
    if bw is None:
        pos = sq[sq > 0]
        h = bw_scale * np.median(pos) / np.log(n + 1.0) if len(pos) else bw_scale
    else:
        h = bw_scale * bw
    if not np.isfinite(h) or h <= jitter:
        h = max(bw_scale, jitter)
    if bw_min is not None:
        h = max(h, bw_min)
    K = np.exp(-sq / h) * alive[:, None] * alive[None, :]
    m = max(int(alive.sum()), 1)
    v = (K @ score + 2 / h * np.sum(K[:, :, None] * diff, axis=1)) / m
    v = np.where(alive[:, None], v * (1.0 if pre is None else pre), 0.0)
    y = x + step * v
    return (y if lo is None else np.clip(y, lo, hi)), lp, h, v


def ref_temperature(k, n, t0, t1, schedule):
    if n <= 1:
        return t1
    u = k / (n - 1)
    return t0 + u * (t1 - t0) if schedule == "linear" else t0 * (t1 / t0) ** u


def draw_svgd(rng, dim):
    return dict(
        n_steps=int(rng.choice([1, 2, 12])),
        step_size=float(rng.choice([1e-3, 1e-2, 0.1])),
        initial_temperature=float(rng.choice([1.0, 10.0, 0.5])),
        final_temperature=float(rng.choice([1.0, 2.0])),
        annealing_schedule=str(rng.choice(["linear", "geometric"])),
        bandwidth=[None, None, 0.3, 2.0][int(rng.integers(4))],
        bandwidth_scale=float(rng.choice([1.0, 0.5, 3.0])),
        bandwidth_min=[None, 0.2][int(rng.integers(2))],
        preconditioner_diag=[None, np.exp(rng.uniform(-1, 1, dim)), [2.0]][int(rng.integers(3))],
    )


def pre_np(pre, dim):
    return None if pre is None else np.broadcast_to(np.asarray(pre, dtype=float).ravel(), (dim,))


def check_transport(ctx, crit, x, info, opts, lo, hi, T_log=True):
    """Replay the whole recorded transport."""
    hist = to_np(info["particles_history"])
    n = opts["n_steps"]
    ctx.shape(hist, (n + 1,) + x.shape, "history-shape")
    ctx.equal(hist[-1], x, "history-end", msg="history does not end at the returned particles")
    temps, bws, lps = to_np(info["temperature_trace"]).ravel(), to_np(info["bandwidth_trace"]).ravel(), to_np(info["log_prob_trace"])
    vel = to_np(info["velocity_norm_trace"]).ravel()
    fd = ctx.backend == "numpy"
    for k in range(n):
        T = ref_temperature(k, n, opts["initial_temperature"], opts["final_temperature"], opts["annealing_schedule"])
        ctx.close(temps[k], T, "temperature", rtol=1e-12, msg=f"temperature of step {k}")
        y, lp, h, v = ref_step(crit, hist[k], opts["step_size"], T, opts["bandwidth"], opts["bandwidth_scale"],
                               opts["bandwidth_min"], pre_np(opts["preconditioner_diag"], crit.dim), lo, hi)
        ctx.close(bws[k], h, "bandwidth", rtol=1e-9, msg=f"bandwidth of step {k}")
        fin = np.isfinite(lp)
        ctx.close(lps[k][fin], lp[fin], "trace-values", rtol=1e-9, atol=1e-9, msg=f"log-density trace of step {k}")
        ctx.check(bool(np.all(~np.isfinite(lps[k][~fin]))), "trace-dead", "finite log-density where the criterion is undefined")
        scale = 1.0 + float(np.max(np.abs(v)))
        near = np.zeros(len(y), dtype=bool)
        if crit.domain is not None:  # finite differences across the edge of the domain are not defined
            near = np.abs(hist[k][:, crit.domain[0]] - crit.domain[1]) < 1e-4
        # a transport that diverges leaves the range where finite differences have digits
        lost = fd and float(np.max(np.abs(hist[k] - crit.loc) / crit.scale)) > 1e3
        if not near.any() and not lost:
            ctx.close(hist[k + 1], y, "transport", rtol=0.0, atol=opts["step_size"] * scale * (2e-5 if fd else 1e-9) + 1e-12,
                      msg=f"transport step {k}")
            ctx.close(vel[k], float(np.mean(np.sqrt(np.sum(v**2, axis=1)))), "velocity", rtol=1e-4 if fd else 1e-8, atol=1e-5 if fd else 1e-9,
                      msg="velocity norm")
    ctx.count("transport_steps", n)


@REG.scenario(quick=36)
def transport(ctx):
    """Stein transport through the posterior helper, every step replayed."""
    rng = ctx.rng
    crit = Criterion(rng, int(rng.integers(1, 4)))
    box, lo, hi, form = draw_box(rng, crit)
    boxed = rng.uniform() < 0.6
    if not boxed:
        lo, hi = crit.loc - 2 * crit.scale, crit.loc + 2 * crit.scale
    if rng.uniform() < 0.25:
        crit.domain = (0, float(lo[0] + 0.3 * (hi[0] - lo[0])), str(rng.choice(["raise", "nan", "inf"])))
    n = int(rng.choice([1, 2, 7, 15]))
    o = draw_svgd(rng, crit.dim)
    L, U = (lo, hi) if boxed else (None, None)
    ini = str(rng.choice(["random", "vector", "row", "cloud", "info"] + (["scalar"] if crit.dim == 1 else [])))
    jit = float(rng.choice([0.0, 1e-3, 1e-3]))
    pts = lo + rng.uniform(-0.1, 1.1, (n, crit.dim)) * (hi - lo)
    how = dict(selection_criterion=crit)
    if ini == "random":
        how.update(random_init=True, init_box=[list(lo), list(hi)])
    elif ini == "info":
        how = source(crit, pts)
        if rng.uniform() < 0.3:
            how["init_box"] = [list(lo), list(hi)]
    else:
        how.update(particles_initial={"vector": pts[0], "row": pts[:1], "cloud": pts, "scalar": float(pts[0, 0])}[ini])
    as_options = rng.uniform() < 0.4
    if as_options:
        how.update(options=SVGDOptions(progress=False, verbose=0, store_particles_history=True,
                                       sampling_box=(box if boxed and rng.uniform() < 0.5 else None), **o))
    else:
        how.update(progress=False, verbose=0, store_particles_history=True, **o)
    ctx.note(kind=crit.kind, dim=crit.dim, n=n, init=ini, boxed=boxed, form=form, options=repr(o), as_options=as_options, domain=crit.domain)
    ctx.state("transport", crit.kind, crit.dim, n, ini, boxed, as_options)
    gnp.set_seed(int(rng.integers(2**31)))
    np.random.seed(int(rng.integers(2**31)))
    with silent():
        x, info = pp.sample_from_selection_criterion_svgd(sampling_box=box if boxed else None, n_particles=n, init_jitter=jit, **how)
    x = check_samples(ctx, crit, x, (n, crit.dim), lo, hi, boxed)
    check_transport(ctx, crit, x, info, o, L, U)
    first = to_np(info["particles_history"])[0]
    if ini == "random":
        ctx.check(bool(np.all((first >= lo) & (first <= hi))), "initial-box", "random initial particles outside the initial box")
        ctx.record("init:svgd", ((first - lo) / (hi - lo)).ravel().tolist())
    else:
        want = pts if ini == "cloud" else np.tile(pts[:1], (n, 1))
        if boxed:
            want = np.clip(want, lo, hi)
        tol = 1e-12 if ini == "cloud" or n == 1 or jit == 0 else 7 * jit
        ctx.close(first, want, "initial-particles", rtol=0.0, atol=tol, msg="particles do not start at the points given")
        inner = np.all((want > lo + 7 * jit) & (want < hi - 7 * jit)) if boxed else True
        if ini != "cloud" and n > 1 and jit > 0 and inner:
            ctx.check(len(np.unique(first, axis=0)) == n, "initial-jitter", "replicated particles are not perturbed")
    v = crit.value(x)
    got = to_np(info["log_prob_final"])
    fin = np.isfinite(v)
    ctx.close(got[fin], -v[fin], "stored-values", rtol=1e-10, atol=1e-10, msg="final log-densities differ from the criterion at the particles")
    ctx.equal(to_np(info["particles_final"]), x, "final-copy", msg="particles_final")


@REG.scenario(quick=10)
def transport_parts(ctx):
    """Kernel matrix and single steps with degenerate clouds."""
    rng = ctx.rng
    crit = Criterion(rng, int(rng.integers(1, 4)))
    n = int(rng.choice([1, 2, 5, 12]))
    x = crit.loc + crit.scale * rng.standard_normal((n, crit.dim))
    if n > 2 and rng.uniform() < 0.4:
        x[1] = x[0]
    if rng.uniform() < 0.2:
        x[:] = x[0]
    bw = [None, 0.7, 1e-14][int(rng.integers(3))]
    sc = float(rng.choice([1.0, 0.2]))
    mn = [None, 0.5][int(rng.integers(2))]
    K, sq, h = rbf_kernel_matrix(gnp.asarray(x), bandwidth=bw, bandwidth_scale=sc, bandwidth_min=mn)
    wsq = np.sum((x[:, None] - x[None]) ** 2, axis=2)
    ctx.close(to_np(sq), wsq, "sq-dists", rtol=1e-9, atol=1e-10, msg="squared distances")
    _, lp, wh, v = ref_step(crit, x, 0.1, 1.0, bw, sc, mn, None, None, None)
    ctx.close(as_float(h), wh, "bandwidth", rtol=1e-9, msg="bandwidth")
    ctx.close(to_np(K), np.exp(-wsq / wh), "kernel", rtol=1e-8, atol=1e-12, msg="kernel matrix")
    T = float(rng.choice([1.0, 5.0]))
    before = x.copy()
    arg = gnp.asarray(x)
    y, info = svgd_step(lambda p: -crit(p).reshape(()), arg, step_size=0.05, temperature=T, bandwidth=bw, bandwidth_scale=sc, bandwidth_min=mn)
    wy, lp, wh, v = ref_step(crit, x, 0.05, T, bw, sc, mn, None, None, None)
    fd = ctx.backend == "numpy"
    ctx.close(to_np(y), wy, "step", rtol=0.0, atol=0.05 * (1 + np.max(np.abs(v))) * (2e-5 if fd else 1e-9) + 1e-12, msg="single transport step")
    ctx.close(to_np(info["log_prob_values"]), lp, "step-values", rtol=1e-9, atol=1e-9, msg="log-densities of the step")
    ctx.equal(to_np(arg), before, "input-kept", msg="svgd_step changed the particles it was given")
    ctx.check(int(info["alive_count"]) == n, "alive", "alive particles")
    ctx.state("parts", n, bw, sc, mn)
    for bad in (dict(step_size=0.0), dict(step_size=0.1, temperature=0.0), dict(step_size=0.1, bandwidth_scale=0.0)):
        ctx.raises(lambda: svgd_step(lambda p: -crit(p).reshape(()), arg, **bad), "step-arguments", ValueError)


@REG.scenario(quick=6)
def transport_mode(ctx):
    """A single particle follows the gradient to the constrained minimiser of the criterion."""
    rng = ctx.rng
    crit = Criterion(rng, int(rng.integers(1, 3)), offset=0.0)
    crit.kind = ["quadratic", "cosh"][ctx.case % 2]
    boxed = rng.uniform() < 0.6
    lo, hi = crit.loc - 3 * crit.scale, crit.loc + 3 * crit.scale
    if boxed:
        lo = np.where(rng.uniform(size=crit.dim) < 0.5, crit.loc + 0.5 * crit.scale, lo)
    x0 = np.where(rng.uniform(size=crit.dim) < 0.5, lo, hi) if boxed else inside(rng, lo, hi, 1)[0]
    T = float(rng.choice([1.0, 4.0]))
    step = 0.4 * float(np.min(crit.scale) ** 2) * T
    with silent():
        x, info = pp.sample_from_selection_criterion_svgd(
            selection_criterion=crit, particles_initial=x0[None, :], n_particles=1, n_steps=250, step_size=step,
            initial_temperature=T, final_temperature=T, sampling_box=[list(lo), list(hi)] if boxed else None, progress=False, verbose=0,
        )
    want = np.clip(crit.mode(), lo, hi) if boxed else crit.mode()
    ratio = (crit.scale / np.min(crit.scale)) ** 2
    tol = 4 * crit.scale * np.exp(-0.4 * 250 / ratio) + 1e-3 * crit.scale
    ctx.check(bool(np.all(np.abs(to_np(x)[0] - want) <= tol)), "mode", f"particle ended at {to_np(x)[0]}, minimiser {want}")
    ctx.state("mode", crit.kind, crit.dim, boxed, T)


@REG.scenario(quick=4)
def direct_transport(ctx):
    """svgd_sample on its own."""
    rng = ctx.rng
    crit = Criterion(rng, 2)
    o = draw_svgd(rng, 2)
    n = 6
    lo, hi = crit.loc - crit.scale, crit.loc + crit.scale
    boxed = bool(rng.integers(2))
    opts = SVGDOptions(progress=False, verbose=0, store_particles_history=True, sampling_box=[list(lo), list(hi)] if boxed else None, **o)
    np.random.seed(int(rng.integers(2**31)))
    f = lambda p: -crit(p).reshape(())
    with silent():
        if rng.integers(2):
            x, info = svgd_sample(f, n_particles=n, init_box=[list(lo), list(hi)], options=opts)
        else:
            x, info = svgd_sample(f, gnp.asarray(inside(rng, lo, hi, n)), options=opts)
    x = to_np(x)
    ctx.shape(x, (n, 2), "layout")
    check_transport(ctx, crit, x, info, o, lo if boxed else None, hi if boxed else None)
    ctx.raises(lambda: svgd_sample(f, options=opts), "arguments", ValueError)
    ctx.raises(lambda: svgd_sample(f, gnp.asarray(x), n_particles=n + 1, options=opts), "arguments", ValueError)


# -- real models -------------------------------------------------------------------------------------


@REG.scenario(quick=4)
def model_posterior(ctx):
    """Criteria of real models, as produced by parameter selection."""
    import gpmp as gp

    rng = ctx.rng
    d, n = int(rng.integers(1, 3)), 12
    xi, _ = gen.design(rng, n, d)
    zi = np.sin(3 * xi[:, 0]) + 0.1 * rng.standard_normal(n)
    model = gp.core.Model(
        lambda x, p: gnp.ones((x.shape[0], 1)), lambda x, y, p, pairwise=False: gp.kernel.maternp_covariance(x, y, 2, p, pairwise)
    )
    with silent():
        model, info = gp.kernel.select_parameters_with_remap(model, gnp.asarray(xi), gnp.asarray(zi), info=True)
    J = info.selection_criterion_nograd
    cov = to_np(info.covparam)
    lo, hi = cov - 1.0, cov + 1.0
    box = [list(lo), list(hi)]
    which = ["mh", "nuts", "smc", "svgd"][ctx.case % 4]
    gnp.set_seed(int(rng.integers(2**31)))
    seed_defaults(int(rng.integers(2**31)))
    val = lambda th: np.array([-as_float(J(gnp.asarray(t))) for t in np.asarray(th).reshape(-1, len(cov))])
    with silent():
        if which == "mh":
            x, s = pp.sample_from_selection_criterion_mh(info=info, sampling_box=box, n_steps_total=60, burnin_period=20, silent=True,
                                                         plot_chains=False, plot_empirical_distributions=False)
            got, shape = to_np(pp.get_log_target_values(s, discard_burnin=True))[:, :40].ravel(), (2, 40, len(cov))
            ctx.equal(to_np(s.x)[:, 20:60], to_np(x), "post-burnin", msg="samples after burn-in")
        elif which == "nuts":
            x, i = pp.sample_from_selection_criterion_nuts(info=info, sampling_box=box, num_samples=6, num_warmup=4, progress=False, verbose=0,
                                                           max_depth=3, seed=3)
            got, shape = to_np(i["log_prob_trace"]).T.ravel(), (2, 6, len(cov))
        elif which == "smc":
            x, s = pp.sample_from_selection_criterion_smc(info=info, init_box=box, sampling_box=box, n_particles=25, mh_steps=3)
            got, shape = to_np(s.particles.logpx), (25, len(cov))
        else:
            x, i = pp.sample_from_selection_criterion_svgd(info=info, sampling_box=box, n_particles=4, n_steps=4, progress=False, verbose=0)
            got, shape = to_np(i["log_prob_final"]), (4, len(cov))
    x = to_np(x)
    ctx.shape(x, shape, "layout")
    ctx.check(bool(np.all((x >= lo) & (x <= hi))), "in-box", "samples outside the sampling box")
    ctx.close(got, val(x), "stored-values", rtol=1e-7, atol=1e-7, msg="stored log-densities differ from the criterion at the samples")
    ctx.state("model", which, d)
    ctx.note(which=which, d=d)


@REG.scenario(quick=6)
def arguments(ctx):
    """Contradictory or missing arguments are refused."""
    rng = ctx.rng
    crit = Criterion(rng, 2)
    info = source(crit, np.zeros((1, 2)))["info"]
    q = dict(silent=True, plot_chains=False, plot_empirical_distributions=False, n_steps_total=10, burnin_period=0)
    mh_, nuts_, smc_, svgd_ = (getattr(pp, f"sample_from_selection_criterion_{k}") for k in ("mh", "nuts", "smc", "svgd"))
    box = [[-1.0, -1.0], [1.0, 1.0]]
    bad = [
        lambda: mh_(**q),
        lambda: mh_(info=info, selection_criterion=crit, **q),
        lambda: mh_(selection_criterion=crit, param_initial_states=[0.0, 0.0], temperature=0.0, **q),
        lambda: mh_(selection_criterion=crit, param_initial_states=[0.0, 0.0], temperature=-1.0, **q),
        lambda: mh_(info=info, random_init=True, **q),
        lambda: mh_(selection_criterion=crit, init_box=box, **q),
        lambda: mh_(selection_criterion=crit, param_initial_states=np.zeros((5, 2)), n_chains=3, **q),
        lambda: mh_(selection_criterion=crit, param_initial_states=[0.0, 0.0], sampling_box=[[0.0] * 3, [1.0] * 3], **q),
        lambda: nuts_(),
        lambda: nuts_(info=info, random_init=True),
        lambda: nuts_(selection_criterion=crit, param_initial_states=np.zeros((5, 2)), n_chains=3),
        lambda: smc_(selection_criterion=crit),
        lambda: smc_(init_box=box),
        lambda: svgd_(selection_criterion=crit),
        lambda: svgd_(selection_criterion=crit, random_init=True, sampling_box=box),
    ]
    for i, f in enumerate(bad):
        with silent():
            ctx.raises(f, f"refused-{i}", ValueError)
    ctx.state("arguments", ctx.case % 2)


@REG.offline_check
def pooled(records, meta):
    """Deviations too small for one run, summed over the runs; initial states uniform on their box."""
    n, out, free, init = 0, [], {}, {}
    for backend, cases in records.items():
        for key, recs in cases.items():
            for name, value in recs:
                if name.startswith("init:"):
                    init.setdefault((backend, name), []).extend(value)
                else:
                    free.setdefault((backend, name), []).append(value[0])
    for (backend, name), vals in init.items():
        if len(vals) < 40:
            continue
        n += 1
        p = stats.ks_uniform(np.array(vals))
        if p < stats.ALPHA:
            out.append(offline_violation(meta, name, f"pooled-{name}", f"random initial states are not uniform on the initial box (p={p:.2g})", backend=backend))
    for (backend, name), vals in free.items():
        vals = np.array(vals)
        if len(vals) < 8:
            continue
        n += 1
        sd = max(1.0, float(vals.std()))
        if abs(vals.mean()) > 0.6 + 6.5 * sd / math.sqrt(len(vals)):
            out.append(offline_violation(meta, name, f"pooled-{name}", f"{name}: mean deviation {vals.mean():.2f} (sd {sd:.2f}, {len(vals)} runs)", backend=backend))
    return n, out
