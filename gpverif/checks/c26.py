"""C26: figures show the quantities they name.

The library draws on a non-interactive canvas; the monitors read the artists back (curves, filled
bands, error bars, histogram outlines, contour data) and compare what is drawn with the same
quantities computed from the raw data. Every prediction asked from a model while a figure is drawn
is recorded.
"""

import contextlib
import io
import math
import warnings
from types import SimpleNamespace

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.axes import Axes
from matplotlib.collections import PathCollection
from matplotlib.collections import PolyCollection
from matplotlib.patches import Polygon, Rectangle
from scipy import stats as st

import gpmp as gp
import gpmp.num as gnp
from gpmp.mcmc import mh, nuts, smc, svgd
from gpmp.modeldiagnosis import plotting
from gpmp.plot import plotutils

from .. import gen
from ..core import Registry, as_float, to_np

REG = Registry(
    "C26",
    rule="one evaluation = one drawn curve, band, bar, histogram or contour field against the quantity it stands for",
    assumptions=["colours, sizes and label texts are not judged", "predictions and criteria handed to the figures are judged by C01 and C04"],
    more=6,
)


@contextlib.contextmanager
def drawing():
    """Fresh canvas; yields the list of contour fields drawn."""
    plt.close("all")
    fields, saved = [], {}

    def recorder(real):
        def call(self, *args, **kw):
            fields.append([np.array(to_np(a), dtype=float) for a in args[:3]])
            return real(self, *args, **kw)

        return call

    for name in ("contour", "contourf"):
        saved[name] = getattr(Axes, name)
        setattr(Axes, name, recorder(saved[name]))
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield fields
    finally:
        for name, f in saved.items():
            setattr(Axes, name, f)
        plt.close("all")


def form(rng, a):
    """Backend array, NumPy array, or either as a column."""
    a = np.array(a, dtype=float)
    if rng.uniform() < 0.4:
        a = a.reshape(-1, 1)
    return gnp.asarray(a) if rng.uniform() < 0.6 else a


def xy(line):
    return np.array(to_np(line.get_xdata()), dtype=float).ravel(), np.array(to_np(line.get_ydata()), dtype=float).ravel()


def find_curve(ctx, ax, x, y, key, msg, rtol=1e-10, atol=0.0, many=False):
    """Some curve of the axes has these points (in this order)."""
    hits = 0
    for l in ax.get_lines():
        a, b = xy(l)
        if a.shape == x.shape and np.allclose(a, x, rtol=rtol, atol=atol) and np.allclose(b, y, rtol=rtol, atol=atol, equal_nan=True):
            hits += 1
    ctx.check(hits >= 1 if many else hits == 1, key, f"{msg}: {hits} curves show it")
    return hits


def bands(ax):
    """Filled bands of the axes, drawn as polygons or as areas between two curves."""
    return [p for p in ax.patches if isinstance(p, Polygon)] + [c for c in ax.collections if isinstance(c, PolyCollection)]


def band_edges(band, x):
    """Lowest and highest ordinates of a filled band at each abscissa."""
    if isinstance(band, PolyCollection):
        v = np.concatenate([np.array(p.vertices, dtype=float) for p in band.get_paths()])
    else:
        v = np.array(band.get_xy(), dtype=float)
    lo, hi = np.empty(len(x)), np.empty(len(x))
    for i, t in enumerate(x):
        k = np.flatnonzero(v[:, 0] == t)
        if not len(k):
            return None
        lo[i], hi[i] = v[k, 1].min(), v[k, 1].max()
    return lo, hi


def check_bands(ctx, ax, x, mean, var, levels, key):
    polys = bands(ax)
    ctx.require(len(polys) == len(levels), key + "-count", f"{len(polys)} bands drawn for {len(levels)} levels")
    got = [band_edges(p, x) for p in polys]
    ctx.require(all(g is not None for g in got), key + "-abscissas", "band does not pass through the points")
    order = np.argsort([-np.nanmax(g[1] - g[0]) for g in got], kind="stable")
    for k, lev in zip(order, sorted(levels, reverse=True)):
        half = st.norm.isf((1 - lev) / 2) * np.sqrt(var)
        scale = float(np.max(np.abs(mean)) + np.max(half)) + 1e-300
        ctx.close(got[k][0], mean - half, key + "-lower", rtol=1e-9, atol=1e-12 * scale, msg=f"lower edge at level {lev}")
        ctx.close(got[k][1], mean + half, key + "-upper", rtol=1e-9, atol=1e-12 * scale, msg=f"upper edge at level {lev}")
        # coverage of the drawn interval under the plotted law
        j = int(np.argmax(var))
        if var[j] > 0 and half[j] > 1e-6 * scale:
            s = math.sqrt(var[j])
            cover = st.norm.cdf((got[k][1][j] - mean[j]) / s) - st.norm.cdf((got[k][0][j] - mean[j]) / s)
            ctx.close(cover, lev, key + "-coverage", rtol=1e-4, atol=1e-6, msg="probability of the drawn interval")
    # wider bands must not hide narrower ones
    widths = [np.nanmax(g[1] - g[0]) for g in got]
    z = [p.get_zorder() for p in polys]
    if len(set(z)) == 1:
        ctx.check(all(a >= b for a, b in zip(widths, widths[1:])), key + "-stacking", "a wide band is drawn over a narrow one")


@REG.scenario(quick=16)
def posterior_bands(ctx):
    rng = ctx.rng
    n = int(rng.choice([2, 3, int(rng.integers(4, 60))]))
    x = np.sort(rng.uniform(-5, 5, n)) * 10.0 ** rng.integers(-3, 4)
    mean = rng.standard_normal(n) * 10.0 ** rng.integers(-4, 5) + float(rng.choice([0, 0, 50]))
    var = rng.uniform(0, 1, n) ** 2 * 10.0 ** rng.integers(-8, 7)
    if rng.uniform() < 0.5:
        var[rng.integers(n)] = 0.0
    var[int(rng.integers(n))] += 10.0 ** rng.integers(-6, 3)
    scheme = str(rng.choice(["default", "default", "simple", "bw", "hue"]))
    kw = dict(colorscheme=scheme)
    if scheme == "hue":
        kw["rgb_hue"] = tuple(int(v) for v in rng.integers(0, 256, 3))
    levels = [0.95, 0.99, 0.999]
    own = rng.uniform() < 0.5
    if own:
        levels = sorted(float(v) for v in rng.choice([0.2, 0.5, 0.8, 0.9, 0.95, 0.99, 0.9999], size=int(rng.integers(1, 4)), replace=False))
        kw.update(ci=list(levels), ci_labels=[str(v) for v in levels])
    if rng.uniform() < 0.3:
        kw.update(show_mean_label=False, show_ci_labels=False)
    if scheme == "default" and len(levels) > 3:
        levels = levels[:3]
    shown = levels if scheme == "default" else levels[:1]
    nrows, ncols = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    args = [form(rng, a) for a in (x, mean, var)]
    before = [to_np(a) for a in args]
    with drawing():
        fig = plotutils.Figure(nrows, ncols)
        k = int(rng.integers(nrows * ncols))
        fig.subplot(k + 1)
        ctx.check(len(fig.axes) == nrows * ncols, "panels", f"{len(fig.axes)} panels")
        fig.plotgp(*args, **kw)
        xd, zd = rng.uniform(x[0], x[-1], 4), rng.standard_normal(4)
        fig.plotdata(form(rng, xd), form(rng, zd))
        ax = fig.axes[k]
        find_curve(ctx, ax, x, mean, "mean-curve", "posterior mean")
        check_bands(ctx, ax, x, mean, var, shown, "band")
        find_curve(ctx, ax, xd, zd, "data-points", "observations")
        for j, other in enumerate(fig.axes):
            if j != k:
                ctx.check(not other.get_lines() and not bands(other), "panel-choice", "drawn in another panel")
        if scheme == "bw":
            half = st.norm.isf((1 - shown[0]) / 2) * np.sqrt(var)
            for s in (1, -1):
                find_curve(ctx, ax, x, mean + s * half, "band-outline", "outline of the band", rtol=1e-9, atol=1e-12 * np.abs(mean).max(), many=True)
    for a, b in zip(args, before):
        ctx.check(np.array_equal(to_np(a), b), "inputs-unchanged", "plotting changed its arguments")
    ctx.state("bands", scheme, len(shown), own, n > 3)
    ctx.note(scheme=scheme, levels=shown, n=n)


class Watched:
    """Records what is asked from a model."""

    def __init__(self, model):
        self.model, self.asked = model, []

    def predict(self, xi, zi, xt, *a, **k):
        out = self.model.predict(xi, zi, xt, *a, **k)
        self.asked.append((to_np(xi), to_np(zi), to_np(xt)))
        return out


@REG.scenario(quick=10)
def sections(ctx):
    rng = ctx.rng
    d = int(rng.integers(1, 5))
    n = int(rng.integers(d + 2, 14))
    xi = rng.uniform(0, 1, (n, d))
    zi = rng.standard_normal(n)
    p = int(rng.integers(0, 3))
    covparam = np.concatenate(([rng.normal()], rng.uniform(-0.5, 1.5, d)))
    cov = lambda a, b, c, pairwise=False: gp.kernel.maternp_covariance(a, b, p, c, pairwise)
    mean = lambda a, c: gnp.ones((a.shape[0], 1))
    model = gp.core.Model(mean, cov, None, gnp.asarray(covparam))
    watched = Watched(model)
    lo, hi = -rng.uniform(0, 0.5, d), 1 + rng.uniform(0, 0.5, d)
    box = [list(lo), list(hi)] if rng.uniform() < 0.5 else np.array([lo, hi])
    nt = int(rng.integers(2, 24))
    kw = dict(nt=nt)
    how = str(rng.choice(["default", "min", "max", "int", "list"]))
    if how == "default":
        anchors = [int(np.argmin(zi))]
        if rng.uniform() < 0.5:
            kw["ind_i"] = None
    elif how in ("min", "max"):
        anchors = [int(np.argmin(zi) if how == "min" else np.argmax(zi))]
        kw["ind_i"] = how
    elif how == "int":
        anchors = [int(rng.integers(n))]
        kw["ind_i"] = anchors[0]
    else:
        anchors = [int(v) for v in rng.permutation(n)[: int(rng.integers(1, 4))]]
        kw["ind_i"] = anchors if rng.uniform() < 0.5 else np.array(anchors)
    dims = list(range(d))
    which = str(rng.choice(["all", "int", "list"]))
    if which == "int":
        dims = [int(rng.integers(d))]
        kw["ind_dim"] = dims[0]
    elif which == "list":
        dims = [int(v) for v in rng.permutation(d)[: int(rng.integers(1, d + 1))]]
        kw["ind_dim"] = dims
    show = bool(rng.uniform() < 0.6)
    kw["show_data"] = show
    z_arg = zi.reshape(-1, 1) if rng.uniform() < 0.3 else zi
    with drawing():
        fig = plotutils.crosssections(watched, gnp.asarray(xi), gnp.asarray(z_arg), box, **kw)
        ctx.require(len(fig.axes) == len(anchors) * len(dims), "panel-count", f"{len(fig.axes)} panels")
        for r, j in enumerate(dims):
            for c, i in enumerate(anchors):
                ax = fig.axes[r * len(anchors) + c]
                t = np.sort(np.concatenate((np.linspace(lo[j], hi[j], nt - 1), [xi[i, j]])))
                xt = np.repeat(xi[i : i + 1], nt, axis=0)
                xt[:, j] = t
                zpm, zpv = (np.ravel(to_np(v)) for v in model.predict(gnp.asarray(xi), gnp.asarray(zi), gnp.asarray(xt)))
                zpv = np.maximum(zpv, 0)
                find_curve(ctx, ax, t, zpm, "section-mean", f"prediction along input {j} through observation {i}", rtol=1e-7, atol=1e-7)
                polys = bands(ax)
                ctx.require(len(polys) == 3, "section-bands", f"{len(polys)} bands")
                widths = []
                for q in polys:
                    e = band_edges(q, t)
                    ctx.require(e is not None, "section-abscissas", "band does not pass through the section")
                    widths.append(e)
                widths.sort(key=lambda e: np.sum(e[1] - e[0]))
                for e, lev in zip(widths, (0.95, 0.99, 0.999)):
                    half = st.norm.isf((1 - lev) / 2) * np.sqrt(zpv)
                    ctx.close((e[1] - e[0]) / 2, half, "section-width", rtol=1e-6, atol=1e-6, msg=f"half width at level {lev}")
                    ctx.close((e[1] + e[0]) / 2, zpm, "section-centre", rtol=1e-7, atol=1e-7, msg="centre of the band")
                if show:
                    find_curve(ctx, ax, xi[:, j], zi, "section-data", "projected observations", many=n == 1)
                    find_curve(ctx, ax, xi[i : i + 1, j], zi[i : i + 1], "section-anchor", "anchor observation")
                marks = [xy(l)[0] for l in ax.get_lines() if len(xy(l)[0]) == 2 and len(set(xy(l)[0])) == 1]
                ctx.check(any(np.allclose(m, xi[i, j]) for m in marks), "section-mark", "no vertical line at the anchor")
        for a, b, _ in watched.asked:
            ctx.check(np.array_equal(a, xi) and np.array_equal(np.ravel(b), zi), "section-data-used", "predicted from other data")
        ctx.check(len(watched.asked) >= 1, "section-calls", "no prediction was asked for")
        bad = [dict(ind_i=n), dict(ind_dim=d), dict(nt=1), dict(ind_i="mean")]
        b = bad[int(rng.integers(len(bad)))]
        ctx.raises(lambda: plotutils.crosssections(watched, gnp.asarray(xi), gnp.asarray(zi), box, **b), "section-refusal", (ValueError, IndexError))
    ctx.state("sections", d, how, which, show, len(anchors) > 1)
    ctx.note(d=d, how=how, dims=dims, anchors=anchors, nt=nt)


@REG.scenario(quick=10)
def leave_one_out_plot(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, int(rng.integers(3, 80))]))
    s = 10.0 ** rng.integers(-4, 5)
    z, m = s * rng.standard_normal(n), s * rng.standard_normal(n)
    v = (s * rng.uniform(0, 1, n)) ** 2
    with drawing():
        plotutils.plot_loo(gnp.asarray(z), gnp.asarray(m), gnp.asarray(v))
        ax = plt.gcf().axes[0]
        ctx.require(len(ax.containers) == 1, "loo-bars", f"{len(ax.containers)} sets of error bars")
        line, _, bars = ax.containers[0]
        x, y = xy(line)
        ctx.close(x, z, "loo-abscissas", rtol=1e-12, msg="observed values")
        ctx.close(y, m, "loo-ordinates", rtol=1e-12, msg="predicted values")
        seg = np.array(bars[0].get_segments())
        ctx.require(seg.shape == (n, 2, 2), "loo-segments", f"segments {seg.shape}")
        seg = np.sort(seg, axis=1)
        half = st.norm.isf(0.025) * np.sqrt(v)
        ctx.close(seg[:, :, 0], np.stack([z, z], 1), "loo-bar-place", rtol=1e-12, msg="place of the bars")
        ctx.close(seg[:, 1, 1] - m, half, "loo-bar-upper", rtol=1e-3, atol=1e-9 * s, msg="95% interval, upper")
        ctx.close(m - seg[:, 0, 1], half, "loo-bar-lower", rtol=1e-3, atol=1e-9 * s, msg="95% interval, lower")
        diag = [xy(l) for l in ax.get_lines() if len(xy(l)[0]) == 2 and l is not line]
        ok = [a for a, b in diag if np.allclose(a, b) and a.min() <= min(z.min(), m.min()) and a.max() >= max(z.max(), m.max())]
        ctx.check(len(ok) >= 1 or n == 2, "loo-diagonal", "the line of perfect predictions is missing or too short")
    ctx.state("loo", n if n < 3 else 3)
    ctx.note(n=n)


@REG.scenario(quick=10)
def pit_curve(ctx):
    """The drawn step function is the empirical distribution function up to one step."""
    rng = ctx.rng
    n = int(rng.choice([2, 3, int(rng.integers(4, 200))]))
    pit = rng.uniform(0, 1, n) ** float(rng.choice([0.3, 1, 3]))
    if rng.uniform() < 0.3:
        pit = np.round(pit, 1)
    with drawing():
        plotting.plot_pit_ecdf(form(rng, pit))
        ax = plt.gcf().axes[0]
        lines = sorted(ax.get_lines(), key=lambda l: -len(xy(l)[0]))
        step = lines[0]
        x, y = xy(step)
        if len(x) <= 2 and n > 1:
            ctx.require(False, "pit-curve", "no step function")
        where = step.get_drawstyle()
        u = rng.uniform(0, 1, 40)
        for v in u:
            k = int(np.searchsorted(x, v))  # x[k-1] < v <= x[k]
            if where == "steps-pre" or where == "steps":
                got = y[k] if k < len(x) else y[-1]
            elif where == "steps-post":
                got = y[k - 1] if k else 0.0
            else:
                got = np.interp(v, x, y)
            want = np.mean(pit <= v)
            ctx.check(abs(got - want) <= 1.0 / n + 1e-9, "pit-ecdf", f"{got} drawn, {want} is the empirical distribution at {v}")
        ctx.check(np.all(np.diff(x) >= 0) and np.all(np.diff(y) >= -1e-12), "pit-monotone", "the curve is not increasing")
        ctx.check(any(np.array_equal(xy(l), [[0, 1], [0, 1]]) for l in lines), "pit-uniform", "the uniform law is not shown")
    ctx.state("pit", min(n, 4))
    ctx.note(n=n)


class Field:
    """Smooth criterion with recorded evaluations."""

    def __init__(self, rng, dim):
        self.a, self.b = rng.uniform(0.3, 2, dim), rng.standard_normal(dim)
        self.m = rng.standard_normal((dim, dim)) * 0.2
        self.off = float(rng.choice([0.0, 50.0, -50.0]))
        self.points = []

    def value(self, p):
        p = np.asarray(p, dtype=float)
        return float(np.sum(self.a * (p - self.b) ** 2) + p @ self.m @ p + self.off)

    def __call__(self, p):
        p = to_np(p).ravel()
        self.points.append(p)
        return self.value(p)


@REG.scenario(quick=6)
def criterion_field(ctx):
    rng = ctx.rng
    dim = int(rng.integers(2, 5))
    f = Field(rng, dim)
    stored, opt, start = (rng.standard_normal(dim) * 0.7 for _ in range(3))
    if rng.uniform() < 0.6:
        opt = stored.copy()
    info = SimpleNamespace(selection_criterion_nograd=f, covparam=gnp.asarray(opt.copy()))
    has0 = rng.uniform() < 0.6
    if has0:
        info.covparam0 = gnp.asarray(start.copy())
    model = SimpleNamespace(covparam=gnp.asarray(stored.copy()))
    n, factor, shift = int(rng.integers(3, 9)), float(rng.uniform(1.5, 6)), bool(rng.uniform() < 0.7)
    kw = dict(n=n, factor=factor, shift_criterion=shift)
    i, j = (int(v) for v in rng.permutation(dim)[:2])
    with drawing() as fields:
        if rng.uniform() < 0.4:
            i, j = 0, 1
            plotting.plot_selection_criterion_sigma_rho(model, info, **kw)
        else:
            plotting.plot_selection_criterion_2d(model, info, param_indices=(i, j), **kw)
        ctx.require(len(fields) == 1 and len(fields[0]) == 3, "field-count", f"{len(fields)} fields drawn")
        gx, gy, gz = fields[0]
        if gx.ndim == 1 and gy.ndim == 1:
            gx, gy = np.meshgrid(gx, gy)
        ctx.require(gx.shape == gy.shape == gz.shape == (n, n), "field-shape", f"{gx.shape} {gz.shape}")
        lg = lambda q, v: 0.5 * v / math.log(10) if q == 0 else -v / math.log(10)
        un = lambda q, v: 2 * v * math.log(10) if q == 0 else -v * math.log(10)
        span = lambda q: np.linspace(lg(q, stored[q]) - math.log10(factor), lg(q, stored[q]) + math.log10(factor), n)
        ctx.close(np.sort(np.unique(np.round(gx, 9))), np.round(span(i), 9), "field-range", rtol=1e-7, atol=1e-7, msg="range of the first parameter")
        ctx.close(np.sort(np.unique(np.round(gy, 9))), np.round(span(j), 9), "field-range", rtol=1e-7, atol=1e-7, msg="range of the second parameter")
        raw = np.empty((n, n))
        for a in range(n):
            for b in range(n):
                p = opt.copy()
                p[i], p[j] = un(i, gx[a, b]), un(j, gy[a, b])
                raw[a, b] = f.value(p)
        want = np.log10(np.maximum(1e-2, raw - (raw.min() if shift else 0.0)))
        ctx.close(gz, want, "field-values", rtol=1e-5, atol=1e-6, msg="criterion over the two parameters")
        ctx.check(len({tuple(p) for p in f.points}) >= n * n - n, "field-evaluations", f"{len(f.points)} evaluations for {n * n} points")
        pts = [tuple(np.ravel(v)[0] for v in xy(l)) for ax in plt.gcf().axes for l in ax.get_lines() if len(xy(l)[0]) == 1]
        has = lambda p: any(abs(a - lg(i, p[i])) < 1e-6 and abs(b - lg(j, p[j])) < 1e-6 for a, b in pts)
        ctx.check(has(opt), "field-optimum", "the selected parameters are not marked")
        if has0:
            ctx.check(has(start), "field-start", "the initial parameters are not marked")
        ctx.check(np.array_equal(to_np(info.covparam), opt) and np.array_equal(to_np(model.covparam), stored), "field-inputs", "plotting changed the parameters")
    ctx.state("field", dim, i == 0, j == 0, has0, shift)
    ctx.note(dim=dim, pair=[i, j], n=n, shift=shift)


def histogram_density(ax, which=None):
    """Histograms of the axes as lists of (left, right, height), in drawing order."""
    out = []
    for c in ax.containers:
        r = [p for p in getattr(c, "patches", []) if isinstance(p, Rectangle)]
        if r:
            out.append([(p.get_x(), p.get_x() + p.get_width(), p.get_height()) for p in r])
    if not out:
        for p in ax.patches:
            if isinstance(p, Polygon):
                v = np.array(p.get_xy())
                bars = [(a[0], b[0], a[1]) for a, b in zip(v[:-1], v[1:]) if a[1] == b[1] and b[0] > a[0]]
                out.append(bars)
    return out


def check_histogram(ctx, bars, vals, bins, key):
    want, edges = np.histogram(vals, bins=bins, density=True)
    got = np.zeros(bins)
    mass = 0.0
    for l, r, h in bars:
        mass += (r - l) * h
        inside = [k for k in range(bins) if edges[k] >= l - 1e-9 * (1 + abs(l)) and edges[k + 1] <= r + 1e-9 * (1 + abs(r))]
        for k in inside:
            got[k] = h
    ctx.close(got, want, key + "-heights", rtol=1e-6, atol=1e-9 * (want.max() + 1e-300), msg="histogram")
    ctx.close(mass, 1.0, key + "-mass", rtol=1e-9, msg="histogram mass")


def check_kde(ctx, line, vals, key):
    x, y = xy(line)
    lo, hi = vals.min(), vals.max()
    ctx.check(x.min() <= lo and x.max() >= hi, key + "-range", "the density does not cover the sample")
    ctx.close(y, st.gaussian_kde(vals)(x), key + "-values", rtol=1e-7, atol=1e-12, msg="density estimate")


@REG.scenario(quick=8)
def chain_plots(ctx):
    rng = ctx.rng
    dim, nch = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    gnp.set_seed(int(rng.integers(2**31)))
    steps = int(rng.integers(60, 200))
    burn = int(rng.integers(0, steps // 2))
    opts = mh.MHOptions(dim=dim, n_chains=nch, show_global_progress=False)
    with drawing():
        s = mh.MetropolisHastings(lambda q: -0.5 * gnp.sum(q * q), options=opts)
        s.scheduler(chains_state_initial=gnp.asarray(rng.standard_normal((nch, dim))), n_steps_total=steps, burnin_period=burn)
    x = to_np(s.x)
    rates = None if s.rates is None else to_np(s.rates)
    ind = [int(v) for v in rng.permutation(dim)[: int(rng.integers(1, dim + 1))]]
    sub = rng.uniform() < 0.5
    show_rate = bool(rng.uniform() < 0.5)
    with drawing():
        s.plot_chains(parameter_indices=ind if sub else None, show_rate=show_rate)
        axes = plt.gcf().axes
        shown = ind if sub else list(range(dim))
        ctx.require(len(axes) == len(shown) + show_rate, "trace-panels", f"{len(axes)} panels")
        for ax, j in zip(axes, shown):
            tr = [xy(l)[1] for l in ax.get_lines() if len(xy(l)[0]) > 2]
            ctx.require(len(tr) == nch, "trace-count", f"{len(tr)} traces for {nch} chains")
            for c in range(nch):
                # the trace may or may not include the last state
                ctx.check(len(tr[c]) in (steps, steps + 1), "trace-length", f"{len(tr[c])} points for {steps} steps")
                ctx.close(tr[c], x[c, : len(tr[c]), j], "trace-values", rtol=1e-12, msg=f"trace of parameter {j}, chain {c}")
            marks = [xy(l)[0] for l in ax.get_lines() if len(xy(l)[0]) == 2]
            ctx.check(bool(marks) == (burn > 0) and all(np.all(m == burn) for m in marks), "trace-burnin", f"marks at {marks}, burn-in {burn}")
        if show_rate and rates is not None:
            tr = [xy(l)[1] for l in axes[-1].get_lines() if len(xy(l)[0]) > 2]
            ctx.require(len(tr) == nch, "rate-count", f"{len(tr)} rates for {nch} chains")
            for c in range(nch):
                ctx.close(tr[c], rates[c, : len(tr[c])], "rate-values", rtol=1e-12, msg="acceptance rates")
    smooth, bins = bool(rng.uniform() < 0.5), int(rng.integers(3, 30))
    own = rng.uniform() < 0.5
    b = int(rng.integers(0, steps // 2)) if own else burn
    kw = dict(parameter_indices=ind if sub else None, bins=bins, smooth=smooth)
    if own:
        kw["burnin"] = b
    varied = [len(np.unique(x[c, b:steps, j])) > 2 for c in range(nch) for j in range(dim)]
    if all(varied):
        with drawing():
            s.plot_empirical_distributions(**kw)
            axes = plt.gcf().axes
            ctx.require(len(axes) == len(shown), "law-panels", f"{len(axes)} panels")
            for ax, j in zip(axes, shown):
                if smooth:
                    lines = [l for l in ax.get_lines()]
                    ctx.require(len(lines) == nch, "law-count", f"{len(lines)} densities")
                    for c in range(nch):
                        check_kde(ctx, lines[c], x[c, b:steps, j], "law-density")
                else:
                    hs = histogram_density(ax)
                    ctx.require(len(hs) == nch, "law-count", f"{len(hs)} histograms")
                    # step histograms are drawn in the order of the chains
                    for c in range(nch):
                        check_histogram(ctx, hs[c], x[c, b:steps, j], bins, "law-histogram")
    ctx.state("chains", dim, nch, burn > 0, smooth, sub)
    ctx.note(dim=dim, chains=nch, steps=steps, burnin=burn)


@REG.scenario(quick=8)
def particle_plots(ctx):
    rng = ctx.rng
    dim, n = int(rng.integers(1, 4)), int(rng.integers(3, 120))
    x = rng.standard_normal((n, dim)) * 10.0 ** rng.integers(-2, 3, dim)
    kind = str(rng.choice(["smc", "svgd", "svgd-info"]))
    one = [int(v) for v in rng.permutation(dim)[: int(rng.integers(1, dim + 1))]]
    pool = [int(v) for v in rng.permutation(dim)[: int(rng.integers(1, dim + 1))]]
    mode = int(rng.integers(3))
    kw = dict(bins=int(rng.integers(2, 30)))
    if mode != 1:
        kw["parameter_indices"] = one
    if mode != 0:
        kw["parameter_indices_pooled"] = pool
    kept = np.ones(n, dtype=bool)
    coincide = kind != "smc" and rng.uniform() < 0.3
    if coincide:
        x[:, int(rng.integers(dim))] = 0.5
    with drawing():
        if kind == "smc":
            s = smc.SMC([[-1.0] * dim, [1.0] * dim], n=n)
            s.particles.x = gnp.asarray(x)
            s.plot_empirical_distributions(**kw)
        elif kind == "svgd":
            figs = svgd.plot_svgd_empirical_distributions(gnp.asarray(x) if rng.uniform() < 0.5 else x, **kw)
        else:
            lp = rng.standard_normal(n)
            drop = rng.uniform(size=n) < 0.3
            drop[rng.permutation(n)[:3]] = False
            lp[drop] = rng.choice([-np.inf, np.nan])
            kept = ~drop
            figs = svgd.plot_svgd_empirical_distributions(dict(particles_final=gnp.asarray(x), log_prob_final=gnp.asarray(lp)), **kw)
        if kind != "smc":
            ctx.check((figs["individual"] is not None) == (mode != 1) and (figs["pooled"] is not None) == (mode != 0), "figures-returned", f"{figs}")
        figures = [plt.figure(k) for k in plt.get_fignums()]
        ctx.require(len(figures) == (2 if mode == 2 else 1), "figure-count", f"{len(figures)} figures")
        if mode != 1:
            axes = figures[0].axes
            ctx.require(len(axes) == len(one), "particle-panels", f"{len(axes)} panels")
            panels = [(ax, [j]) for ax, j in zip(axes, one)]
        else:
            panels = []
        if mode != 0:
            panels.append((figures[-1].axes[0], pool))
        for ax, cols in panels:
            hs = histogram_density(ax)
            ctx.require(len(hs) == len(cols), "particle-histograms", f"{len(hs)} histograms")
            lines = list(ax.get_lines())
            vary = [j for j in cols if np.ptp(x[kept, j]) > 0]
            ctx.require(len(lines) == len(vary), "particle-densities", f"{len(lines)} density curves for {len(vary)} parameters")
            for h, j in zip(hs, cols):
                if j in vary:
                    check_histogram(ctx, h, x[kept, j], kw["bins"], "particle-histogram")
            for l, j in zip(lines, vary):
                check_kde(ctx, l, x[kept, j], "particle-density")
    if kind != "smc":
        q = rng.standard_normal((int(rng.integers(1, 30)), 2))
        grid, obj = int(rng.integers(3, 8)), bool(rng.uniform() < 0.6)
        with drawing() as fields:
            svgd.plot_svgd_particles(gnp.asarray(q), title="t", objective=(lambda v: float(v[0] ** 2 + 2 * v[1])) if obj else None, grid_n=grid)
            pc = [c for ax in plt.gcf().axes for c in ax.collections if isinstance(c, PathCollection)]
            ctx.require(len(pc) == 1, "scatter-count", f"{len(pc)} clouds")
            ctx.close(np.array(pc[0].get_offsets()), q, "scatter-points", rtol=1e-12, msg="particles")
            ctx.check(len(fields) == int(obj), "scatter-field", f"{len(fields)} fields")
            for gx, gy, gz in fields:
                ctx.close(gz, gx**2 + 2 * gy, "scatter-objective", rtol=1e-9, atol=1e-12, msg="objective")
        ctx.raises(lambda: svgd.plot_svgd_empirical_distributions(x, parameter_indices=[dim]), "particle-refusal", ValueError)
    ctx.state("particles", kind, mode, dim, coincide)
    ctx.note(kind=kind, n=n, dim=dim, mode=mode)


@REG.scenario(quick=8)
def run_plots(ctx):
    """Stages of an SMC run and diagnostics of a NUTS run as drawn."""
    rng = ctx.rng
    # SMC log
    stages, log = 0, []
    for _ in range(int(rng.integers(1, 5))):
        for _ in range(int(rng.integers(1, 3))):
            log.append(dict(stage=stages, target_logpdf_param=float(rng.uniform(1, 2)), current_logpdf_param=float(rng.uniform(0, 1)),
                            ess=float(rng.uniform(1, 50)), acceptation_rate_sequence=list(rng.uniform(0, 1, int(rng.integers(0, 4)))),
                            execution_state="x", timestamp=0.0, num_particles=50))
        stages += 1
    with drawing():
        s = smc.SMC([[-1.0], [1.0]], n=50)
        s.log = log
        s.plot_state()
        axes = plt.gcf().axes
        rows = [(e, a) for e in log for a in (e["acceptation_rate_sequence"] or [0.0])]
        T = len(rows)
        tx = np.ravel([[k, k + 1] for k in range(T)]).astype(float)
        want = {k: np.repeat([e[k] for e, _ in rows], 2) for k in ("target_logpdf_param", "current_logpdf_param", "ess")}
        for k, v in want.items():
            hit = 0
            for ax in axes:
                for l in ax.get_lines():
                    a, b = xy(l)
                    hit += a.shape == tx.shape and np.array_equal(a, tx) and np.allclose(b, v, rtol=1e-12)
            ctx.check(hit >= 1, "stage-" + k, "not shown")
        acc = np.array([a for _, a in rows])
        ctx.check(any(xy(l)[1].shape == acc.shape and np.allclose(xy(l)[1], acc) for ax in axes for l in ax.get_lines()), "stage-acceptance", "acceptance rates are not shown")
        marks = sorted(float(xy(l)[0][0]) for ax in axes for l in ax.get_lines() if l.get_transform() != ax.transData and len(set(xy(l)[0])) == 1)
        st_of = [e["stage"] for e, _ in rows]
        ctx.close(np.array(marks), np.array([k for k in range(1, T) if st_of[k] != st_of[k - 1]], dtype=float), "stage-marks", rtol=0, atol=1e-9, msg="stage changes")
    # NUTS diagnostics
    nw, ns, nch = int(rng.integers(2, 60)), int(rng.integers(2, 60)), int(rng.integers(1, 4))
    shape = lambda k: (k, nch) if rng.uniform() < 0.7 else (k,)
    raw = dict(warmup_step_size=rng.uniform(size=nw), warmup_accept_stat=rng.uniform(size=shape(nw)), warmup_divergent=rng.uniform(size=shape(nw)) < 0.3,
               accept_stat=rng.uniform(size=shape(ns)), divergent=rng.uniform(size=shape(ns)) < 0.3)
    win = int(rng.choice([1, 2, 5, 20, 50]))
    info = {k: gnp.asarray(v) if v.dtype != bool else (gnp.asarray(v.astype(float)) > 0.5) for k, v in raw.items()}
    with drawing():
        figs = nuts.plot_nuts_diagnostics(info, window=win)
        ctx.require(len(figs) == 5, "nuts-figures", f"{len(figs)} figures")
        avg = lambda v: v.mean(axis=1) if v.ndim > 1 else v.astype(float)
        seq = [raw["warmup_step_size"], avg(raw["warmup_accept_stat"]), avg(raw["warmup_divergent"]), avg(raw["accept_stat"]), avg(raw["divergent"])]
        for k, (fig, v) in enumerate(zip(figs, seq)):
            lines = fig.axes[0].get_lines()
            a, b = xy(lines[0])
            ctx.close(b, v, "nuts-trace", rtol=1e-9, atol=1e-12, msg=f"trace {k}")
            if k in (1, 3) and win > 1 and len(v) >= win:
                ctx.require(len(lines) == 2, "nuts-average-drawn", "no moving average")
                a, b = xy(lines[1])
                ctx.close(a, np.arange(win - 1, len(v)).astype(float), "nuts-average-place", rtol=0, atol=1e-9, msg="abscissas of the moving average")
                ctx.close(b, np.array([v[q - win + 1 : q + 1].mean() for q in range(win - 1, len(v))]), "nuts-average", rtol=1e-9, atol=1e-12, msg="moving average")
            else:
                ctx.check(len(lines) == 1, "nuts-average-drawn", "unexpected curve")
    ctx.state("runs", min(stages, 3), win > 1 and nw >= win)
    ctx.note(stages=stages, rows=T, window=win, warmup=nw, samples=ns)
