"""C21: diagnostics, performance figures and tables equal their definitions.

Every figure is recomputed from the raw data by plain NumPy code; tables are followed by a
dictionary model through random histories of operations; printed reports are captured and parsed;
posterior statistics are compared with quadrature on a fine grid; plotted curves are read back from
the figure.
"""

import contextlib
import io
import math
import warnings
from types import SimpleNamespace

import numpy as np
from scipy import stats as st

import gpmp as gp
import gpmp.num as gnp
import gpmp.modeldiagnosis as md
from gpmp.misc.dataframe import DataFrame, ftos

from .. import gen
from ..core import Registry, as_float, to_np

REG = Registry(
    "C21",
    more=4,
    rule="one evaluation = one figure, table entry, label, printed number or plotted curve against its definition",
    assumptions=["models handed to the diagnostics are judged by C01, C03 and C08; here their outputs are taken as given"],
)


@contextlib.contextmanager
def captured():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield out


def form(rng, a, column=False):
    """The same data as an array of the backend, a NumPy array, a list or a column."""
    a = np.array(a, dtype=float)
    if column and a.ndim == 1 and rng.uniform() < 0.5:
        a = a.reshape(-1, 1)
    k = int(rng.integers(3))
    return [a, gnp.asarray(a), a.tolist()][k]


class Stub:
    """Model returning given results, and recording what it is asked."""

    def __init__(self, loo, pred):
        self.l, self.p, self.asked = loo, pred, []

    def loo(self, xi, zi):
        self.asked.append(("loo", to_np(xi).copy(), to_np(zi).copy()))
        return self.l

    def predict(self, xi, zi, xt):
        self.asked.append(("predict", to_np(xi).copy(), to_np(zi).copy(), to_np(xt).copy()))
        return self.p


def ref_figures(z, e):
    z, e = np.asarray(z, dtype=float).ravel(), np.asarray(e, dtype=float).ravel()
    n = len(z)
    tss, sse = np.sum((z - z.mean()) ** 2), np.sum(e**2)
    std, rmse = math.sqrt(tss / n), math.sqrt(sse / n)
    return dict(n=n, std=std, tss=tss, sse=sse, ratio=sse / tss, log=math.log10(sse / tss), rmse=rmse, rel=rmse / std, q=1 - sse / tss)


LOO = dict(n="loo_n", std="loo_std", tss="loo_tss", sse="loo_press", ratio="loo_press_over_tss", log="loo_log10_press_over_tss",
           rmse="loo_rmse", rel="loo_rmse_over_std", q="loo_Q2")
TEST = dict(n="test_n", std="test_std", tss="test_tss", sse="test_rss", ratio="test_rss_over_tss", log="test_log10_rss_over_tss",
            rmse="test_rmse", rel="test_rmse_over_std", q="test_R2")
ROWS = dict(std="std(z)", rmse="rmse", rel="rmse/std(z)", tss="tss")
ROWS_LOO = dict(ROWS, sse="press", ratio="press/tss", log="log10(press/tss)", q="Q2")
ROWS_TEST = dict(ROWS, sse="rss", ratio="rss/tss", log="log10(rss/tss)", q="R2")


def parse_tables(text):
    """Rows `name: number` in order of appearance."""
    rows = []
    for line in text.splitlines():
        if ":" in line:
            name, _, rest = line.rpartition(": ")
            rows.append((name.strip(), rest.strip()))
    return rows


def printed(s):
    return {"+Inf": np.inf, "-Inf": -np.inf, "NaN": np.nan}.get(s) if s in ("+Inf", "-Inf", "NaN") else float(s)


def near_printed(ctx, s, want, key, fp=3):
    """A printed number equals the value to the printed precision."""
    try:
        v = printed(s)
    except ValueError:
        return ctx.check(False, key, f"not a number: {s!r}")
    want = float(want)
    if not math.isfinite(want):
        return ctx.check(v == want or (math.isnan(v) and math.isnan(want)), key, f"printed {s}, value {want}")
    a = abs(want)
    tol = 0.51 * 10**-fp if 0.1 <= a < 1000 else (0.51 * 10 ** -(fp + 1) if 0.01 <= a < 0.1 else 0.51 * 10**-fp * max(10 ** math.floor(math.log10(a)), 0) if a else 0)
    return ctx.check(abs(v - want) <= tol * (1 + 1e-9) + 1e-12 * a, key, f"printed {s}, value {want}")


def asked_once(ctx, model, loo, predict):
    n_loo = sum(a[0] == "loo" for a in model.asked)
    ctx.check(n_loo == int(loo), "precomputed", "precomputed LOO results not used")
    ctx.check(len(model.asked) - n_loo == int(predict), "precomputed", "precomputed predictions not used")


@REG.scenario(quick=30)
def performance(ctx):
    rng = ctx.rng
    real = rng.uniform() < 0.35
    n, m, d = int(rng.integers(4, 14)), int(rng.integers(2, 20)), int(rng.integers(1, 4))
    off, amp = float(rng.choice([0.0, 50.0, -1e4])), 10.0 ** rng.uniform(-3, 3)
    xi, _ = gen.design(rng, n, d)
    n = len(xi)
    xt = rng.uniform(xi.min(0), xi.max(0), (m, d))
    f = lambda x: off + amp * (np.sin(x.sum(1)) + 0.3 * x[:, 0])
    zi, zt = f(xi), f(xt) + amp * 0.1 * rng.standard_normal(m)
    if real:
        model = gp.core.Model(lambda x, p: gnp.ones((x.shape[0], 1)),
                              lambda x, y, p, pairwise=False: gp.kernel.maternp_covariance(x, y, 1, p, pairwise),
                              covparam=gnp.asarray(np.concatenate([[math.log(amp**2)], -np.log(np.ptp(xi, axis=0))])))
        l = [to_np(a) for a in model.loo(xi, zi)]
        p = [to_np(a) for a in model.predict(xi, zi, xt)]
    else:
        e = amp * 0.3 * rng.standard_normal(n)
        l = [zi - e, amp**2 * np.exp(rng.uniform(-4, 1, n)), e]
        p = [zt + amp * 0.2 * rng.standard_normal(m), amp**2 * np.exp(rng.uniform(-4, 1, m))]
        model = Stub(tuple(form(rng, a, True) if rng.uniform() < 0.5 else a.copy() for a in l), tuple(gnp.asarray(a.copy()) for a in p))
    with_loo, with_test, pit = rng.uniform() < 0.8, rng.uniform() < 0.7, rng.uniform() < 0.7
    kw = dict(loo=with_loo)
    if with_loo and rng.uniform() < 0.3:
        kw["loo_res"] = tuple(form(rng, a, True) for a in l)
    if with_test:
        kw["xtzt"] = (form(rng, xt), form(rng, zt, True))
        if rng.uniform() < 0.3:
            kw["zpmzpv"] = tuple(form(rng, a, True) for a in p)
    zarg = form(rng, zi, True)
    if real and isinstance(zarg, list):
        zarg = gnp.asarray(zarg)
    xarg = form(rng, xi)
    if real:
        xarg = gnp.asarray(xarg)
    out = md.compute_performance(model, xarg, zarg, compute_pit=pit, **kw)
    want_keys = set()
    if with_loo:
        want_keys |= set(LOO.values()) | ({"loo_pit"} if pit else set())
        r = ref_figures(zi, l[2])
        for k, name in LOO.items():
            ctx.close(as_float(out[name]), r[k], name, rtol=1e-8 * (1 + 1e3 * (abs(off) > amp * 1e5)), atol=1e-8 if k in ("log", "q") else 0.0, msg=name)
        if pit:
            ctx.shape(to_np(out["loo_pit"]).reshape(-1), (n,), "loo_pit-size")
            ctx.close(to_np(out["loo_pit"]).reshape(-1), st.norm.cdf((zi - l[0]) / np.sqrt(np.maximum(l[1], 0))), "loo_pit", rtol=1e-7, atol=1e-9, msg="LOO PIT")
    if with_test:
        want_keys |= set(TEST.values()) | ({"test_pit"} if pit else set())
        r = ref_figures(zt, zt - p[0])
        for k, name in TEST.items():
            ctx.close(as_float(out[name]), r[k], name, rtol=1e-8, atol=1e-8 if k in ("log", "q") else 0.0, msg=name)
        if pit:
            ctx.close(to_np(out["test_pit"]).reshape(-1), st.norm.cdf((zt - p[0]) / np.sqrt(np.maximum(p[1], 0))), "test_pit", rtol=1e-7, atol=1e-9, msg="test PIT")
    ctx.check(set(out) == want_keys, "keys", f"keys {sorted(set(out) ^ want_keys)} missing or unexpected")
    if not real:
        for a in model.asked:
            ctx.close(a[1], xi, "asked", rtol=0, atol=0, msg="inputs handed to the model")
            ctx.close(a[2].ravel(), zi, "asked", rtol=0, atol=0, msg="targets handed to the model")
            if a[0] == "predict":
                ctx.close(a[3], xt, "asked", rtol=0, atol=0, msg="test inputs handed to the model")
        asked_once(ctx, model, with_loo and "loo_res" not in kw, with_test and "zpmzpv" not in kw)
        model.asked = []
    # printed version
    with captured() as txt:
        md.perf(model, xarg, zarg, **kw)
    if not real:
        asked_once(ctx, model, with_loo and "loo_res" not in kw, with_test and "zpmzpv" not in kw)
    rows = parse_tables(txt.getvalue())
    k = 0
    for on, names, z, e in ((with_loo, ROWS_LOO, zi, l[2]), (with_test, ROWS_TEST, zt, zt - p[0])):
        if not on:
            continue
        r = ref_figures(z, e)
        got = dict(rows[k : k + len(names)])
        k += len(names)
        for q, label in names.items():
            ctx.check(label in got, "printed-row", f"row {label} not printed")
            near_printed(ctx, got.get(label, "?"), r[q], "printed-value")
        ctx.check(f"(n={len(z)})" in txt.getvalue(), "printed-count", "count not printed")
    ctx.check(k == len(rows), "printed-rows", f"{len(rows)} rows printed, expected {k}")
    ctx.note(real=real, n=n, m=m, offset=off, amp=amp, keys=sorted(kw))
    ctx.state("performance", real, with_loo, with_test, pit, "loo_res" in kw, "zpmzpv" in kw)


@REG.scenario(quick=20)
def describe(ctx):
    rng = ctx.rng
    n, d = int(rng.integers(1, 30)), int(rng.integers(1, 5))
    one = rng.uniform() < 0.4
    x = (rng.standard_normal(n) if one else rng.standard_normal((n, d))) * 10.0 ** rng.uniform(-6, 6) + float(rng.choice([0.0, 100.0]))
    dim = 1 if one else d
    names = [f"v{j}" for j in range(dim)]
    sf = [None, float(np.exp(rng.normal())), np.exp(rng.normal(size=dim))][int(rng.integers(3))]
    arg = form(rng, x)
    given = list(names)
    df = md.describe_array(arg, given, sf if not isinstance(sf, np.ndarray) else form(rng, sf))
    x2 = x.reshape(n, dim)
    want = {"min": x2.min(0), "max": x2.max(0), "delta": x2.max(0) - x2.min(0), "mean": x2.sum(0) / n,
            "std": np.sqrt(((x2 - x2.mean(0)) ** 2).sum(0) / n)}
    if sf is not None:
        want["delta_over_sigma"] = want["delta"] * sf
    ctx.check(list(df.colnames) == list(want), "columns", f"columns {df.colnames}")
    ctx.check(list(df.rownames) == names, "rows", f"rows {df.rownames}")
    scale = np.abs(x2).max(0)
    for c, v in want.items():
        for j, r in enumerate(names):
            ctx.close(float(df[r, c]), v[j], c, rtol=1e-9, atol=1e-12 * scale[j], msg=f"{c} of column {j}")
    if isinstance(sf, np.ndarray):
        ctx.raises(lambda: md.describe_array(x, names, np.ones(dim + 1)), "factor-length", ValueError)
    cov = rng.uniform(-6, 6, int(rng.integers(1, 6)))
    sr = md.sigma_rho_from_covparam(form(rng, cov))
    ctx.check(list(sr) == ["sigma"] + [f"rho{i}" for i in range(len(cov) - 1)], "sigma-rho-names", f"{list(sr)}")
    ctx.close(np.array([as_float(v) for v in sr.values()]), np.concatenate([[np.exp(cov[0] / 2)], np.exp(-cov[1:])]), "sigma-rho", rtol=1e-12, msg="sigma and rho")
    v = float(rng.choice([-1.0, 1.0])) * 10.0 ** rng.uniform(-12, 12)
    fp = int(rng.integers(2, 6))
    for y in (v, gnp.asarray(v), 0.0, math.inf, -math.inf, math.nan, 999.9999, 0.1, 0.01, -1000.0):
        near_printed(ctx, ftos(y, fp), as_float(y), "ftos", fp)
    vals = {"a": v, "bb": gnp.asarray([v])[0], "flag": True, "count": 17, "text": "ok"}
    with captured() as txt:
        md.pretty_print_dictionary(vals, fp)
    rows = dict(parse_tables(txt.getvalue()))
    ctx.check(list(rows) == list(vals), "dictionary-keys", f"printed keys {list(rows)}")
    near_printed(ctx, rows.get("a", "?"), v, "dictionary-value", fp)
    near_printed(ctx, rows.get("bb", "?"), v, "dictionary-value", fp)
    ctx.check((rows.get("flag"), rows.get("count"), rows.get("text")) == ("True", "17", "ok"), "dictionary-other", f"{rows}")
    ctx.state("describe", one, dim, None if sf is None else np.ndim(sf))


class Table:
    """Dictionary model of a labelled table."""

    def __init__(self, rows, cols, cells):
        self.rows, self.cols, self.cells = list(rows), list(cols), dict(cells)

    def array(self):
        return np.array([[self.cells[r, c] for c in self.cols] for r in self.rows]).reshape(len(self.rows), len(self.cols))

    def sub(self, rows, cols):
        return Table(rows, cols, {(r, c): self.cells[r, c] for r in rows for c in cols})


def same_table(ctx, df, t, key):
    ctx.check(list(df.rownames) == t.rows and list(df.colnames) == t.cols, f"{key}-labels", f"labels {df.rownames} x {df.colnames}, expected {t.rows} x {t.cols}")
    ctx.shape(np.asarray(df.data), (len(t.rows), len(t.cols)), f"{key}-shape")
    ctx.equal(np.asarray(df.data, dtype=float), t.array(), f"{key}-data", msg=key)


@REG.scenario(quick=24)
def tables(ctx):
    rng = ctx.rng
    nr, nc = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    rows, cols = [f"r{i}" for i in range(nr)], [f"c{i}" for i in range(nc)]
    data = rng.standard_normal((nr, nc))
    given = data.copy()
    glists = (list(cols), list(rows))
    df = DataFrame(given if rng.uniform() < 0.5 else given.tolist(), *glists)
    t = Table(rows, cols, {(r, c): data[i, j] for i, r in enumerate(rows) for j, c in enumerate(cols)})
    fresh = 0
    ops = []

    def sl(labels):
        a, b = sorted(rng.integers(0, len(labels) + 1, 2))
        if a == b:
            a, b = 0, len(labels)
        return slice(int(a), int(b)), labels[a:b]

    for _ in range(14 if ctx.tier == "quick" else 40):
        op = str(rng.choice(["cell", "row", "col", "slices", "rslice", "cslice", "set", "setrow", "setcol", "setslice", "addrow", "addcol", "concat0", "concat1", "print", "bad"]))
        ops.append(op)
        r, c = str(rng.choice(t.rows)), str(rng.choice(t.cols))
        v = float(rng.standard_normal())
        if op == "cell":
            ctx.check(float(df[r, c]) == t.cells[r, c], "cell", f"value under ({r}, {c})")
        elif op == "row":
            same_table(ctx, df[r], t.sub([r], t.cols), "row")
        elif op == "col":
            same_table(ctx, df[c], t.sub(t.rows, [c]), "column")
        elif op == "slices":
            (a, ra), (b, cb) = sl(t.rows), sl(t.cols)
            same_table(ctx, df[a, b], t.sub(ra, cb), "block")
        elif op == "rslice":
            a, ra = sl(t.rows)
            same_table(ctx, df[a, c], t.sub(ra, [c]), "row-slice")
        elif op == "cslice":
            b, cb = sl(t.cols)
            same_table(ctx, df[r, b], t.sub([r], cb), "column-slice")
        elif op == "set":
            df[r, c] = v
            t.cells[r, c] = v
        elif op == "setrow":
            w = rng.standard_normal(len(t.cols))
            df[r] = w
            t.cells.update({(r, k): w[i] for i, k in enumerate(t.cols)})
        elif op == "setcol":
            w = rng.standard_normal(len(t.rows))
            df[c] = w
            t.cells.update({(k, c): w[i] for i, k in enumerate(t.rows)})
        elif op == "setslice":
            which = int(rng.integers(3))
            (a, ra), (b, cb) = sl(t.rows), sl(t.cols)
            if which == 0:
                df[a, b] = v
                t.cells.update({(i, j): v for i in ra for j in cb})
            elif which == 1:
                df[a, c] = v
                t.cells.update({(i, c): v for i in ra})
            else:
                df[r, b] = v
                t.cells.update({(r, j): v for j in cb})
        elif op == "addrow":
            w = rng.standard_normal(len(t.cols))
            fresh += 1
            df.append_row(w, f"n{fresh}")
            t.rows.append(f"n{fresh}")
            t.cells.update({(f"n{fresh}", k): w[i] for i, k in enumerate(t.cols)})
        elif op == "addcol":
            w = rng.standard_normal(len(t.rows))
            fresh += 1
            df.append_col(w, f"n{fresh}")
            t.cols.append(f"n{fresh}")
            t.cells.update({(k, f"n{fresh}"): w[i] for i, k in enumerate(t.rows)})
        elif op in ("concat0", "concat1"):
            ax = int(op[-1])
            fresh += 1
            k = int(rng.integers(1, 3))
            new = [f"m{fresh}_{i}" for i in range(k)]
            shape = (k, len(t.cols)) if ax == 0 else (len(t.rows), k)
            w = rng.standard_normal(shape)
            other = DataFrame(w, list(t.cols) if ax == 0 else new, new if ax == 0 else list(t.rows))
            before = np.array(df.data, dtype=float)
            out = df.concat(other, axis=ax)
            ctx.equal(np.asarray(df.data, dtype=float), before, "concat-operand", msg="concat changed its operand")
            if ax == 0:
                t2 = Table(t.rows + new, t.cols, {**t.cells, **{(x, y): w[i, j] for i, x in enumerate(new) for j, y in enumerate(t.cols)}})
            else:
                t2 = Table(t.rows, t.cols + new, {**t.cells, **{(x, y): w[i, j] for i, x in enumerate(t.rows) for j, y in enumerate(new)}})
            same_table(ctx, out, t2, "concat")
            if len(t2.rows) * len(t2.cols) < 80:
                df, t = out, t2
            bad = DataFrame(np.zeros((1, len(t.cols) + 1)), list(t.cols) + ["zz"], ["q"])
            ctx.raises(lambda: df.concat(bad, axis=0), "concat-labels", ValueError)
            ctx.raises(lambda: df.concat(bad, axis=1), "concat-labels", ValueError)
            for ax in (0, 1):  # same sizes, other labels
                rws, cls = (t.rows, t.cols[:-1] + ["zz"]) if ax == 0 else (t.rows[:-1] + ["zz"], t.cols)
                bad = DataFrame(np.zeros((len(rws), len(cls))), list(cls), list(rws))
                ctx.raises(lambda: df.concat(bad, axis=ax), "concat-labels", ValueError)
            ctx.raises(lambda: df.concat(other, axis=2), "concat-axis", ValueError)
        elif op == "print":
            lines = repr(df).splitlines()
            ctx.check(lines[0].split() == t.cols and len(lines) == 1 + len(t.rows), "print-header", f"header {lines[0]}")
            for i, line in enumerate(lines[1:]):
                cells = line.split()
                ctx.check(cells[0] == t.rows[i] + ":" and len(cells) == 1 + len(t.cols), "print-row", line)
                for j, s in enumerate(cells[1:]):
                    near_printed(ctx, s, t.cells[t.rows[i], t.cols[j]], "print-cell")
        else:
            ctx.raises(lambda: df["absent"], "absent-key", KeyError)
            ctx.raises(lambda: df[3], "key-type", TypeError)
            ctx.raises(lambda: df["absent", c], "absent-label", (ValueError, KeyError))
        same_table(ctx, df, t, f"after-{op}")
    ctx.equal(given, data, "data-kept", msg="the array given to the table was changed")
    ctx.check(glists == (cols, rows), "labels-kept", "the label lists given to the table were changed")
    ctx.count("table_operations", len(ops))
    ctx.note(ops=ops)
    ctx.state("tables", nr, nc, ops[-1])


class Cross:
    """Criterion with different cross sections in every coordinate."""

    def __init__(self, rng, dim, offset):
        self.loc = rng.uniform(-2, 2, dim)
        self.scale = np.exp(rng.uniform(-0.8, 0.8, dim))
        self.kind = [str(k) for k in rng.choice(["normal", "gumbel", "quartic"], dim)]
        self.offset = offset
        self.asked = []

    def term(self, j, x):
        t = (x - self.loc[j]) / self.scale[j]
        return {"normal": lambda: 0.5 * t * t, "gumbel": lambda: t + np.exp(-t), "quartic": lambda: 0.25 * t**4}[self.kind[j]]()

    def __call__(self, p):
        x = to_np(p).ravel()
        self.asked.append(x.copy())
        return gnp.asarray(self.offset + sum(self.term(j, x[j]) for j in range(len(x))))


def ref_stats(crit, j, lo, hi):
    g = np.linspace(lo, hi, 40001)
    e = -crit.term(j, g)
    w = np.exp(e - e.max())
    c = np.concatenate([[0.0], np.cumsum((w[1:] + w[:-1]) / 2)])
    wt = w.copy()
    wt[[0, -1]] /= 2
    wt /= wt.sum()
    mean = np.sum(wt * g)
    return dict(mean=mean, variance=np.sum(wt * (g - mean) ** 2), mode=g[np.argmax(w)],
                **{f"quantile_{q}": float(np.interp(q, c / c[-1], g)) for q in (0.1, 0.25, 0.5, 0.75, 0.9)})


@REG.scenario(quick=16)
def criterion_statistics(ctx):
    rng = ctx.rng
    dim = int(rng.integers(1, 5))
    crit = Cross(rng, dim, float(rng.choice([0.0, 3.0, 2000.0, -5000.0])))
    cov = crit.loc + crit.scale * rng.uniform(-0.5, 0.5, dim)
    fisher = rng.standard_normal((dim, dim))
    seen = []

    def fisher_information(xi, covparam, epsilon=1e-3):
        seen.append((to_np(xi).copy(), to_np(covparam).copy()))
        return gnp.asarray(fisher)

    xi = rng.uniform(size=(5, 2))
    model = SimpleNamespace(fisher_information=fisher_information)
    kw, src = {}, str(rng.choice(["info", "args", "both"]))
    if src == "info":
        kw["info"] = SimpleNamespace(selection_criterion_nograd=crit, covparam=gnp.asarray(cov), model=model, xi=xi)
    elif src == "args":
        kw.update(selection_criterion=crit, covparam=form(rng, cov), model=model, xi=xi)
    else:
        other = Cross(rng, dim, 0.0)
        kw["info"] = SimpleNamespace(selection_criterion_nograd=other, covparam=gnp.asarray(cov + 0.7), model=None, xi=None)
        kw.update(selection_criterion=crit, covparam=gnp.asarray(cov), model=model, xi=gnp.asarray(xi))
    ind = None
    if rng.uniform() < 0.5:
        ind = [int(i) for i in rng.permutation(dim)[: int(rng.integers(1, dim + 1))]]
        kw["ind"] = ind if rng.uniform() < 0.5 else np.array(ind)
    lo, hi = cov - 5.0, cov + 5.0
    if rng.uniform() < 0.5:
        lo, hi = cov - crit.scale * rng.uniform(0.5, 5, dim), cov + crit.scale * rng.uniform(0.5, 5, dim)
        kw["param_box"] = [list(lo), list(hi)] if rng.uniform() < 0.5 else np.array([lo, hi])
    elif rng.uniform() < 0.5:
        kw["delta"] = delta = float(rng.uniform(2, 6))
        lo, hi = cov - delta, cov + delta
    before = cov.copy()
    fast = md.selection_criterion_statistics_fast(n_points=int(rng.choice([250, 801])), verbose=False, **kw)
    with captured():
        slow = md.selection_criterion_statistics(verbose=bool(rng.integers(2)), **kw)
    asked = np.array(crit.asked)
    sel = list(range(dim)) if ind is None else ind
    off_axis = np.sum(np.abs(asked - cov) > 1e-12, axis=1)
    ctx.check(bool(np.all(off_axis <= 1)), "frozen", "criterion evaluated with several parameters changed")
    ctx.check(bool(np.all((asked >= np.minimum(lo, cov) - 1e-9) & (asked <= np.maximum(hi, cov) + 1e-9))), "bounds", "criterion evaluated outside the bounds")
    for name, res in (("fast", fast), ("slow", slow)):
        ctx.equal(to_np(res["fisher_information"]), fisher, f"{name}-fisher", msg="Fisher information")
        df = res["parameter_statistics"]
        ctx.check(list(df.rownames) == [f"param_{j}" for j in sel], f"{name}-rows", f"rows {df.rownames}")
        for j in sel:
            want = ref_stats(crit, j, lo[j], hi[j])
            w = hi[j] - lo[j]
            # the grid is coarse: trapezoidal error of order (step / scale)^2
            tol = (2e-5 if name == "slow" else 0.03 * (w / 249 / crit.scale[j]) ** 2 + 1e-5) * crit.scale[j] * 6
            for c, v in want.items():
                t = tol if c != "mode" else (w / 249 if name == "fast" else 2e-2 * w if crit.kind[j] == "quartic" else 1e-3 * w)
                if c == "variance":
                    t = tol * (crit.scale[j] + abs(want["mean"]))
                if c.startswith("quantile") and name == "fast":
                    t = tol + 0.3 * w / 249 * (w / 249 / crit.scale[j])
                ctx.check(abs(float(df[f"param_{j}", c]) - v) <= t, f"{name}-{c}", f"{c} of parameter {j}: {float(df[f'param_{j}', c]):.6g}, expected {v:.6g} (tolerance {t:.2g})")
    for x, p in seen:
        ctx.equal(x, xi, "fisher-inputs", msg="inputs of the Fisher information")
        ctx.close(p.ravel(), cov, "fisher-point", rtol=1e-12, msg="parameters of the Fisher information")
    ctx.check(len(seen) == 2, "fisher-calls", "Fisher information not taken from the model")
    ctx.equal(cov, before, "covparam-kept", msg="reference parameters were changed")
    for miss in ("selection_criterion", "covparam", "model", "xi"):
        args = dict(selection_criterion=crit, covparam=cov, model=model, xi=xi)
        args[miss] = None
        ctx.raises(lambda: md.selection_criterion_statistics(**args), "missing", ValueError)
        ctx.raises(lambda: md.selection_criterion_statistics_fast(**args), "missing", ValueError)
    ctx.note(dim=dim, kinds=crit.kind, offset=crit.offset, src=src, ind=ind, box="param_box" in kw)
    ctx.state("statistics", dim, src, ind is None, "param_box" in kw, crit.offset)


@REG.scenario(quick=16)
def one_dimension(ctx):
    """Distributions defined by an unnormalised log-density; single-parameter closures; grid statistics."""
    rng = ctx.rng
    kind = str(rng.choice(["normal", "expon", "beta", "truncated"]))
    c = float(rng.uniform(0, 30))  # the quadrature has an absolute tolerance
    s = float(np.exp(rng.uniform(-1, 1)))
    if kind == "normal":
        m = float(rng.uniform(-2, 2))
        law, bounds = st.norm(m, s), (-math.inf, math.inf) if rng.uniform() < 0.5 else (m - 9 * s, m + 9 * s)
    elif kind == "expon":
        law, bounds = st.expon(scale=s), (0.0, math.inf) if rng.uniform() < 0.5 else (0, 40 * s)
    elif kind == "beta":
        law, bounds = st.beta(1 + 2 * s, 2.5), (0, 1)
    else:
        a, b = -float(rng.uniform(0.2, 2)), float(rng.uniform(0.2, 2))
        law, bounds = st.truncnorm(a, b), (a, b)
    D = md.Unnormalized1DDistribution(lambda x: c + float(law.logpdf(x)), bounds)
    ctx.close(D.Z, math.exp(c), "Z", rtol=1e-6, msg="normalisation constant")
    g = law.ppf(rng.uniform(0.01, 0.99, 5))
    ctx.close(to_np(D.pdf(list(g))), law.pdf(g), "pdf", rtol=1e-6, atol=1e-9, msg="density")
    ctx.close(to_np(D.f(list(g))), np.exp(c) * law.pdf(g), "f", rtol=1e-10, msg="unnormalised density")
    for x in g:
        ctx.close(D.cdf(float(x)), float(law.cdf(x)), "cdf", rtol=0, atol=2e-6, msg="distribution function")
    ctx.check(D.cdf(bounds[0] - 1.0) == 0.0 and D.cdf(bounds[1] + 1.0) == 1.0, "cdf-ends", "distribution function outside the bounds")
    ctx.close(D.mean(), law.mean(), "mean", rtol=1e-5, atol=1e-6, msg="mean")
    ctx.close(D.var(), law.var(), "var", rtol=1e-4, atol=1e-5, msg="variance")
    if all(math.isfinite(float(b)) for b in bounds):
        for p in (0.1, 0.5, 0.93):
            ctx.close(D.quantile(p), float(law.ppf(p)), "quantile", rtol=0, atol=1e-4 * (1 + s), msg=f"quantile {p}")
    else:
        ctx.raises(lambda: D.quantile(0.5), "quantile-bounds", ValueError)
    ctx.raises(lambda: D.quantile(1.0), "quantile-level", ValueError)
    ctx.raises(lambda: D.quantile(0.0), "quantile-level", ValueError)
    ctx.raises(lambda: md.Unnormalized1DDistribution(lambda x: 0.0, (1.0, 1.0)), "bounds-order", ValueError)
    # closures
    dim = int(rng.integers(1, 5))
    ref = rng.standard_normal(dim)
    arg = form(rng, ref)
    got = []
    fs = [md.make_single_param_criterion_function(lambda p: got.append(to_np(p).copy()) or gnp.sum(p), arg, j) for j in range(dim)]
    for j in rng.permutation(dim):
        x = float(rng.standard_normal())
        want = ref.copy()
        want[j] = x
        ctx.close(as_float(fs[j](x)), want.sum(), "closure-value", rtol=1e-12, atol=1e-12, msg="value of a cross section")
        ctx.equal(got[-1].ravel(), want, "closure-point", msg="point of a cross section")
    ctx.equal(np.asarray(to_np(arg) if not isinstance(arg, list) else arg, dtype=float), ref, "closure-kept", msg="reference vector was changed")
    # grid statistics recomputed on the same grid
    lo, hi, k = -2.0 * s, 3.0 * s, int(rng.choice([50, 100]))
    off = float(rng.choice([0.0, 1e5, -1e5]))
    fn = lambda x: gnp.asarray(off + (x / s) ** 2 + 0.3 * math.sin(x))
    mean, var, q, mode = md.fast_univariate_stats(fn, lo, hi, k)
    xs = np.linspace(lo, hi, k)
    w = np.exp(-((xs / s) ** 2 + 0.3 * np.sin(xs)))
    trap = lambda y: float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(xs)))
    ctx.close(mean, trap(xs * w) / trap(w), "grid-mean", rtol=1e-6, atol=1e-6 * s, msg="grid mean")
    ctx.close(var, trap(xs**2 * w) / trap(w) - (trap(xs * w) / trap(w)) ** 2, "grid-variance", rtol=1e-6, msg="grid variance")
    cum = np.concatenate([[0], np.cumsum((w[1:] + w[:-1]) / 2 * np.diff(xs))]) / trap(w)
    ctx.check(sorted(q) == ["0.1", "0.25", "0.5", "0.75", "0.9"], "grid-levels", f"{sorted(q)}")
    for level, v in q.items():
        ctx.close(v, float(np.interp(float(level), cum, xs)), "grid-quantile", rtol=1e-6, atol=1e-6 * s, msg=f"grid quantile {level}")
    ctx.close(mode, xs[np.argmax(w)], "grid-mode", rtol=1e-12, atol=1e-12, msg="grid mode")
    ctx.state("one-dimension", kind, dim, off)


def parse_report(text):
    out, section = {}, None
    for line in text.splitlines():
        if line.strip().startswith("* "):
            section = line.strip()[2:]
            out[section] = []
        elif section:
            out[section].append(line)
    return out


@REG.scenario(quick=10)
def report(ctx):
    rng = ctx.rng
    d, n = int(rng.integers(1, 4)), int(rng.integers(8, 14))
    xi, _ = gen.design(rng, n, d, "lhs")
    xi = xi * np.exp(rng.uniform(-1, 1, d))
    n = len(xi)
    amp = float(np.exp(rng.uniform(-2, 2)))
    zi = amp * (np.sin(2 * xi[:, 0]) + 0.5 * xi.sum(1)) + 3
    noisy = rng.uniform() < 0.5
    how = str(rng.choice(["real", "stub"]))
    pfun = gp.parameter
    if how == "real":
        noisy = False
        model = gp.core.Model(lambda x, p: gnp.ones((x.shape[0], 1)),
                              lambda x, y, p, pairwise=False: gp.kernel.maternp_covariance(x, y, 2, p, pairwise))
        select = [gp.kernel.select_parameters_with_reml, gp.kernel.select_parameters_with_remap][int(rng.integers(2))]
        with captured():
            model, info = select(model, xi, zi, info=True)
        mpl = 0
    else:
        k = d + 1 + int(noisy)
        mpl = int(rng.integers(0, 3))
        cov = rng.uniform(-2, 2, k)
        b = rng.uniform(-5, -3, (mpl + k, 1)) + np.array([[0.0, 7.0]])
        b[int(rng.integers(len(b)))] = [-np.inf, np.inf]
        b[int(rng.integers(len(b))), int(rng.integers(2))] *= np.inf
        b.sort(axis=1)
        calls = []
        model = SimpleNamespace(covparam=gnp.asarray(cov), meanparam=gnp.asarray(rng.standard_normal(mpl)) if mpl else None)
        x0, x1 = rng.standard_normal(mpl + k), rng.standard_normal(mpl + k)
        info = SimpleNamespace(success=bool(rng.integers(2)), best_value_returned=bool(rng.integers(2)), nfev=int(rng.integers(1000)),
                               total_time=float(rng.uniform(0, 9)), selection_criterion=lambda p: gnp.sum(gnp.asarray(p) ** 2), initial_params=gnp.asarray(x0),
                               fun=float(np.sum(x1**2)))
        if rng.uniform() < 0.7:
            info.bounds = [b, gnp.asarray(b), [tuple(r) for r in b.tolist()]][int(rng.integers(3))]
    cov = to_np(model.covparam).ravel().copy()
    mt = "linear_mean_matern_anisotropic" + ("_noisy" if noisy else "")
    own = rng.uniform() < 0.3
    kw = dict(model_type=mt)
    if own:
        builder = pfun.param_from_covparam_anisotropic_noisy if noisy else pfun.param_from_covparam_anisotropic
        kw["param_obj"] = builder(model.covparam, None, None, name_prefix="")
    r = md.modeldiagnosis_init(model, info, **kw)
    ps = r["param_selection"]
    ctx.check(r["optim_info"] is info, "optim-info", "optim_info")
    ctx.check(ps["cvg_reached"] == info.success and ps["optimal_val"] == info.best_value_returned, "flags", f"{ps}")
    ctx.check(ps["n_evals"] == info.nfev and ps["time"] == info.total_time, "counts", f"{ps}")
    ctx.close(as_float(ps["initial_val"]), as_float(info.selection_criterion(info.initial_params)), "initial-value", rtol=1e-9, msg="initial value")
    ctx.close(as_float(ps["final_val"]), as_float(info.fun), "final-value", rtol=1e-12, msg="final value")
    if how == "real":
        final = as_float(info.selection_criterion_nograd(info.covparam))
        ctx.close(as_float(ps["final_val"]), final, "final-criterion", rtol=1e-6, atol=1e-6, msg="final value is not the criterion at the selected parameters")
        ctx.close(as_float(ps["initial_val"]), as_float(info.history_criterion[0]), "first-evaluation", rtol=1e-6, atol=1e-6, msg="initial value is not the first of the history")
    names = ["sigma2"] + (["noise"] if noisy else []) + [f"rho_{i}" for i in range(d)]
    vals = np.array([as_float(v) for v in r["parameters"].values()])
    if len(vals) == len(names):
        rho = vals[-d:]
        ctx.close(vals[0], math.exp(cov[0]), "sigma2", rtol=1e-9, msg="variance in the report")
        ctx.close(rho, np.exp(-cov[-d:]), "rho", rtol=1e-9, msg="length scales in the report")
        if noisy:
            ctx.close(vals[1], math.exp(cov[1]), "noise", rtol=1e-9, msg="noise variance in the report")
    else:
        ctx.check(False, "parameter-count", f"{list(r['parameters'])}")
    bounds = getattr(info, "bounds", None)
    if bounds is not None:
        bb = np.array([[as_float(v) for v in row] for row in bounds])[mpl:]
        for j, (got, w) in enumerate(zip(r["param_obj"].bounds, bb)):
            if np.all(np.isinf(w)):
                ctx.check(got is None, "bounds", f"bounds of parameter {j}: {got}, expected none")
            else:
                ctx.close(np.array([as_float(v) for v in got]), w, "bounds", rtol=1e-12, msg=f"bounds of parameter {j}")
    # printed report
    zarg = zi if rng.uniform() < 0.6 else np.stack([zi, -2 * zi + 1], axis=1)
    with captured() as txt:
        md.diag(model, info, form(rng, xi), form(rng, zarg), **kw)
    rep = parse_report(txt.getvalue())
    sel = dict(parse_tables("\n".join(rep["Parameter selection"])))
    near_printed(ctx, sel.get("final_val", "?"), as_float(info.fun), "printed-final", 4)
    v0 = as_float(ps["initial_val"])
    ctx.check(abs(float(sel.get("initial_val", "nan")) - v0) <= 1e-3 * (1 + abs(v0)), "printed-initial", f"initial value printed {sel.get('initial_val')}, value {v0}")
    ctx.check(sel.get("n_evals") == str(info.nfev) and sel.get("cvg_reached") == str(info.success), "printed-flags", f"{sel}")
    data = rep["Data"]
    ctx.check(any(l.replace(" ", "") == f"count:{n}" for l in data), "printed-count", f"{data[:2]}")
    z2 = zarg.reshape(n, -1)
    body = [l for l in data if l.strip().startswith(("zi", "xi_"))]
    cols = [z2[:, j] for j in range(z2.shape[1])] + [xi[:, j] for j in range(d)]
    factor = [math.exp(-cov[0] / 2)] * z2.shape[1] + list(np.exp(cov[-d:]))
    ctx.check(len(body) == len(cols), "printed-rows", f"{len(body)} data rows")
    for line, x, f in zip(body, cols, factor):
        cells = line.split()[1:]
        want = [x.min(), x.max(), np.ptp(x), x.mean(), x.std(), np.ptp(x) * f]
        for s, w, c in zip(cells, want, ("min", "max", "delta", "mean", "std", "delta_over_sigma")):
            near_printed(ctx, s, w, f"printed-{c}")
    ctx.note(how=how, d=d, noisy=noisy, own=own, mpl=mpl)
    ctx.state("report", how, d, noisy, own, mpl)
    ctx.raises(lambda: md.modeldiagnosis_init(model, info, model_type="absent"), "model-type", ValueError)


@REG.scenario(quick=8)
def curves(ctx):
    """Cross sections as drawn."""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from gpmp.modeldiagnosis import plotting

    rng = ctx.rng
    dim = int(rng.integers(2, 5))
    crits = [Cross(rng, dim, 0.0) for _ in range(int(rng.integers(1, 3)))]
    calls = [lambda p, c=c: as_float(c(p)) for c in crits]
    cov = rng.standard_normal(dim)
    lo, hi = cov - rng.uniform(0.5, 3, dim), cov + rng.uniform(0.5, 3, dim)
    kw = dict(n_points=int(rng.choice([7, 12])))
    boxed = rng.uniform() < 0.6
    if boxed:
        kw.update(param_box=[list(lo), list(hi)], param_box_pooled=np.array([lo - 0.25, hi + 0.5]))
    else:
        kw["delta"] = 1.5
        lo, hi = cov - 1.5, cov + 1.5
    ind = [int(i) for i in rng.permutation(dim)[: int(rng.integers(1, dim + 1))]]
    mode = str(rng.choice(["all", "ind", "pooled"]))
    if mode == "ind":
        kw["ind"] = ind
    elif mode == "pooled":
        kw["ind_pooled"] = ind
    else:
        ind = list(range(dim))
    if len(crits) == 1 and rng.uniform() < 0.5:
        kw["info"] = SimpleNamespace(selection_criterion_nograd=calls[0], covparam=gnp.asarray(cov))
    elif len(crits) == 1:
        kw.update(selection_criterion=calls[0], covparam=gnp.asarray(cov))
    else:
        kw.update(selection_criteria=calls, covparam=gnp.asarray(cov))
    plt.close("all")
    with captured():
        plotting.plot_selection_criterion_crosssections(**kw)
    axes = plt.gcf().axes
    lines = [l for ax in axes for l in ax.get_lines()]
    k = len(crits)
    if boxed and mode == "pooled":
        lo, hi = lo - 0.25, hi + 0.5
    drawn = [l for l in lines if len(l.get_xdata()) == kw["n_points"]]
    marks = [l for l in lines if len(l.get_xdata()) == 2]
    ctx.require(len(drawn) == k * len(ind), "curve-count", f"{len(drawn)} curves")
    ctx.require(len(marks) == len(ind), "mark-count", f"{len(marks)} reference lines")
    for i, j in enumerate(ind):
        g = np.linspace(lo[j], hi[j], kw["n_points"])
        for c, line in zip(crits, drawn[k * i : k * i + k]):
            x, y = np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float)
            ctx.close(x, g, "curve-grid", rtol=1e-9, atol=1e-9, msg=f"grid of parameter {j}")
            rest = sum(c.term(q, cov[q]) for q in range(dim) if q != j)
            ctx.close(y, np.array([rest + c.term(j, v) for v in g]), "curve-values", rtol=1e-9, atol=1e-9, msg=f"cross section of parameter {j}")
        ctx.close(np.asarray(marks[i].get_xdata(), dtype=float), np.full(2, cov[j]), "curve-reference", rtol=1e-12, atol=1e-12, msg="reference line")
    plt.close("all")
    ctx.state("curves", dim, len(crits), mode, boxed)
    ctx.note(dim=dim, mode=mode, ind=ind, boxed=boxed)
