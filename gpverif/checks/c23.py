"""C23: designs and test functions satisfy their definitions.

Generated designs are inspected point by point (count, box, grid levels, one point per stratum),
generators are watched while they choose among candidates, criteria are recomputed by brute force,
random designs are tested against their law, and benchmark functions are compared with formulas
typed in again from their publications, one point at a time.
"""

import itertools
import math

import numpy as np

import gpmp as gp
from gpmp.misc import designs, testfunctions as tf

from .. import stats
from ..core import Registry

REG = Registry(
    "C23",
    more=2,
    rule="one evaluation = one structural clause on a design, one criterion or one function value against its definition",
    assumptions=["statistical verdicts have a false-alarm probability below 1e-9 each"],
)


def draw_box(rng, d):
    lo = rng.uniform(-5, 5, d) * float(rng.choice([1.0, 100.0]))
    hi = lo + 10.0 ** rng.uniform(-2, 3, d)
    form = int(rng.integers(3))
    return [[list(lo), list(hi)], np.array([lo, hi]), [lo.copy(), hi.copy()]][form], lo, hi


def in_box(ctx, x, lo, hi):
    tol = 1e-12 * (np.abs(lo) + np.abs(hi) + hi - lo)
    ctx.check(bool(np.all((x >= lo - tol) & (x <= hi + tol))), "in-box", "points outside the box")


def ref_discrepancy(x):
    """Centered discrepancy (squared), Hickernell 1998."""
    n, d = x.shape
    a = np.abs(x - 0.5)
    t2 = sum(np.prod(1 + 0.5 * a[i] - 0.5 * a[i] ** 2) for i in range(n))
    t3 = sum(np.prod(1 + 0.5 * a[i] + 0.5 * a[j] - 0.5 * np.abs(x[i] - x[j])) for i in range(n) for j in range(n))
    return (13 / 12) ** d - 2 / n * t2 + t3 / n**2


def pairs(x):
    return [math.dist(x[i], x[j]) for i in range(len(x)) for j in range(i)]


@REG.scenario(quick=20, backends=("numpy",))
def criteria(ctx):
    rng = ctx.rng
    n, d = int(rng.integers(2, 12)), int(rng.integers(1, 5))
    box, lo, hi = draw_box(rng, d)
    x = rng.uniform(size=(n, d))
    y = lo + x * (hi - lo)
    ctx.close(designs.mindist(y), min(pairs(y)), "mindist", rtol=1e-10, msg="separation")
    ctx.close(designs.maxdist(y), max(pairs(y)), "maxdist", rtol=1e-10, msg="diameter")
    ctx.close(designs.discrepancy(x), ref_discrepancy(x), "discrepancy", rtol=1e-8, atol=1e-12, msg="centered discrepancy")
    ctx.close(designs.scale(x, box), y, "scale", rtol=1e-12, atol=1e-12 * np.abs(y).max(), msg="scaling to the box")
    g = lo + rng.uniform(size=(int(rng.integers(1, 60)), d)) * (hi - lo)
    want = max(min(math.dist(p, q) for p in y) for q in g)
    ctx.close(float(designs.filldist_approx(y, box, x=g)), want, "filldist", rtol=1e-10, msg="fill distance on given points")
    # random discretisation: never above the true fill distance, not far below it
    if d == 1:
        s = np.sort(y[:, 0])
        true = max(s[0] - lo[0], hi[0] - s[-1], *(np.diff(s) / 2))
        got = float(designs.filldist_approx(y, box, n=2000))
        ctx.check(got <= true * (1 + 1e-9) and got >= 0.8 * true, "filldist-random", f"fill distance {got}, exact {true}")
    ctx.state("criteria", n, d)


@REG.scenario(quick=16, backends=("numpy",))
def grids(ctx):
    rng = ctx.rng
    d = int(rng.integers(1, 5))
    box, lo, hi = draw_box(rng, d)
    n = int(rng.integers(1, 5)) if rng.uniform() < 0.5 else [int(k) for k in rng.integers(1, 6, d)]
    given = list(n) if isinstance(n, list) else n
    x = designs.regulargrid(d, n, box)
    sizes = [n] * d if not isinstance(n, list) else n
    ctx.shape(x, (int(np.prod(sizes)), d), "grid-shape")
    in_box(ctx, x, lo, hi)
    levels = [[lo[i] + (hi[i] - lo[i]) * k / (sizes[i] - 1) if sizes[i] > 1 else lo[i] for k in range(sizes[i])] for i in range(d)]
    want = np.array(list(itertools.product(*levels)))
    ctx.close(x, want, "grid", rtol=1e-12, atol=1e-9 * np.max(np.abs(want)), msg="grid points in order")
    ctx.check(n == given, "grid-sizes-kept", "the list of sizes was changed")
    ctx.state("grids", d, isinstance(n, list), min(len(x), 20))


def one_per_stratum(ctx, x, lo, hi, key):
    n, d = x.shape
    u = (x - lo) / (hi - lo) * n
    for j in range(d):
        k = np.sort(np.floor(u[:, j]))
        near = np.any(np.abs(u[:, j] - np.round(u[:, j])) < 1e-6)  # rounding may move a point over an edge
        ctx.check(near or np.array_equal(k, np.arange(n)), key, f"coordinate {j}: strata {k}")


@REG.scenario(quick=16, backends=("numpy",))
def hypercubes(ctx):
    rng = ctx.rng
    n, d = int(rng.choice([1, 2, 3, 7, 20])), int(rng.integers(1, 5))
    box, lo, hi = draw_box(rng, d)
    np.random.seed(int(rng.integers(2**31)))
    seen = []
    orig = designs.mindist

    def watch(sample):
        v = orig(sample)
        seen.append((np.array(sample), float(v)))
        return v

    designs.mindist = watch
    try:
        if ctx.case % 2:
            x = designs.maximinlhs(d, n, box, max_iter=int(rng.choice([1, 5, 40])))
        else:
            x = designs.maximinldlhs(d, n, box)
    finally:
        designs.mindist = orig
    ctx.shape(x, (n, d), "lhs-shape")
    in_box(ctx, x, lo, hi)
    one_per_stratum(ctx, x, lo, hi, "lhs-strata")
    u = (x - lo) / (hi - lo)
    if n > 1 and seen:
        best = max(min(pairs(s)) for s, _ in seen)
        ctx.check(min(pairs(u)) >= best * (1 - 1e-6), "lhs-best", f"separation {min(pairs(u)):.4g}, best candidate {best:.4g}")
        ctx.count("candidates", len(seen))
    ctx.record("within", np.clip(u * n - np.floor(u * n), 0, 1).ravel().tolist())
    ctx.state("hypercubes", n, d, ctx.case % 2)


@REG.scenario(quick=16, backends=("numpy",))
def uniforms(ctx):
    rng = ctx.rng
    n, d = int(rng.choice([1, 2, 10, 40])), int(rng.integers(1, 5))
    box, lo, hi = draw_box(rng, d)
    np.random.seed(int(rng.integers(2**31)))
    x = designs.randunif(d, n, box)
    ctx.shape(x, (n, d), "uniform-shape")
    in_box(ctx, x, lo, hi)
    ctx.record("uniform", ((x - lo) / (hi - lo)).ravel().tolist())
    seen = []
    orig = designs.discrepancy

    def watch(sample):
        v = orig(sample)
        seen.append((np.array(sample), float(v)))
        return v

    designs.discrepancy = watch
    try:
        k = int(rng.choice([1, 4, 20]))
        y = designs.ldrandunif(d, n, box, max_iter=k)
    finally:
        designs.discrepancy = orig
    ctx.shape(y, (n, d), "ld-shape")
    in_box(ctx, y, lo, hi)
    u = (y - lo) / (hi - lo)
    if seen:
        best = min(ref_discrepancy(s) for s, _ in seen)
        got = ref_discrepancy(np.clip(u, 0, 1))
        ctx.check(got <= best * (1 + 1e-6) + 1e-9, "ld-best", f"discrepancy {got:.5g}, best candidate {best:.5g}")
        ctx.count("candidates", len(seen))
    for f in (designs.randunif, designs.ldrandunif, designs.maximinlhs, designs.maximinldlhs):
        if f is designs.maximinldlhs and ctx.case % 8:
            continue  # slow
        kw = dict(max_iter=2) if f is designs.maximinlhs else {}
        z1, z2 = f(d, 3, box, **kw), f(d, 3, box, **kw)
        ctx.check(not np.array_equal(z1, z2), "fresh", f"two random designs of {f.__name__} are equal")
    big = (designs.randunif(d, 1500, box) - lo) / (hi - lo)
    for j in range(d):
        ctx.check(stats.ks_uniform(big[:, j]) > stats.ALPHA, "uniform-law", f"coordinate {j} of a random design is not uniform")
    if d > 1:
        c = np.corrcoef(big.T)[np.triu_indices(d, 1)] * math.sqrt(1500)
        ctx.check(bool(np.all(np.abs(c) < 7)), "uniform-independent", f"correlated coordinates {c}")
    ctx.record("large", big.ravel().tolist())
    ctx.state("uniforms", n, d)


@REG.offline_check
def pooled(records, meta):
    vals, n, out = {}, 0, []
    for cases in records.values():
        for recs in cases.values():
            for name, v in recs:
                vals.setdefault(name, []).extend(v)
    for name, v in vals.items():
        if len(v) < 50:
            continue
        n += 1
        p = stats.ks_uniform(np.array(v))
        if p < stats.ALPHA:
            out.append(offline(meta, name, p, len(v)))
    return n, out


def offline(meta, name, p, k):
    from ..core import offline_violation

    return offline_violation(meta, name, f"pooled-{name}", f"{name}: {k} coordinates not uniform (p={p:.2g})", backend="numpy")


A6 = [[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]]
P6 = [[0.1312, 0.1696, 0.5569, 0.0124, 0.8283, 0.5886], [0.2329, 0.4135, 0.8307, 0.3736, 0.1004, 0.9991],
      [0.2348, 0.1451, 0.3522, 0.2883, 0.3047, 0.6650], [0.4047, 0.8828, 0.8732, 0.5743, 0.1091, 0.0381]]


def hart(x, k):
    return sum(al * math.exp(-sum(A6[i][j] * (x[j] - P6[i][j]) ** 2 for j in range(k))) for i, al in enumerate((1.0, 1.2, 3.0, 3.2)))


def ref_borehole(x):
    rw, r, Tu, Hu, Tl, Hl, L, Kw = x
    g = math.log(r / rw)
    return 2 * math.pi * Tu * (Hu - Hl) / (g * (1 + 2 * L * Tu / (g * rw**2 * Kw) + Tu / Tl))


def ref_detpep8(x):
    v = 4 * (x[0] - 2 + 8 * x[1] - 8 * x[1] ** 2) ** 2 + (3 - 4 * x[1]) ** 2 + 16 * math.sqrt(x[2] + 1) * (2 * x[2] - 1) ** 2
    return v + sum(i * math.log(1 + sum(x[j - 1] for j in range(3, i + 1))) for i in range(4, 9))


FUNCTIONS = {
    "twobumps": (1, [0.0], [5.0], lambda x: -(0.7 * x[0] + math.sin(5 * x[0] + 1) + 0.1 * math.sin(10 * x[0]))),
    "braninhoo": (2, [-5, 0], [10, 15], lambda x: (x[1] - 5.1 / (4 * math.pi**2) * x[0] ** 2 + 5 / math.pi * x[0] - 6) ** 2 + 10 * (1 - 1 / (8 * math.pi)) * math.cos(x[0]) + 10),
    "hartmann4": (4, [0] * 4, [1] * 4, lambda x: (1.1 - hart(x, 4)) / 0.839),
    "hartmann6": (6, [0] * 6, [1] * 6, lambda x: -hart(x, 6)),
    "borehole": (8, [0.05, 100, 63070, 990, 63.1, 700, 1120, 9855], [0.15, 50000, 115600, 1110, 116, 820, 1680, 12045], ref_borehole),
    "detpep8d": (8, [0] * 8, [1] * 8, ref_detpep8),
    "ishigami": (3, [-math.pi] * 3, [math.pi] * 3, lambda x: math.sin(x[0]) + 5 * math.sin(x[1]) ** 2 + 0.1 * x[2] ** 4 * math.sin(x[0])),
}
# documentation and code of this one disagree on the linear term; both readings are accepted
WAVE = [lambda x, k=k: math.exp(1.8 * (x[0] + x[1])) + 3 * x[k] + 6 * x[1] ** 2 + 3 * math.sin(4 * math.pi * x[0]) for k in (0, 1)]
OPTIMA = {
    "braninhoo": ([[-math.pi, 12.275], [math.pi, 2.275], [9.42478, 2.475]], 0.397887, 1e-5),
    "hartmann6": ([[0.20169, 0.150011, 0.476874, 0.275332, 0.311652, 0.6573]], -3.32237, 1e-4),
}


@REG.scenario(quick=24, backends=("numpy",))
def functions(ctx):
    rng = ctx.rng
    name = (sorted(FUNCTIONS) + ["wave"])[ctx.case % 8]
    n = int(rng.choice([1, 2, 5, 33]))
    if name == "wave":
        x = rng.uniform(-1, 1, (n, 2))
        got = np.asarray(tf.wave(x.copy()))
        ctx.shape(got, (n,), "shape")
        ok = [np.allclose(got, [f(v) for v in x], rtol=1e-12, atol=1e-12) for f in WAVE]
        ctx.check(any(ok), "wave", "wave differs from its formula")
        ctx.state("wave", n)
        return
    d, lo, hi, f = FUNCTIONS[name]
    u = rng.uniform(size=(n, d))
    if rng.uniform() < 0.3:
        u = np.round(u)  # corners
    x = np.array(lo) + u * (np.array(hi, dtype=float) - np.array(lo))
    arg = x[:, 0].copy() if name == "twobumps" and rng.uniform() < 0.5 else x.copy()
    keep = arg.copy()
    got = np.asarray(getattr(tf, name)(arg))
    ctx.shape(got, (n,), "shape")
    want = np.array([f(v) for v in x.tolist()])
    ctx.close(got, want, name, rtol=1e-11, atol=1e-11, msg=name)
    ctx.equal(arg, keep, "input-kept", msg="points were changed")
    for i in rng.integers(0, n, 2):
        one = np.asarray(getattr(tf, name)(arg[i : i + 1]))
        ctx.close(one, got[i : i + 1], "pointwise", rtol=1e-12, msg="value depends on the other points")
    if name in OPTIMA:
        xs, v, tol = OPTIMA[name]
        ctx.close(np.asarray(getattr(tf, name)(np.array(xs))), np.full(len(xs), v), "optimum", rtol=0, atol=tol, msg="published optimum")
    ctx.state("functions", name, n)
    ctx.note(name=name, n=n)


@REG.scenario(quick=4, backends=("numpy",))
def constants(ctx):
    """Published minimum of the 6-dimensional function is not undercut."""
    rng = ctx.rng
    x = rng.uniform(size=(4000, 6))
    ctx.check(float(np.min(tf.hartmann6(x))) >= -3.3224, "hartmann6-minimum", "value below the published minimum")
    y = rng.uniform([-5, 0], [10, 15], (4000, 2))
    ctx.check(float(np.min(tf.braninhoo(y))) >= 0.397886, "braninhoo-minimum", "value below the published minimum")
    ctx.state("constants", ctx.case)
