"""C15: scalers normalise as documented and invert exactly.

Location and scale of the transformed fitting data are recomputed from the outputs; inverses and
caller-owned arrays are watched on every call.
"""

import numpy as np

import gpmp.num as gnp
from gpmp.dataloader import MinMaxScaler, Normalizer, ObservationScaler, RobustScaler

from ..core import Registry, to_np

REG = Registry(
    "C15",
    rule="one evaluation = one location, scale, inverse or no-side-effect clause on one transformed array",
    assumptions=["columns whose spread is below the scalers' threshold 1e-8 count as constant"],
    more=20,
)

SCALERS = dict(normalizer=Normalizer, robust=RobustScaler, minmax=MinMaxScaler)


def column(rng, n):
    kind = str(rng.choice(["normal", "offset", "big", "small", "ties", "skewed", "constant", "zero", "nearly"]))
    v = rng.standard_normal(n)
    if kind == "offset":
        v = v + float(rng.choice([-1.0, 1.0])) * 10.0 ** float(rng.uniform(1, 5))
    elif kind == "big":
        v = v * 10.0 ** float(rng.uniform(2, 12))
    elif kind == "small":
        v = v * 10.0 ** float(rng.uniform(-5, -1))
    elif kind == "ties":
        v = np.rint(v * 2)
    elif kind == "skewed":
        v = np.exp(2 * v)
    elif kind == "constant":
        v = v * 0 + float(rng.choice([0.1, -3.7, 1e4, 1e-3]))
    elif kind == "zero":
        v = v * 0
    elif kind == "nearly":
        v = 0.3 + v * 1e-12
    return kind, v


def judge(ctx, cls, got, x, rtol, key):
    """Location and scale of the transformed fitting data."""
    n = x.shape[0]
    ctx.check(np.all(np.isfinite(got)), key + "-finite", "transformed fitting data not finite")
    for j in range(x.shape[1]):
        c, g = x[:, j], got[:, j]
        if cls is Normalizer:
            loc, sc, spread = g.mean(), g.std(), c.std()
        elif cls is RobustScaler:
            loc, sc = np.median(g), np.percentile(g, 75) - np.percentile(g, 25)
            spread = np.percentile(c, 75) - np.percentile(c, 25)
        else:
            loc, sc, spread = g.min(), np.ptp(g), np.ptp(c)
        mag = np.abs(c).max()
        if spread > 1e-6:
            tol = rtol + 1e-14 * (mag / spread) * 10 + 1e-13 * (np.abs(g).max())
            ctx.close(loc, 0.0, key + "-location", rtol=0, atol=tol)
            ctx.close(sc, 1.0, key + "-scale", rtol=0, atol=tol)
            if cls is MinMaxScaler:
                ctx.check(g.min() >= -tol and g.max() <= 1 + tol, key + "-unit-interval", f"{g.min()}..{g.max()}")
        elif spread < 1e-10 and mag < 1e2:
            # scale one: only the location is removed
            ref = dict(n=c.mean(), r=np.median(c), m=c.min())[
                "n" if cls is Normalizer else "r" if cls is RobustScaler else "m"
            ]
            ctx.close(g, c - ref, key + "-constant-column", rtol=0, atol=1e-12 * (1 + mag))


@REG.scenario(quick=200)
def columns(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 5, 10, 31, 31, 400]))
    d = int(rng.integers(1, 5) if rng.random() < 0.85 else rng.integers(5, 12))
    cols = [column(rng, n) for _ in range(d)]
    kinds = [k for k, _ in cols]
    x = np.column_stack([v for _, v in cols])
    name = str(rng.choice(list(SCALERS)))
    cls = SCALERS[name]
    ctx.note(scaler=name, n=n, kinds=kinds)
    ctx.state(name, min(n, 5), tuple(sorted(set(kinds))))
    xa = gnp.asarray(x.copy())
    sc = cls.fit(xa)
    ctx.equal(xa, x, "fit-leaves-data")
    copy = bool(rng.random() < 0.7)
    t = sc.transform(xa) if copy else sc.transform(gnp.copy(xa), copy=False)
    if copy:
        ctx.equal(xa, x, "transform-leaves-data")
    ctx.check(t is not xa, "new-array", "transform returned its argument")
    ctx.shape(t, x.shape, "shape")
    tn = to_np(t).copy()
    judge(ctx, cls, tn, x, 1e-11, name)
    back = sc.inverse_transform(t)
    ctx.equal(t, tn, "inverse-leaves-data")
    mag = np.abs(x).max(0)
    bn = to_np(back)
    for j in range(d):
        ctx.close(bn[:, j], x[:, j], "inverse", rtol=0, atol=1e-13 * (mag[j] + 1e-300))
    # new data, also far outside the fitting range
    m = int(rng.integers(1, 6))
    y = x[rng.integers(0, n, m)] + rng.standard_normal((m, d)) * 10.0 ** rng.uniform(-3, 6, (1, d))
    ya = gnp.asarray(y.copy())
    ty = sc.transform(ya)
    ctx.equal(ya, y, "transform-leaves-data")
    by = to_np(sc.inverse_transform(ty))
    for j in range(d):
        ctx.close(by[:, j], y[:, j], "inverse-new-data", rtol=0, atol=1e-13 * (mag[j] + np.abs(y[:, j]).max()))
    # the map is the same affine map for every row: new data and fitting data together
    both = to_np(sc.transform(gnp.asarray(np.vstack([x, y]))))
    ctx.equal(both[:n], tn, "row-by-row")
    ctx.equal(both[n:], to_np(ty), "row-by-row")
    # fitting again gives the same scaler
    t2 = cls.fit(xa).transform(xa)
    ctx.equal(t2, tn, "refit-same")


@REG.scenario(quick=80)
def robust_levels(ctx):
    """Other quantile levels: the declared quantile range becomes one."""
    rng = ctx.rng
    n = int(rng.integers(3, 30))
    x = rng.standard_normal((n, 2)) * 10.0 ** rng.uniform(-2, 4, (1, 2)) + rng.standard_normal((1, 2))
    lo = float(rng.uniform(0, 45))
    hi = float(rng.uniform(55, 100))
    ctx.note(n=n, levels=(lo, hi))
    ctx.state(n, round(lo, -1), round(hi, -1))
    xa = gnp.asarray(x.copy())
    t = to_np(RobustScaler.fit(xa, q_low=lo, q_high=hi).transform(xa))
    ctx.equal(xa, x, "fit-leaves-data")
    for j in range(2):
        ctx.close(np.median(t[:, j]), 0.0, "median", rtol=0, atol=1e-10)
        ctx.close(np.percentile(t[:, j], hi) - np.percentile(t[:, j], lo), 1.0, "range", rtol=1e-9)


@REG.scenario(quick=120)
def observations(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 5, 10, 31]))
    kind, z = column(rng, n)
    if rng.random() < 0.3:
        z = z.reshape(-1, 1)
    ctx.note(n=n, kind=kind, shape=z.shape)
    ctx.state(kind, min(n, 5), z.ndim)
    za = gnp.asarray(z.copy())
    sc = ObservationScaler.fit(za)
    ctx.equal(za, z, "fit-leaves-data")
    t = sc.transform(za)
    ctx.equal(za, z, "transform-leaves-data")
    ctx.shape(t, z.shape, "shape")
    tn = to_np(t).copy()
    judge(ctx, Normalizer, tn.reshape(n, 1), z.reshape(n, 1), 1e-11, "observations")
    back = sc.inverse_transform(t)
    ctx.equal(t, tn, "inverse-leaves-data")
    mag = np.abs(z).max() + 1e-300
    ctx.close(back, z, "inverse", rtol=0, atol=1e-13 * mag)
    y = z + rng.standard_normal(z.shape) * 10.0 ** rng.uniform(-3, 6)
    by = sc.inverse_transform(sc.transform(gnp.asarray(y.copy())))
    ctx.close(by, y, "inverse-new-data", rtol=0, atol=1e-13 * (mag + np.abs(y).max()))
