"""C14: splits and folds partition the data; data-set statistics match the data.

Every split, fold, row and statistic is compared with the concatenated arrays kept beside the data set.
"""

import numpy as np

import gpmp.num as gnp
from gpmp.dataloader import Dataset

from ..core import Registry, to_np
from .c13 import Data, ids

REG = Registry(
    "C14",
    rule="one evaluation = one partition, row or statistic clause judged against the concatenated arrays",
    more=20,
)


def content(ds):
    """Rows of a data set in order."""
    xs = [to_np(x) for x in ds.x_list]
    zs = [to_np(z) for z in ds.z_list]
    if not xs:
        return [], None, None
    x, z = np.concatenate(xs, 0), np.concatenate(zs, 0)
    i, j = ids((x, z))
    return i, j, (x, z)


@REG.scenario(quick=150)
def splits(ctx):
    rng = ctx.rng
    data = Data(rng, 40)
    n = data.n
    kind = str(rng.choice(["default", "random", "degenerate", "thirds"]))
    if kind == "default":
        ratios = (0.8, 0.1, 0.1)
    elif kind == "random":
        r = rng.dirichlet([1, 1, 1])
        ratios = (float(r[0]), float(r[1]), float(1.0 - r[0] - r[1]))
    elif kind == "thirds":
        ratios = (1 / 3, 1 / 3, 1 / 3)
    else:
        ratios = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.5, 0.0, 0.5), (0.5, 0.5, 0.0)][
            int(rng.integers(5))
        ]
    seed = int(rng.integers(0, 10**6)) if rng.random() < 0.7 else None
    ctx.note(n=n, shards=data.shards, ratios=ratios, seed=seed, z=data.zs)
    ctx.state(len(data.shards), kind, seed is not None, min(n, 5))
    ds = data.dataset()
    before = [to_np(a).copy() for a in ds.x_list + ds.z_list]
    parts = Dataset.split(ds, ratios, seed=seed) if kind != "default" else Dataset.split(ds, seed=seed)
    ctx.check(len(parts) == 3, "three-parts", f"{len(parts)}")
    sizes = [int(ratios[0] * n), int(ratios[1] * n)]
    sizes.append(n - sum(sizes))
    ctx.check([len(p) for p in parts] == sizes, "sizes", f"{[len(p) for p in parts]} expected {sizes}")
    allrows = []
    for p in parts:
        i, j, arr = content(p)
        if arr is None:
            continue
        ctx.check(i == j, "paired", f"{i} / {j}")
        ctx.check(
            np.array_equal(arr[0], data.x[i]) and np.array_equal(arr[1], data.z[i]), "rows-intact", "changed rows"
        )
        allrows += i
    ctx.check(sorted(allrows) == list(range(n)), "partition", f"{sorted(allrows)} of {n}")
    for a, b in zip(before, ds.x_list + ds.z_list):
        ctx.equal(b, a, "source-untouched")
    if seed is not None:
        gnp.rand(3)
        again = Dataset.split(data.dataset(), ratios, seed=seed)
        ctx.check([content(p)[0] for p in again] == [content(p)[0] for p in parts], "reproducible", f"seed {seed}")
        if n >= 40 and 0.2 < ratios[0] < 0.8:
            ctx.check(content(parts[0])[0] != list(range(sizes[0])), "shuffled", "first part is the head of the data")
    ctx.raises(lambda: Dataset.split(ds, (0.5, 0.1, 0.1)), "bad-ratios", Exception)


def judge_folds(ctx, n, k, folds):
    ctx.check(len(folds) == k, "fold-count", f"{len(folds)} of {k}")
    vals = [to_np(v).astype(int).tolist() for _, v in folds]
    base, r = divmod(n, k)
    ctx.check(
        [len(v) for v in vals] == [base + 1] * r + [base] * (k - r), "fold-sizes", f"{[len(v) for v in vals]}"
    )
    ctx.check(sorted(sum(vals, [])) == list(range(n)), "folds-partition", f"{vals}")
    for (t, _), v in zip(folds, vals):
        t = to_np(t).astype(int).tolist()
        ctx.check(sorted(t + v) == list(range(n)), "train-is-complement", f"train {sorted(t)} val {sorted(v)}")
    return vals


@REG.scenario(quick=150)
def folds(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 40))
    k = int(rng.choice([2, 3, n, int(rng.integers(2, n + 1))]))
    k = max(2, min(k, n))
    rep = int(rng.integers(1, 4))
    seed = int(rng.integers(0, 10**6)) if rng.random() < 0.7 else None
    ctx.note(n=n, k=k, repeats=rep, seed=seed)
    ctx.state(n % k == 0, k == n, k, rep, seed is not None)
    f = Dataset.k_fold_indices(n, k, seed=seed)
    v1 = judge_folds(ctx, n, k, f)
    if seed is not None:
        gnp.rand(2)
        v2 = judge_folds(ctx, n, k, Dataset.k_fold_indices(n, k, seed=seed))
        ctx.check(v1 == v2, "folds-reproducible", f"seed {seed}: {v1} / {v2}")
    rf = Dataset.repeated_k_fold_indices(n, k, rep, seed=seed)
    ctx.check(len(rf) == rep * k, "repeat-count", f"{len(rf)} of {rep * k}")
    rounds = [judge_folds(ctx, n, k, rf[r * k : (r + 1) * k]) for r in range(rep)]
    if n >= 16:
        for a in range(rep):
            for b in range(a):
                ctx.check(rounds[a] != rounds[b], "repeats-independent", f"rounds {a},{b}")
    if seed is not None:
        rf2 = Dataset.repeated_k_fold_indices(n, k, rep, seed=seed)
        same = all(np.array_equal(to_np(a[0]), to_np(b[0])) and np.array_equal(to_np(a[1]), to_np(b[1])) for a, b in zip(rf, rf2))
        ctx.check(same, "repeats-reproducible", f"seed {seed}")
    # the indices serve to cut a data set into paired parts
    data = Data(rng, 30)
    if data.n >= 2:
        kk = int(rng.integers(2, data.n + 1))
        ds = data.dataset()
        for t, v in Dataset.k_fold_indices(data.n, kk, seed=seed):
            a, b = content(ds.subset(t)), content(ds.subset(v))
            ctx.check(a[0] == a[1] and b[0] == b[1], "fold-paired", "inputs and observations of a fold differ")
            ctx.check(sorted(a[0] + b[0]) == list(range(data.n)), "fold-subsets-partition", f"{a[0]} + {b[0]}")


@REG.scenario(quick=120)
def rows_and_subsets(ctx):
    rng = ctx.rng
    data = Data(rng, 24)
    n = data.n
    ds = data.dataset()
    ctx.note(n=n, shards=data.shards, z=data.zs)
    ctx.state(tuple(np.sign([b - a for a, b in data.shards])), data.zs, min(n, 4))
    ctx.check(len(ds) == n, "length", f"{len(ds)}")
    for i in range(-n, n):
        x, z = ds[i]
        ctx.equal(x, data.x[i], "row-x")
        ctx.equal(z, data.z[i], "row-z")
    ctx.raises(lambda: ds[n], "row-out-of-range", IndexError)
    ctx.raises(lambda: ds[-n - 1], "row-out-of-range", IndexError)
    for _ in range(4):
        m = int(rng.integers(1, n + 4))
        neg = rng.random() < 0.3
        idx = rng.integers(-n if neg else 0, n, m)
        if rng.random() < 0.5:
            idx = np.unique(idx)
            rng.shuffle(idx)
        arg = gnp.asarray(idx.copy())
        sub = ds.subset(arg)
        i, j, arr = content(sub)
        ctx.check(i == j, "subset-paired", f"{i} / {j}")
        ctx.check(sorted(i) == sorted((idx % n).tolist()), "subset-rows", f"indices {idx.tolist()}: rows {i}")
        ctx.check(len(sub) == len(idx), "subset-size", f"{len(sub)} of {len(idx)}")
        ctx.check(np.array_equal(arr[0], data.x[i]) and np.array_equal(arr[1], data.z[i]), "subset-values", "changed")
        ctx.equal(arg, idx, "indices-untouched")
        # subsets of subsets address rows of the subset
        k = int(rng.integers(0, len(sub)))
        s2 = sub.subset(gnp.asarray(np.array([k])))
        ctx.equal(content(s2)[2][0][0], arr[0][k], "nested-subset")
    ctx.raises(lambda: ds.subset(gnp.asarray(np.array([n]))), "subset-out-of-range", IndexError)
    ctx.raises(lambda: ds.subset(gnp.asarray(np.array([[0]]))), "subset-not-1d", ValueError)
    ctx.raises(
        lambda: Dataset(gnp.asarray(data.x), gnp.asarray(np.concatenate([data.z, data.z], 0))), "mismatch", Exception
    )


@REG.scenario(quick=150)
def statistics(ctx):
    rng = ctx.rng
    data = Data(rng, 40 if rng.random() < 0.92 else 4000)
    n, d = data.n, data.d
    kind = str(rng.choice(["normal", "offset", "wide", "ties", "signs", "constant"]))
    for f in ("x", "z"):
        a = getattr(data, f)
        v = rng.standard_normal(a.shape)
        if kind == "offset":
            v = v + float(rng.choice([1e3, 1e6, -1e5]))
        elif kind == "wide":
            v = v * 10.0 ** rng.integers(-6, 7, size=a.shape[1:] or ())
        elif kind == "ties":
            v = np.rint(v)
        elif kind == "signs":
            v = -np.abs(v) if rng.random() < 0.5 else np.abs(v)
        elif kind == "constant":
            v = v * 0 + rng.standard_normal()
        setattr(data, f, v)
    ds = data.dataset()
    ctx.note(n=n, shards=data.shards, kind=kind, z=data.zs)
    ctx.state(kind, tuple(np.sign([b - a for a, b in data.shards])), data.zs, min(n, 4))
    before = [to_np(a).copy() for a in ds.x_list + ds.z_list]
    for rep in range(2):
        for f, a in (("x", data.x), ("z", data.z)):
            g = lambda s: getattr(ds, f"{f}_{s}")
            m = np.abs(a).max() + 1e-300
            ctx.equal(g("min")(), a.min(0), f + "-min")
            ctx.equal(g("max")(), a.max(0), f + "-max")
            ctx.close(g("mean")(), a.mean(0), f + "-mean", rtol=1e-12, scale=m)
            ctx.shape(g("var")(), a.shape[1:], f + "-var-shape")
            var, std = (to_np(g(s)()).reshape(-1) for s in ("var", "std"))
            for j, c in enumerate(a.reshape(n, -1).T):
                # rounding of the mean, and what it does to the variance and its root
                dm = 1e-15 * (n / 8 + 1) * (np.abs(c).max() + 1e-300)
                sp = np.ptp(c)
                dv = 1e-12 * sp**2 + dm * sp + 4 * dm**2
                ctx.close(var[j], c.var(), f + "-var", rtol=0, atol=dv)
                ds_ = min(dv / max(c.std(), 1e-300), np.sqrt(dv))
                ctx.close(std[j], c.std(), f + "-std", rtol=0, atol=ds_)
            ctx.close(g("median")(), np.median(a, axis=0), f + "-median", rtol=1e-13, scale=m)
            for q in (0.0, 1.0, 0.25, float(rng.random())):
                ctx.close(g("quantile")(q), np.quantile(a, q, axis=0), f + "-quantile", rtol=1e-13, scale=m)
            ctx.raises(lambda: g("quantile")(1.2), "bad-level", ValueError)
            ctx.raises(lambda: g("quantile")(-0.1), "bad-level", ValueError)
    for a, b in zip(before, ds.x_list + ds.z_list):
        ctx.equal(b, a, "statistics-leave-data")
    # a subset has the statistics of its rows
    idx = rng.permutation(n)[: int(rng.integers(1, n + 1))]
    sub = ds.subset(gnp.asarray(idx))
    m = np.abs(data.x).max()
    ctx.close(sub.x_mean(), data.x[idx].mean(0), "subset-mean", rtol=1e-12, scale=m + 1e-300)
    ctx.equal(sub.z_max(), data.z[idx].max(0), "subset-max")
