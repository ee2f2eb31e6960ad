"""C13: a data loader delivers every sample exactly once per epoch, paired.

Every batch handed out is an event; exactly-once, pairing and order are judged on the event log
against a model of the loader (data-set order, epoch counter).
"""

import itertools

import numpy as np

import gpmp.num as gnp
from gpmp.dataloader import DataLoader, Dataset, collate_batches

from ..core import Registry, as_float, to_np

REG = Registry(
    "C13",
    rule="one evaluation = one delivery clause (exactly-once, pairing, size, order, length, "
    "indexing) judged on the recorded batches of one pass",
    more=20,
)


class Data:
    """Rows that identify themselves, so that pairing and multiplicity are visible."""

    def __init__(self, rng, nmax=24, empty_shards=True):
        self.n = n = int(rng.integers(1, nmax + 1))
        self.d = d = int(rng.integers(1, 4))
        self.x = np.column_stack([np.arange(n) * 1.0] + [np.sin(np.arange(n) + j) for j in range(1, d)])
        zs = str(rng.choice(["vec", "col", "two"]))
        z = np.arange(n) * 10.0 + 3.0
        self.z = dict(vec=z, col=z.reshape(-1, 1), two=np.column_stack([z, -z]))[zs]
        k = int(rng.choice([1, 1, 2, 3, 5]))
        cuts = sorted(rng.integers(0, n + 1, k - 1).tolist()) if k > 1 else []
        if not empty_shards:
            cuts = sorted(set(c for c in cuts if 0 < c < n))
        self.cuts = cuts
        e = [0] + cuts + [n]
        self.shards = list(zip(e[:-1], e[1:]))
        self.zs = zs

    def dataset(self):
        if len(self.shards) == 1:
            return Dataset(gnp.asarray(self.x.copy()), gnp.asarray(self.z.copy()))
        return Dataset(
            [gnp.asarray(self.x[a:b].copy()) for a, b in self.shards],
            [gnp.asarray(self.z[a:b].copy()) for a, b in self.shards],
        )


def ids(batch):
    """Row identities of a batch, from x and from z separately."""
    x, z = to_np(batch[0]), to_np(batch[1])
    zi = z if z.ndim == 1 else z[:, 0]
    return x[:, 0].astype(int).tolist(), np.rint((zi - 3.0) / 10.0).astype(int).tolist()


def judge_pass(ctx, data, bs, drop, batches, shuffle, tag=""):
    """Exactly-once delivery of one complete pass."""
    n = data.n
    nb = n // bs if (drop or n % bs == 0) else n // bs + 1
    ctx.count("batches observed", len(batches))
    ctx.check(len(batches) == nb, tag + "batch-count", f"{len(batches)} batches, expected {nb}")
    order = []
    paired = whole = True
    for b in batches:
        i, j = ids(b)
        paired &= i == j
        x, z = to_np(b[0]), to_np(b[1])
        whole &= np.array_equal(x, data.x[i]) and np.array_equal(z, data.z[j])
        order += i
    ctx.check(paired, tag + "paired", "an input was delivered with another row's observation")
    ctx.check(whole, tag + "rows-intact", "a delivered row differs from the data set")
    sizes = [len(ids(b)[0]) for b in batches]
    want = [bs] * (n // bs) + ([] if drop or n % bs == 0 else [n % bs])
    ctx.check(sizes == want, tag + "batch-sizes", f"{sizes} expected {want}")
    if drop:
        ctx.check(
            len(set(order)) == len(order) == (n // bs) * bs,
            tag + "exactly-once",
            f"{len(order)} rows, {len(set(order))} distinct of {n}",
        )
    else:
        ctx.check(sorted(order) == list(range(n)), tag + "exactly-once", f"delivered {sorted(order)} of {n}")
    if not shuffle:
        ctx.check(order == list(range(len(order))), tag + "order", f"{order}")
    return order


@REG.scenario(quick=200)
def histories(ctx):
    """Random sequences of complete, abandoned and interleaved iterations and epoch changes."""
    rng = ctx.rng
    data = Data(rng, 30 if rng.random() < 0.95 else 500)
    n = data.n
    bs = int(rng.choice([1, n, n + 3, int(rng.integers(1, n + 1))]))
    full = rng.random() < 0.1
    if full:
        bs = n
    shuffle = bool(rng.random() < 0.65)
    drop = bool(rng.random() < 0.3)
    seed = int(rng.integers(0, 10**6)) if rng.random() < 0.7 else None

    def make():
        return DataLoader(
            data.dataset(), batch_size=None if full else bs, shuffle=shuffle, drop_last=drop, seed=seed
        )

    dl = make()
    ctx.note(n=n, shards=data.shards, batch=bs, shuffle=shuffle, drop_last=drop, seed=seed, z=data.zs)
    ctx.state(len(data.shards), shuffle, drop, seed is not None, n % bs == 0, bs > n)
    nb = n // bs if (drop or n % bs == 0) else n // bs + 1
    ctx.check(len(dl) == nb, "length", f"len {len(dl)}, expected {nb}")
    epoch = 0
    seen = {}

    def judge_order(order, e):
        if not shuffle or seed is None:
            return
        if e in seen:
            ctx.check(seen[e] == order, "order-is-function-of-seed-and-epoch", f"epoch {e}: {order} then {seen[e]}")
        seen[e] = order
        twin = make()
        twin.set_epoch(e)
        t = [r for b in twin for r in ids(b)[0]]
        ctx.check(t == order, "order-same-in-another-loader", f"epoch {e}: {order} / {t}")

    ops = []
    for _ in range(int(rng.integers(3, 9))):
        op = str(rng.choice(["full", "full", "abandon", "interleave", "set_epoch", "noise", "len"]))
        ops.append(op)
        if op == "full":
            judge_order(judge_pass(ctx, data, bs, drop, list(dl), shuffle), epoch)
            epoch += 1
        elif op == "abandon":
            it = iter(dl)
            k = int(rng.integers(0, nb)) if nb else 0
            part = list(itertools.islice(it, k))
            rows = [r for b in part for r in ids(b)[0]]
            ctx.check(len(set(rows)) == len(rows) == k * bs or (k == nb), "partial-no-repeats", f"{rows}")
            if not shuffle:
                ctx.check(rows == list(range(len(rows))), "partial-order", f"{rows}")
            del it
        elif op == "interleave":
            # two passes over the same loader advanced in random alternation
            its = [iter(dl), iter(dl)]
            logs = [[], []]
            start = [None, None]
            alive = [0, 1]
            while alive:
                k = int(rng.choice(alive))
                if start[k] is None:
                    start[k] = epoch
                try:
                    logs[k].append(next(its[k]))
                except StopIteration:
                    alive.remove(k)
                    epoch += 1
                if rng.random() < 0.2:
                    gnp.rand(2)
            for k in (0, 1):
                judge_order(judge_pass(ctx, data, bs, drop, logs[k], shuffle, "interleaved-"), start[k])
        elif op == "set_epoch":
            epoch = int(rng.integers(0, 50))
            dl.set_epoch(epoch)
        elif op == "noise":
            gnp.rand(int(rng.integers(1, 5)))
            if rng.random() < 0.5:
                gnp.set_seed(int(rng.integers(0, 1000)))
        else:
            ctx.check(len(dl) == nb, "length", f"len {len(dl)}")
    ctx.state(tuple(ops[:4]))
    if shuffle and seed is not None and n >= 14 and not (drop and (n // bs) * bs < 14) and bs <= n:
        dl.set_epoch(0)
        a = [r for b in dl for r in ids(b)[0]]
        b2 = [r for b in dl for r in ids(b)[0]]
        c = [r for b in dl for r in ids(b)[0]]
        if len(data.shards) == 1 or bs < n:
            one = len(data.shards) == 1
            # within a batch sharded rows are grouped by shard; across batches they move
            if one:
                ctx.check(a != b2 and b2 != c, "epochs-differ", f"{a} / {b2}")
                ctx.check(a != sorted(a) or b2 != sorted(b2), "shuffles", f"{a}")


@REG.scenario(quick=8)
def many_epochs(ctx):
    """Seeded shuffles over many epochs and seeds: no order comes back, every row visits every place."""
    rng = ctx.rng
    n = int(rng.integers(15, 40))
    bs = int(rng.integers(1, n + 1))
    x = np.arange(n) * 1.0
    seed = int(rng.integers(0, 10**6))
    dl = DataLoader(Dataset(gnp.asarray(x.reshape(-1, 1)), gnp.asarray(x * 10.0 + 3.0)), batch_size=bs, shuffle=True, seed=seed)
    E = 40
    orders = [tuple(r for b in dl for r in ids(b)[0]) for _ in range(E)]
    ctx.note(n=n, batch=bs, seed=seed, epochs=E)
    ctx.state(n, bs)
    ctx.check(len(set(orders)) == E, "orders-distinct", f"{len(set(orders))} different orders in {E} epochs")
    # a row is at one place with probability 1/n: E * n (row, place) pairs on the diagonal and beyond
    P = np.array(orders)
    ctx.check(np.all(np.sort(P, axis=1) == np.arange(n)), "exactly-once", "")
    # the mean place of a row over the epochs is the middle (sum of E uniform places)
    place = np.argsort(P, axis=1)
    dev = np.abs(place.mean(0) - (n - 1) / 2) / (n * np.sqrt(1 / 12 / E))
    ctx.check(float(dev.max()) < 7.5, "places-balanced", f"row {int(dev.argmax())} at mean place {place.mean(0)[int(dev.argmax())]:.2f} of {n}")
    # fixed points and neighbours kept together are as rare as in uniform permutations
    fixed = float((P == np.arange(n)).sum())
    succ = float((np.diff(P, axis=1) == 1).sum())
    ctx.check(fixed < E + 9 * np.sqrt(E), "few-fixed-points", f"{fixed} in {E} epochs")
    ctx.check(succ < E + 9 * np.sqrt(E), "few-neighbours", f"{succ} in {E} epochs")


@REG.scenario(quick=2)
def large_data(ctx):
    """Tens of thousands of rows in several arrays."""
    rng = ctx.rng
    n = int(rng.choice([5000, 8192, 20011, 70001]))
    x = np.column_stack([np.arange(n) * 1.0, np.sin(np.arange(n))])
    z = np.arange(n) * 10.0 + 3.0
    cuts = [0] + sorted(rng.integers(0, n, int(rng.integers(0, 4))).tolist()) + [n]
    ds = Dataset([gnp.asarray(x[a:b].copy()) for a, b in zip(cuts, cuts[1:])], [gnp.asarray(z[a:b].copy()) for a, b in zip(cuts, cuts[1:])])
    bs = int(rng.choice([n, n // 2, 4096, 1000, 333]))
    shuffle = bool(rng.random() < 0.7)
    dl = DataLoader(ds, batch_size=bs, shuffle=shuffle, seed=int(rng.integers(0, 1000)))
    ctx.note(n=n, cuts=cuts, batch=bs, shuffle=shuffle)
    ctx.state(n, len(cuts), bs, shuffle)
    for _ in range(2):
        got, ok = [], True
        for b in dl:
            i, j = ids(b)
            ok &= i == j and np.array_equal(to_np(b[0]), x[i])
            got.append(np.array(i))
        order = np.concatenate(got)
        ctx.check(len(got) == -(-n // bs), "batch-count", f"{len(got)}")
        ctx.check(ok, "rows-intact", "")
        ctx.check(np.array_equal(np.sort(order), np.arange(n)), "exactly-once", f"{len(order)} rows, {len(set(order.tolist()))} distinct of {n}")
        if not shuffle:
            ctx.check(np.array_equal(order, np.arange(n)), "order", "")


@REG.scenario(quick=100)
def infinite(ctx):
    """Infinite loaders: each successive run of len(loader) batches is a complete pass."""
    rng = ctx.rng
    data = Data(rng, 20)
    n = data.n
    bs = int(rng.integers(1, n + 1))
    shuffle = bool(rng.random() < 0.6)
    drop = bool(rng.random() < 0.3)
    seed = int(rng.integers(0, 10**6)) if rng.random() < 0.6 else None
    dl = DataLoader(data.dataset(), batch_size=bs, shuffle=shuffle, drop_last=drop, seed=seed, infinite=True)
    nb = len(dl)
    passes = int(rng.integers(2, 5))
    ctx.note(n=n, shards=data.shards, batch=bs, shuffle=shuffle, drop_last=drop, seed=seed, passes=passes)
    ctx.state(len(data.shards), shuffle, drop, seed is not None, n % bs == 0, passes)
    got = list(itertools.islice(iter(dl), nb * passes + 1))
    ctx.check(len(got) == nb * passes + 1, "keeps-going", f"{len(got)} batches")
    orders = [
        judge_pass(ctx, data, bs, drop, got[k * nb : (k + 1) * nb], shuffle) for k in range(passes)
    ]
    if shuffle and seed is not None:
        fin = DataLoader(data.dataset(), batch_size=bs, shuffle=True, drop_last=drop, seed=seed)
        for k in range(passes):
            ctx.check(
                [r for b in fin for r in ids(b)[0]] == orders[k], "same-epochs-as-finite", f"pass {k}: {orders[k]}"
            )
    ctx.raises(lambda: dl[0], "indexing-refused", RuntimeError)


@REG.scenario(quick=100)
def indexing(ctx):
    """Batch access by index and slice equals iteration; refused when meaningless."""
    rng = ctx.rng
    data = Data(rng, 24)
    n = data.n
    bs = int(rng.integers(1, n + 2))
    drop = bool(rng.random() < 0.3)
    dl = DataLoader(data.dataset(), batch_size=bs, shuffle=False, drop_last=drop)
    batches = [(to_np(a), to_np(b)) for a, b in dl]
    nb = len(dl)
    ctx.note(n=n, shards=data.shards, batch=bs, drop_last=drop)
    ctx.state(len(data.shards), drop, n % bs == 0, min(nb, 4))
    judge_pass(ctx, data, bs, drop, batches, False)
    for k in range(-nb, nb):
        x, z = dl[k]
        ctx.equal(x, batches[k][0], "index-x")
        ctx.equal(z, batches[k][1], "index-z")
    ctx.raises(lambda: dl[nb], "out-of-range", IndexError)
    ctx.raises(lambda: dl[-nb - 1], "out-of-range", IndexError)
    for _ in range(6):
        def e():
            return None if rng.random() < 0.3 else int(rng.integers(-nb - 2, nb + 3))

        sl = slice(e(), e(), None if rng.random() < 0.6 else int(rng.choice([-2, -1, 1, 2, 3])))
        got = dl[sl]
        want = batches[sl]
        ok = len(got) == len(want) and all(
            np.array_equal(to_np(g[0]), w[0]) and np.array_equal(to_np(g[1]), w[1]) for g, w in zip(got, want)
        )
        ctx.check(ok, "slice", f"{sl}: {len(got)} batches, expected {len(want)}")
    ctx.raises(lambda: dl["a"], "bad-index", TypeError)
    sh = DataLoader(data.dataset(), batch_size=bs, shuffle=True)
    ctx.raises(lambda: sh[0], "shuffled-refused", RuntimeError)
    ctx.raises(lambda: DataLoader(data.dataset(), batch_size=0), "bad-batch-size", ValueError)
    ctx.raises(lambda: DataLoader(data.dataset(), batch_size=-1), "bad-batch-size", ValueError)
    if batches:
        X, Z = collate_batches(list(dl))
        m = sum(len(b[0]) for b in batches)
        ctx.equal(X, data.x[:m], "collate-x")
        ctx.equal(Z, data.z[:m], "collate-z")
    ctx.raises(lambda: collate_batches([]), "collate-empty", ValueError)


@REG.scenario(quick=80)
def reductions(ctx):
    """reduce_mean is the sample-weighted mean over one complete pass; statistics are the data set's."""
    rng = ctx.rng
    data = Data(rng, 24)
    n = data.n
    bs = int(rng.integers(1, n + 1))
    shuffle = bool(rng.random() < 0.5)
    dl = DataLoader(data.dataset(), batch_size=bs, shuffle=shuffle, seed=3 if rng.random() < 0.5 else None)
    ctx.note(n=n, shards=data.shards, batch=bs, shuffle=shuffle)
    ctx.state(len(data.shards), shuffle, n % bs == 0)
    log = []

    def f(x, z):
        log.append((to_np(x), to_np(z)))
        return gnp.sum(z) / x.shape[0] + 0.1 * x.shape[0]

    got = as_float(dl.reduce_mean(f))
    judge_pass(ctx, data, bs, False, log, shuffle)
    want = sum((z.sum() / len(x) + 0.1 * len(x)) * len(x) for x, z in log) / n
    ctx.close(got, want, "weighted-mean", rtol=1e-12, scale=np.abs(data.z).max() * 2)

    log.clear()

    def g(x, z):
        log.append(len(x))
        return gnp.mean(x, axis=0)

    ctx.close(dl.reduce_mean(g), data.x.mean(0), "weighted-mean-array", rtol=1e-12, scale=np.abs(data.x).max() + 1)
    ds = dl.dataset
    for st, want in (("min", data.x.min(0)), ("max", data.x.max(0)), ("mean", data.x.mean(0))):
        ctx.close(getattr(dl, "dataset_x_" + st)(), want, "dataset-" + st, rtol=1e-12, scale=n + 1.0)
        ctx.close(getattr(ds, "x_" + st)(), want, "dataset-" + st, rtol=1e-12, scale=n + 1.0)


@REG.scenario(quick=20)
def nothing_to_yield(ctx):
    """Loaders without any complete batch finish instead of spinning."""
    rng = ctx.rng
    data = Data(rng, 9)
    bs = data.n + int(rng.integers(1, 4))
    for inf in (False, True):
        dl = DataLoader(data.dataset(), batch_size=bs, shuffle=bool(rng.random() < 0.5), drop_last=True, infinite=inf)
        ctx.note(n=data.n, batch=bs)
        ctx.state(inf, data.n)
        ctx.check(len(dl) == 0, "length", f"{len(dl)}")
        got = list(itertools.islice(iter(dl), 3))
        ctx.check(got == [], "no-batch", f"{len(got)} batches")
