"""C12: data-driven initial guesses, bounds and prior limits follow the data."""

import math

import numpy as np

import gpmp.core
import gpmp.kernel as gk
import gpmp.num as gnp
from gpmp.dataloader import DataLoader, Dataset

from .. import ref
from ..core import Registry, as_float, to_np
from ..gen import Problem

REG = Registry(
    "C12",
    rule="one evaluation = one guess, bound or limit compared with its documented formula, or one "
    "pair of related calls (rescaled, shifted, permuted, loader) compared with each other",
    more=20,
)

GUESSES = ("zero", "constant", "general")


def draw(rng):
    kind = GUESSES[int(rng.integers(3))]
    mt = dict(zero="zero", constant="parameterized", general="linear_predictor")[kind]
    for _ in range(400):
        pb = Problem(
            rng,
            n=int(rng.integers(5, 16) if rng.random() < 0.9 else rng.integers(30, 130)),
            d=int(rng.integers(1, 7) if kind != "general" else rng.integers(1, 5)),
            meantype=mt,
            covkind=str(rng.choice(["matern", "matern", "rq"])),
        )
        if pb.n < pb.q + 2 or np.any(np.ptp(pb.xi, axis=0) == 0):
            continue
        # conditioning at the guess itself
        par = np.concatenate([[0.0], -np.log(ref.ball_rho(pb.xi))])
        c = np.linalg.cond(pb.kref(pb.xi, pb.xi, True, par=par))
        if c < 1e9:
            pb.gcond = c
            return kind, pb
    raise RuntimeError("no problem")


def call(kind, model, **data):
    """(mean or None, covparam) as NumPy"""
    if kind == "constant":
        m, c = gk.anisotropic_parameters_initial_guess_constant_mean(model, **data)
        return to_np(m), to_np(c)
    f = dict(
        zero=gk.anisotropic_parameters_initial_guess_zero_mean, general=gk.anisotropic_parameters_initial_guess
    )[kind]
    return None, to_np(f(model, **data))


def arrays(x, z):
    return dict(xi=gnp.asarray(x.copy()), zi=gnp.asarray(z.copy()))


@REG.scenario(quick=160)
def initial_guess(ctx):
    rng = ctx.rng
    kind, pb = draw(rng)
    model = pb.model()
    ctx.note(guess=kind, **pb.describe())
    ctx.state(kind, pb.covkind, pb.d, str(pb.meankind))
    n, d = pb.n, pb.d
    x, z = pb.xi, pb.zi
    P = pb.mref(x) if kind == "general" else None
    m_ref, c_ref = ref.initial_guess(pb.kref, x, z, P, kind)
    tol = 1e-9 + 3e3 * ref.EPS * pb.gcond
    msc = np.abs(z).max()
    zz = z.reshape(-1, 1) if rng.random() < 0.3 else z
    m, c = call(kind, model, **arrays(x, zz))
    ctx.shape(c, (d + 1,), "shape")

    def close(got, want, key, shift=0.0, scale=1.0):
        gm, gc = got
        wm, wc = want
        # log-variance: relative error of the quadratic form
        ctx.close(gc[0], wc[0] + shift, key + "/variance", rtol=0, atol=tol * (1 + abs(wc[0])) * 10)
        ctx.close(gc[1:], wc[1:], key + "/length-scales", rtol=1e-11, scale=np.abs(wc[1:]).max() + 1)
        if kind == "constant":
            ctx.close(gm, np.reshape(wm, (1,)) * scale, key + "/mean", rtol=tol * 10, scale=msc * abs(scale))

    close((m, c), (m_ref, c_ref), "formula")
    # stored parameters are irrelevant
    other = pb.model()
    other.covparam = None
    close(call(kind, other, **arrays(x, z)), (m, c), "stored-parameters")
    # permutation of the observations
    q = rng.permutation(n)
    close(call(kind, model, **arrays(x[q], z[q])), (m, c), "permuted")
    # outputs rescaled
    s = float(10.0 ** rng.uniform(-4, 4)) * rng.choice([-1.0, 1.0])
    close(call(kind, model, **arrays(x, z * s)), (m, c), "rescaled-output", shift=2 * math.log(abs(s)), scale=s)
    # inputs rescaled and shifted per coordinate (stationary covariance; basis invariant)
    if kind != "general" or pb.meankind in ("const", "affine"):
        a = 10.0 ** rng.uniform(-3, 3, d)
        b = rng.normal(size=d) * np.ptp(x, axis=0) * 3
        x2 = (x + b) * a
        want = np.concatenate([[c[0]], c[1:] - np.log(a)])
        gm, gc = call(kind, model, **arrays(x2, z))
        ctx.close(gc[0], want[0], "rescaled-input/variance", rtol=0, atol=1e-7 + 1e5 * ref.EPS * pb.gcond)
        ctx.close(gc[1:], want[1:], "rescaled-input/length-scales", rtol=1e-10, scale=np.abs(want).max() + 1)
    # a loader over the same data in one batch
    if rng.random() < 0.5 and n > 2:
        k = int(rng.integers(1, n))
        data = Dataset(
            [gnp.asarray(x[:k].copy()), gnp.asarray(x[k:].copy())],
            [gnp.asarray(z[:k].copy()), gnp.asarray(z[k:].copy())],
        )
        shards = 2
    else:
        data = Dataset(gnp.asarray(x.copy()), gnp.asarray(z.copy()))
        shards = 1
    dl = DataLoader(data, batch_size=n, shuffle=bool(rng.random() < 0.5))
    ctx.state(kind, "loader", shards)
    close(call(kind, model, dataloader=dl), (m, c), "one-batch-loader")
    if n >= 2 * (pb.q + 3):
        # several batches: extent of all the data, sample-weighted average of per-batch figures
        bs = int(rng.integers(pb.q + 3, n // 2 + 1))
        parts = [(x[i : i + bs], z[i : i + bs]) for i in range(0, n, bs)]
        if len(parts[-1][1]) >= pb.q + 2:
            dl = DataLoader(Dataset(gnp.asarray(x.copy()), gnp.asarray(z.copy())), batch_size=bs, shuffle=False)
            gm, gc = call(kind, model, dataloader=dl)
            ctx.close(gc[1:], c[1:], "loader/length-scales", rtol=1e-11, scale=np.abs(c).max() + 1)
            ctx.check(np.all(np.isfinite(gc)), "loader/finite", f"{gc}")
            # generalised least squares per batch, at the common length scales, weighted by size
            s2 = mean = 0.0
            for xb, zb in parts:
                K = pb.kref(xb, xb, True, par=np.concatenate([[0.0], c[1:]]))
                if kind == "general":
                    W = ref.contrasts(pb.mref(xb))
                    y = W.T @ zb
                    s2 += float(y @ ref.solve_refined(W.T @ K @ W, y))
                else:
                    u = ref.solve_refined(K, np.column_stack([zb, np.ones(len(zb))]))
                    s2 += float(zb @ u[:, 0])
                    mean += len(zb) * float(u[:, 0].sum() / u[:, 1].sum())
            ctx.close(gc[0], math.log(s2 / n), "loader/variance", rtol=0, atol=tol * 100 * (1 + abs(c[0])))
            if kind == "constant":
                ctx.close(gm, np.array([mean / n]), "loader/mean", rtol=tol * 100, scale=msc)


def column(rng, n):
    """One input coordinate: spread, duplicated, constant, extreme."""
    k = str(rng.choice(["spread", "dup", "const", "tiny", "huge", "far"]))
    v = rng.random(n)
    if k == "dup":
        v = np.round(v * 4) / 4
    elif k == "const":
        v = np.full(n, rng.normal())
    elif k == "tiny":
        v = v * 1e-8
    elif k == "huge":
        v = v * 1e9
    elif k == "far":
        v = np.round(v, 3) + 1e6
    return k, v


def gap_range(v):
    g = np.diff(np.sort(v))
    g = g[g > 0]
    return (float(g.min()) if len(g) else math.inf), float(np.ptp(v))


@REG.scenario(quick=160)
def limits(ctx):
    """Length-scale limits and empirical bounds on awkward designs."""
    rng = ctx.rng
    n = int(rng.integers(1, 20) if rng.random() < 0.8 else rng.integers(20, 300))
    d = int(rng.integers(1, 8))
    kinds, cols = zip(*[column(rng, n) for _ in range(d)])
    x = np.column_stack(cols)
    s = float(10.0 ** rng.uniform(-3, 3))
    z = rng.normal(size=n) * s + rng.normal() * s
    fac = float(rng.choice([0.05, rng.uniform(1e-3, 1.5)]))
    ctx.note(n=n, columns=kinds, factor=fac)
    ctx.state(kinds, min(n, 3))
    X = gnp.asarray(x.copy())
    with np.errstate(all="ignore"):
        want = ref.logrho_min(x, fac)
        got = to_np(gk.compute_logrho_min_from_xi(X, fac))
        ctx.close(got, want, "logrho-min", rtol=1e-10, atol=1e-9)
        ctx.close(to_np(gk.compute_logrho_min_from_xi(X)), ref.logrho_min(x, 0.05), "logrho-min/default", rtol=1e-10, atol=1e-9)
    ctx.raises(lambda: gk.compute_logrho_min_from_xi(X, 0.0), "logrho-min/bad-factor", ValueError)
    ctx.equal(X, x, "inputs-untouched")
    q = rng.permutation(n)
    ctx.close(to_np(gk.compute_logrho_min_from_xi(gnp.asarray(x[q]), fac)), want, "logrho-min/permuted", rtol=1e-10, atol=1e-9)
    a = 10.0 ** rng.uniform(-2, 2, d)
    ctx.close(
        to_np(gk.compute_logrho_min_from_xi(gnp.asarray(x * a), fac)),
        ref.logrho_min(x * a, fac),
        "logrho-min/rescaled",
        rtol=1e-10,
        atol=1e-9,
    )
    if n < 2:
        return
    kw, f = {}, dict(var_lower_factor=2.0, var_upper_factor=10.0, length_lower_factor=2.0)
    if rng.random() < 0.5:
        kw = dict(
            var_lower_factor=float(rng.uniform(0.01, 2)),
            var_upper_factor=float(rng.uniform(3, 100)),
            length_lower_factor=float(rng.uniform(0.1, 5)),
        )
        f.update(kw)
    ml = int(rng.integers(0, 3))
    zz = z.reshape(-1, 1) if rng.random() < 0.3 else z
    b = to_np(gk.empirical_bounds_factory(X, gnp.asarray(zz.copy()), mean_paramlength=ml, **kw))
    ctx.shape(b, (ml + 1 + d, 2), "bounds/shape")
    var = float(np.mean((z - z.mean()) ** 2))
    w = [(-np.inf, np.inf)] * ml
    w.append((math.log(f["var_lower_factor"] * var), math.log(f["var_upper_factor"] * var)))
    for j in range(d):
        g, _ = gap_range(x[:, j])
        w.append((-np.inf, np.inf if g == math.inf else -math.log(f["length_lower_factor"] * g)))
    ctx.close(b, np.array(w), "bounds", rtol=1e-9, scale=10.0)
    ctx.check(np.all(b[:, 0] <= b[:, 1]), "bounds/ordered", f"{b}")
    b0 = to_np(gk.empirical_bounds_factory(X, gnp.asarray(z.copy()), **kw))
    ctx.close(b0, np.array(w[ml:]), "bounds/default-mean", rtol=1e-9, scale=10.0)
