"""C05: simulated paths follow the model; conditional paths honour the data."""

import numpy as np
from scipy import stats

import gpmp.num as gnp

from .. import ref
from ..core import Registry, to_np
from ..faults import observed
from ..gen import Problem

REG = Registry(
    "C05",
    "Random point sets and covariances. Unconditional paths: whitened draws tested against "
    "the standard normal law, and the map from the observed white noise to the paths "
    "recovered and compared with the covariance. Conditional paths: the affine map from "
    "unconditional paths to conditional ones recovered by probing and compared with the "
    "exact posterior.",
    ["condition number of the generated systems at most 1e6",
     "statistical monitors use a threshold of 1e-10 per test"],
    more=20,
)
PMIN = 1e-10


def full_points(pb):
    return np.vstack([pb.xi, pb.xt])


@REG.scenario(quick=60)
def unconditional(ctx):
    pb = Problem(ctx.rng, meantype="zero", nmax=14)
    method = str(ctx.rng.choice(["chol", "svd"]))
    check = bool(ctx.rng.random() < 0.5)
    N = 3000
    ctx.note(method=method, **pb.describe())
    ctx.state(method, pb.covkind, pb.d, pb.n)
    model = pb.model()
    K = pb.kref(pb.xi, pb.xi, True)
    noise = []
    with observed(gnp, "randn", after=lambda r, *a, **k: noise.append(to_np(r))):
        z = model.sample_paths(gnp.asarray(pb.xi.copy()), N, method=method, check_result=check)
    z = to_np(z)
    ctx.shape(z, (pb.n, N), "shape")
    L = np.linalg.cholesky(K)
    u = np.linalg.solve(L, z)
    p = stats.kstest(u.reshape(-1), "norm").pvalue
    ctx.check(p > PMIN, "whitened law", f"KS p={p:.2e}, std={u.std():.4f}")
    # every coordinate pair: correlations of whitened coordinates
    S = u @ u.T / N
    lim = 7.5 / np.sqrt(N)
    off = S - np.eye(pb.n)
    ctx.check(np.max(np.abs(off)) < lim * np.sqrt(2) + pb.rtol(ctx.backend) * 1e2, "whitened covariance",
              f"max deviation {np.abs(off).max():.3f}")
    ctx.check(np.max(np.abs(u.mean(1))) < lim, "centred", f"{np.abs(u.mean(1)).max():.3f}")
    # paths are independent of one another
    r = np.sum(u[:, 1:] * u[:, :-1]) / np.sqrt(pb.n * (N - 1))
    ctx.check(abs(r) < 7.5, "paths independent", f"z={r:.2f}")
    half = N // 2
    r = np.sum(u[:, :half] * u[:, half : 2 * half]) / np.sqrt(pb.n * half)
    ctx.check(abs(r) < 7.5, "paths independent/halves", f"z={r:.2f}")
    # exact monitor: recover the linear map when the noise drawn is visible
    if len(noise) == 1 and noise[0].size == pb.n * N and noise[0].ndim == 2:
        E = noise[0] if noise[0].shape == (pb.n, N) else noise[0].T
        C = np.linalg.lstsq(E.T, z.T, rcond=None)[0].T
        if np.max(np.abs(C @ E - z)) <= 1e-9 * np.max(np.abs(z)):
            ctx.count("linear maps recovered")
            ctx.close(C @ C.T, K, "map reproduces covariance", rtol=pb.rtol(ctx.backend, 1e-8),
                      scale=K.max())


@REG.scenario(quick=30)
def path_counts(ctx):
    """Shapes and freshness of draws for any number of paths."""
    pb = Problem(ctx.rng, meantype="zero", nmax=8)
    k = int(ctx.rng.choice([1, 1, 2, 7]))
    ctx.note(paths=k, **pb.describe())
    model = pb.model()
    x = gnp.asarray(pb.xi.copy())
    method = str(ctx.rng.choice(["chol", "svd"]))
    a = to_np(model.sample_paths(x, k, method=method))
    b = to_np(model.sample_paths(x, k, method=method))
    ctx.state(k, method, pb.n)
    ctx.shape(a, (pb.n, k), "shape")
    ctx.check(not np.array_equal(a, b), "fresh draws")
    if k > 1:
        ctx.check(len({c.tobytes() for c in a.T}) == k, "distinct paths")


def layout(ctx, idx, allow_col=True):
    kind = str(ctx.rng.choice(["array", "list", "column"] if allow_col else ["array", "list"]))
    if kind == "list":
        return [int(i) for i in idx]
    a = np.asarray(idx, dtype=int)
    return a.reshape(-1, 1) if kind == "column" else a


def indices(ctx, pb, overlap):
    n, m = pb.n, pb.m
    perm = ctx.rng.permutation(n + m)  # where each point sits in the simulation grid
    allx = full_points(pb)
    pos = np.empty(n + m, dtype=int)
    pos[perm] = np.arange(n + m)
    xs = allx[perm]
    xi_ind = pos[:n]
    xt_ind = pos[n:]
    if overlap:
        xt_ind = np.concatenate([xt_ind, xi_ind])[ctx.rng.permutation(n + m)]
    return xs, xi_ind, xt_ind


@REG.scenario(quick=120)
def conditional_map(ctx):
    """Zero and linear-predictor means: exact affine map of the conditioning."""
    noisefree = str(ctx.rng.choice(["matern", "rq", "nonstat", "sqexp"]))
    pb = Problem(ctx.rng, meantype=str(ctx.rng.choice(["zero", "linear_predictor"])),
                 covkind=noisefree, nmax=14)
    overlap = bool(ctx.rng.random() < 0.5)
    xs, xi_ind, xt_ind = indices(ctx, pb, overlap)
    ctx.note(overlap=overlap, **pb.describe())
    ctx.state(overlap, *pb.sig())
    model = pb.model()
    pb.xt = xs[xt_ind]
    mean, var, cov, lam = pb.ref().predict(pb.zi)
    rt = pb.rtol(ctx.backend) + (1e-4 if ctx.backend == "torch" and pb.covkind == "matern0" and overlap else 0)
    rt += 1e-6 if ctx.backend == "torch" and pb.covkind.startswith("matern") and overlap else 0
    ls = 1.0 + np.max(np.sum(np.abs(lam), axis=0))
    _, _, lt = model.predict(pb.xi.copy(), pb.zi.copy(), pb.xt.copy(), return_lambdas=True)
    zi = pb.zi.copy() if ctx.rng.random() < 0.5 else pb.zi.reshape(-1, 1).copy()
    n_all = len(xs)
    ind_i, ind_t = layout(ctx, xi_ind), layout(ctx, xt_ind, allow_col=False)

    def cond(sim, z, conv=True):
        return model.conditional_sample_paths(sim, ind_i, z, ind_t, lt, convert_out=conv)

    zero = cond(np.zeros((n_all, 3)), zi)
    ctx.check(isinstance(zero, np.ndarray), "converted", f"{type(zero)}")
    ctx.close(zero, np.repeat(mean[:, None], 3, axis=1), "posterior mean", rtol=rt,
              scale=(np.abs(mean).max() + np.abs(pb.zi).max()) * ls)
    B = to_np(cond(np.eye(n_all), np.zeros_like(zi), conv=False))
    Kall = pb.kref(xs, xs)
    ctx.close(B @ Kall @ B.T, pb.kref(pb.xt, pb.xt) * 0 + cov, "posterior covariance",
              rtol=rt * 10, scale=(np.max(np.diag(Kall))) * ls**2)
    # arbitrary unconditional paths are pulled exactly through the data
    sim = ctx.rng.normal(size=(n_all, 4)) * pb.sigma * 3
    out = to_np(cond(sim, zi))
    ctx.close(out, B @ sim + zero[:, :1], "affine in the paths", rtol=rt + 1e-9, scale=np.abs(sim).max() * ls * 10)
    if overlap:
        where = {int(i): k for k, i in enumerate(xt_ind)}
        rows = [where[int(i)] for i in xi_ind]
        ctx.close(out[rows], np.repeat(pb.zi[:, None], 4, axis=1), "interpolates", rtol=rt * 10,
                  scale=(np.abs(sim).max() + np.abs(pb.zi).max()) * ls)


@REG.scenario(quick=80)
def conditional_map_parameterized(ctx):
    pb = Problem(ctx.rng, meantype="parameterized", nmax=14,
                 covkind=str(ctx.rng.choice(["matern", "rq", "nonstat", "sqexp"])))
    overlap = bool(ctx.rng.random() < 0.5)
    xs, xi_ind, xt_ind = indices(ctx, pb, overlap)
    ctx.note(overlap=overlap, **pb.describe())
    ctx.state(overlap, *pb.sig())
    model = pb.model()
    pb.xt = xs[xt_ind]
    mean, var, cov, lam = pb.ref().predict(pb.zi)
    rt = pb.rtol(ctx.backend) + (1e-4 if ctx.backend == "torch" and pb.covkind == "matern0" and overlap else 0)
    rt += 1e-6 if ctx.backend == "torch" and pb.covkind.startswith("matern") and overlap else 0
    ls = 1.0 + np.max(np.sum(np.abs(lam), axis=0))
    _, _, lt = model.predict(pb.xi.copy(), pb.zi.copy(), pb.xt.copy(), return_lambdas=True)
    n_all = len(xs)
    ind_i, ind_t = layout(ctx, xi_ind), layout(ctx, xt_ind)

    def cond(sim, z):
        return to_np(model.conditional_sample_paths_parameterized_mean(
            sim, pb.xi.copy(), ind_i, z, pb.xt.copy(), ind_t, lt))

    mi = pb.mref(pb.xi)
    zero = cond(np.zeros((n_all, 2)), pb.zi.copy())
    sc = (np.abs(mean).max() + np.abs(pb.zi).max() + np.abs(mi).max()) * ls
    ctx.close(zero, np.repeat(mean[:, None], 2, axis=1), "posterior mean", rtol=rt, scale=sc)
    B = cond(np.eye(n_all), pb.zi.copy()) - zero[:, :1]
    Kall = pb.kref(xs, xs)
    ctx.close(B @ Kall @ B.T, cov, "posterior covariance", rtol=rt * 10,
              scale=(np.max(np.diag(Kall)) + 1e-6 * sc) * ls**2 * (1 + sc))
    if overlap:
        sim = ctx.rng.normal(size=(n_all, 3)) * pb.sigma
        out = cond(sim, pb.zi.copy())
        where = {int(i): k for k, i in enumerate(xt_ind)}
        rows = [where[int(i)] for i in xi_ind]
        ctx.close(out[rows], np.repeat(pb.zi[:, None], 3, axis=1), "interpolates", rtol=rt * 10,
                  scale=sc + np.abs(sim).max() * ls)


@REG.scenario(quick=16)
def conditional_law(ctx):
    """End to end: simulate, condition, and test the posterior law of the paths."""
    pb = Problem(ctx.rng, meantype="zero", covkind=str(ctx.rng.choice(["matern", "rq"])),
                 nmax=8, m=4, maxcond=1e4)
    ctx.note(**pb.describe())
    ctx.state(*pb.sig())
    N = 3000
    model = pb.model()
    xs = full_points(pb)
    n = pb.n
    sim = model.sample_paths(gnp.asarray(xs.copy()), N, method="svd")
    _, _, lt = model.predict(pb.xi.copy(), pb.zi.copy(), pb.xt.copy(), return_lambdas=True)
    out = to_np(model.conditional_sample_paths(sim, np.arange(n), pb.zi.copy(),
                                               np.arange(n, n + pb.m), lt))
    mean, var, cov, _ = pb.ref().predict(pb.zi)
    w, V = np.linalg.eigh(cov)
    keep = w > 1e-8 * w.max()
    u = (V[:, keep] / np.sqrt(w[keep])).T @ (out - mean[:, None])
    p = stats.kstest(u.reshape(-1), "norm").pvalue
    ctx.check(p > PMIN, "posterior law", f"KS p={p:.2e}")
    S = u @ u.T / N
    ctx.check(np.abs(S - np.eye(len(S))).max() < 11 / np.sqrt(N), "posterior covariance (draws)",
              f"{np.abs(S - np.eye(len(S))).max():.3f}")


@REG.scenario(quick=24)
def few_paths(ctx):
    """The joint law of the paths of one call when only a few are requested."""
    pb = Problem(ctx.rng, meantype="zero", nmax=5)
    k = int(ctx.rng.integers(1, 6))
    method = str(ctx.rng.choice(["chol", "svd"]))
    R = 600
    ctx.note(paths=k, method=method, **pb.describe())
    ctx.state(k, method, pb.n)
    model = pb.model()
    x = gnp.asarray(pb.xi.copy())
    L = np.linalg.cholesky(pb.kref(pb.xi, pb.xi, True))
    u = np.stack([np.linalg.solve(L, to_np(model.sample_paths(x, k, method=method))) for _ in range(R)])
    ctx.observe(u[:3])
    p = stats.kstest(u.reshape(-1), "norm").pvalue
    ctx.check(p > PMIN, "few/whitened law", f"KS p={p:.2e}, std={u.std():.4f}")
    w = u.reshape(R, -1)
    S = w.T @ w / R
    dev = np.abs(S - np.eye(len(S)))
    lim = 7.5 / np.sqrt(R)
    ctx.check(np.diag(dev).max() < lim * 1.6, "few/variance", f"{np.diag(dev).max():.3f}")
    np.fill_diagonal(dev, 0.0)
    ctx.check(dev.max() < lim, "few/paths and coordinates independent", f"{dev.max():.3f}")
    # successive calls are independent too
    c = np.abs(w[1:].T @ w[:-1] / (R - 1)).max()
    ctx.check(c < lim, "few/calls independent", f"{c:.3f}")


@REG.scenario(quick=16)
def larger_grids(ctx):
    """Exact path map on larger point sets."""
    pb = Problem(ctx.rng, meantype="zero", n=int(ctx.rng.integers(40, 110)))
    method = str(ctx.rng.choice(["chol", "svd"]))
    ctx.note(method=method, **pb.describe())
    ctx.state(method, pb.covkind, "large")
    model = pb.model()
    K = pb.kref(pb.xi, pb.xi, True)
    N = 2000
    z = to_np(model.sample_paths(gnp.asarray(pb.xi.copy()), N, method=method))
    ctx.shape(z, (pb.n, N), "shape")
    u = np.linalg.solve(np.linalg.cholesky(K), z)
    p = stats.kstest(u.reshape(-1)[:: max(1, pb.n // 20)], "norm").pvalue
    ctx.check(p > PMIN, "large/whitened law", f"KS p={p:.2e}, std={u.std():.4f}")
    q = (u**2).sum() / u.size
    ctx.check(abs(q - 1) < 7.5 * np.sqrt(2 / u.size) + pb.rtol(ctx.backend), "large/variance", f"{q}")
    S = u @ u.T / N - np.eye(pb.n)
    ctx.check(np.abs(S).max() < 8.0 / np.sqrt(N) * np.sqrt(2), "large/whitened covariance", f"{np.abs(S).max():.3f}")
