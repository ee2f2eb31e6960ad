"""C24: the NumPy and PyTorch backends give the same results.

The same generated programs (random expressions over the numerical layer, models, criteria, priors,
initial guesses, data sets, scalers, diagnostics, distribution functions, transport steps) run on both
backends; every result, or the fact that a call was refused, is an event.  An offline monitor compares
the two event logs entry by entry.
"""

import math
import warnings

import numpy as np

import gpmp as gp
import gpmp.kernel as gk
import gpmp.num as gnp
from gpmp.dataloader import DataLoader, Dataset, MinMaxScaler, Normalizer, ObservationScaler, RobustScaler

from .. import gen
from ..core import Registry, offline_violation, to_np
from .c03 import loo_reference

REG = Registry(
    "C24",
    more=3,
    rule="one evaluation = one result recorded on both backends and compared entry by entry",
    assumptions=[
        "shapes of scalar results ((), (1,), (1, 1)) are not compared",
        "covariance conditioning below 1e6; tolerances grow with it",
        "finite differences (NumPy) against automatic differentiation (PyTorch): relative tolerance 1e-4",
    ],
)

ALL = ("numpy", "torch")


class Log:
    """Records named results with the tolerance at which the backends must agree."""

    def __init__(self, ctx, rtol=1e-9, atol=1e-12):
        self.ctx, self.rtol, self.atol, self.k = ctx, rtol, atol, 0

    def __call__(self, name, func, rtol=None, atol=None):
        self.k += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = func()
        except Exception as exc:
            self.ctx.record(f"{self.k}|{name}|0|0|", f"raised {type(exc).__name__}: {str(exc)[:160]}")
            return None
        parts = v if isinstance(v, (tuple, list)) else [v]
        for i, p in enumerate(parts):
            if p is None or isinstance(p, str):
                continue
            a = np.asarray(to_np(p), dtype=float)
            shape = "x".join(map(str, a.shape if a.size != 1 else ()))
            self.ctx.record(f"{self.k}|{name}[{i}]|{self.rtol if rtol is None else rtol}|{self.atol if atol is None else atol}|{shape}", a)
        return v


@REG.offline_check
def compare(records, meta):
    n, out = 0, []
    a, b = records["numpy"], records["torch"]
    for key in sorted(set(a) & set(b)):
        ra, rb = a[key], b[key]
        bad = None
        da, db = dict(index(ra)), dict(index(rb))
        for k in da:
            n += 1
            if k not in db:
                other = [v for kk, v in db.items() if kk[0] == k[0]]
                text = other[0][1] if other and isinstance(other[0][1], str) else "no result"
                bad = (k[1], f"numpy: {show(da[k])}, torch: {text}")
                break
            bad = differ(k, da[k], db[k])
            if bad:
                break
        if not bad:
            extra = [k for k in db if k not in da]
            if extra:
                bad = (extra[0][1], f"result on torch only: {show(db[extra[0]])}")
        if bad:
            out.append(offline_violation(meta, key[0], bad[0], f"{bad[0]}: {bad[1]}", case=key[1]))
    if not set(a) & set(b):
        out.append(offline_violation(meta, "compare", "nothing", "no pair of executions to compare"))
    return n, out


def index(recs):
    for name, v in recs:
        k, label, rtol, atol, shape = name.split("|", 4)
        yield (int(k), label.split("[")[0] + ("[" + label.split("[")[1] if "[" in label else "")), ((float(rtol), float(atol), shape), v)


def show(e):
    return e[1] if isinstance(e[1], str) else np.array2string(np.asarray(e[1]).ravel()[:4], precision=10)


def differ(k, ea, eb):
    (rtol, atol, sa), va = ea
    (_, _, sb), vb = eb
    if isinstance(va, str) or isinstance(vb, str):
        return None if isinstance(va, str) and isinstance(vb, str) else (k[1], f"numpy: {show(ea)}, torch: {show(eb)}")
    if sa != sb:
        return k[1], f"shape ({sa}) on numpy, ({sb}) on torch"
    va, vb = np.asarray(va, dtype=float), np.asarray(vb, dtype=float)
    va, vb = va.ravel(), vb.ravel()
    same = (va == vb) | (np.isnan(va) & np.isnan(vb))
    fin = np.isfinite(va) & np.isfinite(vb)
    with np.errstate(all="ignore"):
        err = np.where(same, 0.0, np.where(fin, np.abs(va - vb), np.inf))
        scale = float(np.max(np.abs(va[np.isfinite(va)]), initial=0.0))
    if err.size and err.max() > rtol * scale + atol:
        i = int(np.argmax(err))
        return k[1], f"{va[i]:.12g} on numpy, {vb[i]:.12g} on torch (entry {i}, tolerance {rtol * scale + atol:.2g})"
    return None


def A(v):
    return gnp.asarray(np.array(v, dtype=float))


# -- the numerical layer -------------------------------------------------------

VEC, MAT, SPD = "v", "m", "s"

UNARY = ["exp", "log", "log10", "log1p", "sqrt", "sin", "cos", "tan", "tanh", "abs", "floor", "ceil", "isnan", "isinf", "isfinite", "logical_not"]
REDUCE = ["sum", "prod", "mean", "std", "var", "all", "any", "min", "max", "argmin", "argmax", "cumsum", "sort", "diff"]


def layer_ops(rng, n, m):
    """A random call on the numerical layer: (name, callable, data)."""
    special = rng.uniform() < 0.15

    def vec(k=n):
        v = rng.standard_normal(k) * 10.0 ** rng.integers(-2, 3)
        if special and k > 1:
            v[int(rng.integers(k))] = rng.choice([np.inf, -np.inf, np.nan, 0.0])
        return v

    def mat(a=n, b=m):
        return vec(a * b).reshape(a, b)

    def spd(k=n):
        a = rng.standard_normal((k, k + 2))
        return a @ a.T + 0.1 * np.eye(k)

    ax = int(rng.integers(2))
    g = gnp
    fam = str(rng.choice(["unary", "reduce", "binary", "build", "algebra", "distance", "stack", "stat", "misc"]))
    if fam == "unary":
        f = str(rng.choice(UNARY))
        x = mat() if rng.uniform() < 0.5 else vec()
        if f == "logical_not":
            return f, lambda: g.logical_not(A(x) > 0)
        return f, lambda: getattr(g, f)(A(x))
    if fam == "reduce":
        f = str(rng.choice(REDUCE))
        two = rng.uniform() < 0.6 or f in ("min", "max")
        x = mat() if two else vec()
        if f in ("all", "any"):
            if two:
                return f, lambda: getattr(g, f)(A(x) > -1, axis=ax) if f == "all" else g.any(A(x) > 1)
            return f, lambda: getattr(g, f)(A(x) > -1)
        if f in ("std", "var"):
            dd = int(rng.integers(2))
            return f, lambda: getattr(g, f)(A(x), axis=ax if two else None, ddof=dd, keepdims=bool(n % 2))
        if f in ("argmin", "argmax"):
            y = rng.standard_normal(n)
            return f, lambda: getattr(g, f)(A(y))
        if f in ("min", "max"):
            return f, lambda: (getattr(g, f)(A(x), axis=ax), getattr(g, f)(A(x), axis=1 - ax, keepdims=True))
        if two:
            return f, lambda: getattr(g, f)(A(x), axis=ax)
        return f, lambda: getattr(g, f)(A(x), axis=0)
    if fam == "binary":
        f = str(rng.choice(["maximum", "minimum", "matmul", "inner", "einsum", "where", "isclose", "allclose", "array_equal", "logical_and", "logical_or"]))
        if f in ("maximum", "minimum"):
            x, y = vec(), vec()
            s = float(rng.standard_normal())
            k = int(rng.integers(3))
            return f, lambda: getattr(g, f)(A(x), [A(y), A([s]), s][k])
        if f == "matmul":
            x, y, v = mat(), mat(m, n), vec(m)
            return f, lambda: (g.matmul(A(x), A(y)), g.matmul(A(x), A(v)))
        if f == "inner":
            x, y = vec(), vec()
            return f, lambda: g.inner(A(x), A(y))
        if f == "einsum":
            x, y = mat(), mat()
            return f, lambda: (g.einsum("ij,ij->i", A(x), A(y)), g.einsum("ik,jk->ij", A(x), A(y)), g.einsum("i...,i...", A(x), A(y)))
        if f == "where":
            x, y = mat(), mat()
            return f, lambda: (g.where(A(x) > A(y), A(x), A(y)), g.where(A(x) > 0, A(x), 0.0))
        if f in ("isclose", "allclose", "array_equal"):
            x = vec()
            y = x.copy()
            if rng.uniform() < 0.5:
                y[0] += float(rng.choice([1e-12, 1e-3]))
            return f, lambda: getattr(g, f)(A(x), A(y))
        x, y = vec(), vec()
        return f, lambda: getattr(g, f)(A(x) > 0, A(y) > 0)
    if fam == "build":
        f = str(rng.choice(["zeros", "ones", "full", "eye", "arange", "linspace", "logspace", "meshgrid", "like", "diag", "array", "casts"]))
        a, b = np.sort(rng.uniform(-2, 2, 2))
        if f == "zeros" or f == "ones":
            return f, lambda: (getattr(g, f)((n, m)), getattr(g, f)(n))
        if f == "full":
            return f, lambda: g.full((n, m), float(a))
        if f == "eye":
            return f, lambda: g.eye(n)
        if f == "arange":
            return f, lambda: (g.arange(n), g.arange(1, n + 1), g.arange(float(b) + 3.0))
        if f in ("linspace", "logspace"):
            return f, lambda: getattr(g, f)(float(a), float(b), n)
        if f == "meshgrid":
            x, y = vec(), vec(m)
            return f, lambda: list(g.meshgrid(A(x), A(y), indexing="ij"))
        if f == "like":
            x = mat()
            return f, lambda: (g.zeros_like(A(x)), g.ones_like(A(x)), g.full_like(A(x), float(a)), g.copy(A(x)))
        if f == "diag":
            x, y = vec(), mat(n, n)
            return f, lambda: (g.diag(A(x)), g.diag(A(y)), g.trace(A(y)))
        if f == "array":
            x = mat()
            return f, lambda: (g.array(x.tolist()), g.asarray(x.astype(np.float32)), g.asarray(x.tolist()), g.asarray(float(a)), g.asarray([1, 2, 3]), g.asarray(3))
        x = vec()
        if not np.all(np.isfinite(x)):
            x = np.arange(n) * 1.7
        return f, lambda: (g.asint(A(x)), g.asdouble(g.asint(A(x))), g.to_scalar(A(x)[0]), float(g.isarray(A(x))), float(g.isscalar(2.5)), g.to_np(A(x)))
    if fam == "algebra":
        f = str(rng.choice(["cholesky", "cholesky_solve", "cho", "triangular", "solve", "inv", "logdet", "qr", "svd", "cond", "cholesky_inv"]))
        S, B, b = spd(), mat(n, m), vec(n)
        B, b = np.nan_to_num(B, posinf=1, neginf=-1), np.nan_to_num(b, posinf=1, neginf=-1)
        if f == "cholesky":
            return f, lambda: g.cholesky(A(S))
        if f == "cholesky_solve":
            return f, lambda: (g.cholesky_solve(A(S), A(B))[0], g.cholesky_solve(A(S), A(b))[0].reshape(-1), g.cholesky_solve(A(S), A(B))[1])
        if f == "cho":
            low = bool(rng.integers(2))
            return f, lambda: (g.cho_solve(g.cho_factor(A(S), lower=low), A(B)), g.cho_solve(g.cho_factor(A(S), lower=low), A(b)))
        if f == "triangular":
            low, tr, unit = bool(rng.integers(2)), int(rng.integers(2)), bool(rng.integers(2))
            T = np.tril(S) if low else np.triu(S)
            if unit:
                T = T / (4 * np.max(np.abs(S)))
            return f, lambda: (g.solve_triangular(A(T), A(B), trans=tr, lower=low, unit_diagonal=unit), g.solve_triangular(A(T), A(b), trans=tr, lower=low, unit_diagonal=unit))
        if f == "solve":
            G = S + 0.3 * np.triu(np.ones((n, n)), 1)
            return f, lambda: (g.solve(A(G), A(B)), g.solve(A(G), A(b)))
        if f in ("inv", "cholesky_inv"):
            return f, lambda: getattr(g, f)(A(S))
        if f == "logdet":
            return f, lambda: g.logdet(A(S))
        if f == "qr":
            T = np.vstack([S, np.ones((2, n))])
            return f, lambda: [g.abs(v) for v in g.qr(A(T), "reduced")]
        if f == "svd":
            return f, lambda: g.svd(A(S), full_matrices=True, hermitian=True)[1]
        return f, lambda: getattr(g, f)(A(S))
    if fam == "distance":
        x, y, t = rng.standard_normal((n, m)), rng.standard_normal((n + 1, m)), rng.uniform(-1, 1, m)
        z = rng.standard_normal((n, m))
        if rng.uniform() < 0.5:  # coincident points
            y[0], z[0] = x[-1], x[0]
        X = A(x)
        if rng.uniform() < 0.5:
            return "distance-pairs", lambda: (g.scaled_distance_elementwise(A(t), A(x), A(z)), g.scaled_distance_elementwise(A(t), A(x), None))
        return "distance", lambda: (g.cdist(A(x), A(y)), g.scaled_distance(A(t), A(x), A(y)), g.cdist(X, X), g.scaled_distance(A(t), X, X))
    if fam == "stack":
        x, y, u, v = mat(), mat(), vec(), vec()
        w3 = rng.standard_normal((n, m, 3))
        return "stack", lambda: (g.hstack((A(x), A(y))), g.vstack((A(x), A(y))), g.stack((A(u), A(v)), axis=1), g.concatenate((A(u), A(v))), g.concatenate((A(x), A(y)), axis=1),
                                 g.tile(A(u), (2, 1)), g.expand_dims(A(u), 1), g.reshape(A(x), (m, n)), g.transpose(A(x), 0, 1), g.transpose(A(w3), 0, 2), g.transpose(A(w3), 2, 1))
    if fam == "stat":
        x = rng.standard_normal((n + 2, m)) * 3
        q = float(rng.uniform(0, 100))
        k = float(rng.choice([1.0, 2.0, np.inf]))
        return "stat", lambda: (g.cov(A(x).T), g.cov(A(x), rowvar=False), g.cov(A(x).T, ddof=0), g.cov(A(x[:, 0])), g.cov(A(x[:, 0]), rowvar=False), g.cov(A(x), A(x[:, ::-1].copy()), rowvar=False, bias=True), g.cov(A(x[:, 0]), A(x[:, 1])), g.percentile(A(x), q, axis=0), g.percentile(A(x), q, axis=1, keepdims=True),
                                g.percentile(A(x[:, 0]), A([q, 50.0])), g.percentile(A(x[:, 0]), [q, 50.0]), g.norm(A(x[:, 0]), ord=k), g.norm(A(x), axis=1), g.norm(A(x)), g.unique(A(np.round(x[:, 0]))))
    x = vec()
    lo, hi = np.sort(rng.standard_normal(2))
    return "misc", lambda: (g.clip(A(x), float(lo), float(hi)), g.clip(A(x), min=float(lo)), g.nan_to_num(A(x)), g.inftobigf(A(x)), g.gammaln(A(np.abs(np.nan_to_num(x, posinf=1, neginf=1)) + 0.1)),
                            g.compute_gammaln(int(n)), g.sqrt(4.0), g.exp(0.5), g.log(2.0), g.pi, g.eps)


@REG.scenario(quick=200, backends=ALL)
def layer(ctx):
    """Single calls with arguments of all shapes."""
    rng = ctx.rng
    log = Log(ctx, rtol=1e-9, atol=1e-13)
    names = []
    for _ in range(12):
        n, m = int(rng.integers(2, 7)), int(rng.integers(2, 5))
        name, f = layer_ops(rng, n, m)
        names.append(name)
        log(name, f, atol=3e-7 if name == "distance" else None)  # squared distances are expanded
    ctx.state("layer", *sorted(set(names)))


@REG.scenario(quick=120, backends=ALL)
def expressions(ctx):
    """Random straight-line programs: every statement uses earlier results."""
    rng = ctx.rng
    log = Log(ctx, rtol=1e-8, atol=1e-10)
    n = int(rng.integers(2, 6))
    pool = [A(rng.standard_normal((n, n))) for _ in range(2)]
    g = gnp
    S = rng.standard_normal((n, n + 2))
    S = A(S @ S.T + np.eye(n))
    sq = lambda a: g.tanh(a)
    ops = {
        "add": lambda a, b: a + b, "mul": lambda a, b: sq(a) * sq(b), "mm": lambda a, b: g.matmul(sq(a), sq(b)) / n,
        "exp": lambda a, b: g.exp(-g.abs(a)), "log": lambda a, b: g.log1p(g.abs(a)), "sqrt": lambda a, b: g.sqrt(g.abs(a) + 1.0),
        "solve": lambda a, b: g.cholesky_solve(S, sq(a))[0], "T": lambda a, b: a.T, "centre": lambda a, b: a - g.mean(a, axis=0),
        "scale": lambda a, b: a / (1.0 + g.std(a, axis=0, ddof=1)), "max": lambda a, b: g.maximum(a, b), "where": lambda a, b: g.where(a > b, a, b),
        "clip": lambda a, b: g.clip(a, -1.0, 1.0), "sort": lambda a, b: g.sort(a, axis=0), "cum": lambda a, b: g.cumsum(sq(a), axis=1),
        "row": lambda a, b: a + g.sum(sq(b), axis=1).reshape(-1, 1), "dist": lambda a, b: g.scaled_distance(g.zeros(n), sq(a), sq(b) + 1.0),
        "mat": lambda a, b: gk.maternp_kernel(int(n), g.abs(a)), "cov": lambda a, b: g.cov(sq(a).T), "cdf": lambda a, b: g.normal.cdf(a) - g.normal.pdf(b),
        "inv": lambda a, b: g.cholesky_inv(S + g.matmul(sq(a), sq(a).T)), "pow": lambda a, b: sq(a) ** 2 - sq(b) ** 3, "diag": lambda a, b: g.diag(g.diag(a)) + b,
        "einsum": lambda a, b: g.einsum("ij,kj->ik", sq(a), sq(b)), "neg": lambda a, b: -a + 0.5, "idx": lambda a, b: g.hstack((a[:, 1:], b[:, :1])),
    }
    names = [str(o) for o in rng.choice(list(ops), int(rng.integers(4, 12)))]
    for o in names:
        a, b = (pool[int(rng.integers(len(pool)))] for _ in range(2))
        v = log(o, lambda: ops[o](a, b))
        if v is not None:
            pool.append(v)
    ctx.state("expressions", n, *sorted(set(names)))
    ctx.note(program=names)


# -- models --------------------------------------------------------------------


@REG.scenario(quick=120, backends=ALL)
def models(ctx):
    rng = ctx.rng
    pb = gen.Problem(rng, nmax=16)
    model = pb.model()
    t = max(pb.rtol("torch"), 1e-9)
    s, v = pb.sigma, pb.sigma**2
    log = Log(ctx, rtol=t, atol=t * s)
    form = int(rng.integers(3))
    conv = lambda a: [a.copy(), gnp.asarray(a.copy()), np.asfortranarray(a)][form]
    xi, zi, xt = conv(pb.xi), conv(pb.zi), conv(pb.xt)
    kw = {} if form == 1 or rng.uniform() < 0.5 else dict(convert_out=True)
    log("predict", lambda: model.predict(xi, zi, xt, **kw), atol=10 * t * max(s, v))
    log("predict-full", lambda: model.predict(xi, zi, xt, return_lambdas=True)[2], atol=10 * t)
    worst = loo_reference(pb)[2] if pb.n > pb.q + 2 else np.inf
    if worst < 1e7:
        log("loo", lambda: model.loo(xi, zi), rtol=t * max(1.0, worst / pb.cond), atol=30 * t * max(s, v) * max(1.0, worst / pb.cond))
    X, Z, T, C = A(pb.xi), A(pb.zi), A(pb.xt), A(pb.covparam)
    log("covariance", lambda: (model.covariance(X, X, C), model.covariance(X, T, C), model.covariance(T, T, C, True) if pb.covkind != "noisy" else 0.0), atol=t * v)
    if pb.meantype == "zero":
        log("likelihood", lambda: model.negative_log_likelihood_zero_mean(C, X, Z), atol=1e-6 + 100 * t)
        log("norm", lambda: model.norm_k_sqrd_with_zero_mean(X, Z, C), rtol=10 * t)
    elif pb.meantype == "parameterized":
        log("likelihood", lambda: model.negative_log_likelihood(A(pb.meanparam), C, X, Z), atol=1e-6 + 100 * t)
    elif pb.n > pb.q + 1:
        log("likelihood", lambda: model.negative_log_restricted_likelihood(C, X, Z), atol=1e-6 + 100 * t)
        log("norm", lambda: model.norm_k_sqrd(X, Z, C), rtol=10 * t)
        log("fisher-cpd", lambda: model.fisher_information_cpd(X, C), rtol=1e-5 + 100 * t, atol=1e-6)
    log("fisher", lambda: model.fisher_information(X, C), rtol=1e-5 + 100 * t, atol=1e-6)
    log("inverses", lambda: model.k_inverses(X, Z, C), rtol=10 * t)
    if pb.meantype != "parameterized":
        k = int(rng.integers(1, 4))
        ux = np.vstack([pb.xi, pb.xt])
        paths = s * rng.standard_normal((len(ux), k))

        def cond():
            _, _, lam = model.predict(X, Z, T, return_lambdas=True)
            n = pb.n
            return model.conditional_sample_paths(A(paths), gnp.asarray(np.arange(n)), Z, gnp.asarray(np.arange(n, n + pb.m)), gnp.asarray(lam))

        log("conditional-paths", cond, atol=30 * t * s)
    ctx.state("models", *pb.sig())
    ctx.note(**pb.describe())


@REG.scenario(quick=80, backends=ALL)
def kernels(ctx):
    rng = ctx.rng
    log = Log(ctx, rtol=1e-9, atol=1e-12)
    n, d, p = int(rng.integers(1, 8)), int(rng.integers(1, 4)), int(rng.integers(0, 8))
    h = np.concatenate([[0.0], 10.0 ** rng.uniform(-8, 2, 6)])
    x, y = rng.standard_normal((n, d)), rng.standard_normal((n, d))
    par = np.concatenate([[rng.uniform(-3, 3)], rng.uniform(-1, 1, d)])
    log("kernels", lambda: (gk.exponential_kernel(A(h)), gk.matern32_kernel(A(h)), gk.maternp_kernel(p, A(h))))
    log("matern", lambda: gk.maternp_covariance(A(x), A(y), p, A(par)), rtol=1e-8, atol=1e-7 * math.exp(par[0]))
    log("matern-same", lambda: gk.maternp_covariance(A(x), None, p, A(par)), rtol=1e-8, atol=1e-7 * math.exp(par[0]))
    log("matern-pairs", lambda: (gk.maternp_covariance(A(x), A(y), p, A(par), True), gk.maternp_covariance(A(x), None, p, A(par), True)))
    ctx.state("kernels", n, d, p)


@REG.scenario(quick=80, backends=ALL)
def criteria(ctx):
    """Initial guesses, bounds, priors, penalised criteria and their gradients."""
    rng = ctx.rng
    pb = gen.Problem(rng, n=int(rng.integers(8, 18)), meantype="linear_predictor", covkind="matern", maxcond=1e5)
    model = pb.model()
    t = max(pb.rtol("torch"), 1e-9)
    X, Z, C = A(pb.xi), A(pb.zi), A(pb.covparam)
    d = pb.d
    log = Log(ctx, rtol=10 * t, atol=1e-9)
    const = gp.core.Model(lambda x, p: gnp.ones((x.shape[0], 1)), pb.cov, covparam=C)
    log("guess", lambda: gk.anisotropic_parameters_initial_guess(const, X, Z), rtol=1e-7, atol=1e-6)
    log("guess-zero", lambda: gk.anisotropic_parameters_initial_guess_zero_mean(gp.core.Model(None, pb.cov, covparam=C, meantype="zero"), X, Z), rtol=1e-7, atol=1e-6)
    log("guess-constant", lambda: gk.anisotropic_parameters_initial_guess_constant_mean(
        gp.core.Model(lambda x, p: p[0] * gnp.ones((x.shape[0], 1)), pb.cov, meanparam=A([0.0]), covparam=C, meantype="parameterized"), X, Z), rtol=1e-7, atol=1e-6)
    log("rho-min", lambda: (gk.compute_logrho_min_from_xi(X), gk.compute_logrho_min_from_xi(X, 0.2)))
    log("bounds", lambda: [float(u) for b in gk.empirical_bounds_factory(X, Z) for u in b])
    l0 = pb.covparam + 0.1 * rng.standard_normal(d + 1)
    gam, cvg, alpha = float(rng.uniform(1.2, 4)), float(rng.uniform(0.5, 0.95)), float(rng.uniform(0.5, 10))
    log("priors", lambda: (gk.log_prior_jeffreys_variance(C), gk.log_prior_power_law(C), gk.log_prior_gaussian_logsigma2(C, float(l0[0]), gamma=gam, sigma2_coverage=cvg)))
    lmin, l00 = -l0[1:] - 1.0, -l0[1:] + 1.0
    log("barrier", lambda: (gk.log_prior_logrho_barrier_linear(C, A(lmin), A(l00), alpha=alpha), gk.neglog_f_logrho(-C[1:], A(lmin), A(l00), alpha)))
    log("reference", lambda: gk.log_prior_reference(model, C, X), rtol=1e-4 + 1e3 * t, atol=1e-4)
    crits = {
        "reml": lambda m, c, x, z: gk.negative_log_restricted_likelihood(m, c, x, z),
        "power": lambda m, c, x, z: gk.neg_log_restricted_posterior_power_laws_prior(m, c, x, z),
        "sigma": lambda m, c, x, z: gk.neg_log_restricted_posterior_logsigma2_prior(m, c, x, z, float(l0[0]), gamma=gam, sigma2_coverage=cvg),
        "both": lambda m, c, x, z: gk.neg_log_restricted_posterior_logsigma2_and_logrho_prior(m, c, x, z, log_sigma2_0=float(l0[0]), gamma=gam, sigma2_coverage=cvg, logrho_min=A(lmin), logrho_0=A(l00), alpha=alpha),
    }
    for name, f in crits.items():
        log("criterion-" + name, lambda: f(model, C, X, Z), atol=1e-6 + 100 * t)
        log("gradient-" + name, lambda: gnp.value_and_grad(lambda c: f(model, c, X, Z), C)[1], rtol=1e-4, atol=1e-3)
    ctx.state("criteria", d, pb.covkind)
    ctx.note(**pb.describe())


@REG.scenario(quick=36, backends=ALL)
def selection(ctx):
    """A one-parameter selection (unique optimum) reaches the same point."""
    rng = ctx.rng
    pb = gen.Problem(rng, n=int(rng.integers(6, 14)), covkind="matern", meantype=str(rng.choice(["zero", "linear_predictor"])), maxcond=1e5)
    model = pb.model()
    X, Z = A(pb.xi), A(pb.zi)
    rest = A(pb.covparam[1:])
    K = pb.kref(pb.xi, pb.xi, True)
    # no lower than the optimum, whatever the units of the data
    start = pb.covparam[0] + math.log(float(pb.zi.ravel() @ np.linalg.solve(K, pb.zi.ravel())) / pb.n) + 1.0
    log = Log(ctx)

    def crit(p, x, z):
        c = gnp.concatenate((p, rest))
        if pb.meantype == "zero":
            return model.negative_log_likelihood_zero_mean(c, x, z)
        return model.negative_log_restricted_likelihood(c, x, z)

    def run():
        obj = gnp.DifferentiableSelectionCriterion(crit, X, Z)
        p0 = A([start])
        g = obj.gradient if callable(getattr(obj, "gradient", None)) else None
        best, info = gk.autoselect_parameters(p0, obj.evaluate_pre_grad, g, silent=True, info=True)
        return best, float(info.fun)

    log("one-parameter", run, rtol=0.0, atol=2e-3)
    ctx.state("selection", pb.d, pb.meantype, pb.covkind)


# -- data, diagnostics, distributions ---------------------------------------------


@REG.scenario(quick=80, backends=ALL)
def data(ctx):
    rng = ctx.rng
    log = Log(ctx, rtol=1e-9, atol=1e-12)
    shards = int(rng.integers(1, 4))
    d, p = int(rng.integers(1, 4)), int(rng.integers(0, 3))
    sizes = [int(k) for k in rng.integers(2, 9, shards)]
    off = float(rng.choice([0.0, 1e3]))
    xs = [off + rng.standard_normal((k, d)) * 3 for k in sizes]
    zs = [rng.standard_normal((k, p) if p else k) for k in sizes]
    one = shards == 1
    ds = Dataset(A(xs[0]) if one else [A(x) for x in xs], A(zs[0]) if one else [A(z) for z in zs])
    for f in ("x", "z"):
        for s in ("min", "max", "mean", "var", "std", "median"):
            log(f"{f}-{s}", lambda: getattr(ds, f"{f}_{s}")(), rtol=1e-8)
        q = float(rng.uniform())
        log(f"{f}-quantile", lambda: getattr(ds, f"{f}_quantile")(q))
    log("items", lambda: (ds[0][0], ds[len(ds) - 1][1], ds.subset(gnp.asarray(np.array([0, len(ds) - 1])))[1][0]))
    dl = DataLoader(ds, batch_size=int(rng.integers(1, 6)), shuffle=False, drop_last=bool(rng.integers(2)))
    log("batches", lambda: [v for b in dl for v in b])
    log("mean over batches", lambda: dl.reduce_mean(lambda x, z: gnp.sum(x) + gnp.sum(z)))
    x = np.vstack(xs)
    y = rng.standard_normal((4, d))
    for S in (Normalizer, RobustScaler, MinMaxScaler):
        log(S.__name__, lambda: (S.fit(A(x)).transform(A(y)), S.fit(A(x)).inverse_transform(A(y))), rtol=1e-8)
    z = np.concatenate([z.reshape(len(z), -1)[:, 0] for z in zs]) if p else np.concatenate(zs)
    log("ObservationScaler", lambda: (ObservationScaler.fit(A(z)).transform(A(z)), ObservationScaler.fit(A(z)).inverse_transform(A(z))), rtol=1e-8)
    ctx.state("data", shards, d, p)


@REG.scenario(quick=48, backends=ALL)
def diagnostics(ctx):
    rng = ctx.rng
    pb = gen.Problem(rng, n=int(rng.integers(6, 14)), m=6, meantype="linear_predictor", maxcond=1e5)
    model = pb.model()
    t = 1e3 * max(pb.rtol("torch"), 1e-9)
    log = Log(ctx, rtol=t, atol=t)
    zt = pb.zi.mean() + pb.sigma * rng.standard_normal(pb.m)

    def run():
        r = gp.modeldiagnosis.compute_performance(model, A(pb.xi), A(pb.zi), xtzt=(A(pb.xt), A(zt)), compute_pit=True)
        return [r[k] for k in sorted(r)]

    if pb.n > pb.q + 3 and pb.noise == 0.0 and loo_reference(pb)[2] < 1e6:
        log("performance", run)
    mu, s, z = rng.standard_normal(5), np.exp(rng.standard_normal(5)), 3 * rng.standard_normal(5)
    a, b = np.sort(rng.standard_normal(2))
    sr = gp.misc.scoringrules
    log("scores", lambda: (sr.crps_gaussian(A(mu), A(s), A(z)), sr.ei1_up(A(mu), A(s), A(z)), sr.ei2_up(A(mu), A(s), A(z)), sr.tcrps_gaussian(A(mu), A(s), A(z), float(a), float(b)),
                           sr.tcrps_gaussian(A(mu), A(s), A(z), b=float(b)), sr.tcrps_gaussian(mu.tolist(), s.tolist(), z.tolist(), a=float(a))), rtol=1e-6, atol=1e-6)
    N, M = gnp.normal, gnp.multivariate_normal
    log("normal", lambda: (N.cdf(A(z), A(mu), A(s)), N.pdf(A(z), A(mu), A(s)), N.logpdf(A(z), loc=A(mu), scale=A(s)), N.logcdf(A(z), A(mu), A(s)), N.cdf(float(z[0])), N.pdf(A(z), 0.5, 2.0)))
    B = rng.standard_normal((3, 5))
    S = B @ B.T + 0.2 * np.eye(3)
    w = rng.standard_normal((4, 3))
    log("multivariate", lambda: (M.logpdf(A(w), A(mu[:3]), A(S)), M.logpdf(A(w), 0.0, A(S)), M.logpdf(A(z), float(mu[0]), float(s[0])), M.cdf(A(w[:, :2]), 0.0, A(S[:2, :2]))), rtol=1e-6, atol=1e-6)
    c = rng.uniform(-2, 2, 4)
    log("sigma-rho", lambda: list(gp.modeldiagnosis.sigma_rho_from_covparam(A(c)).values()))
    ctx.state("diagnostics", *pb.sig()[:3])


@REG.scenario(quick=36, backends=ALL)
def transport(ctx):
    """Deterministic parts of the samplers."""
    from gpmp.mcmc import knn_cov, svgd

    rng = ctx.rng
    n, d = int(rng.integers(3, 8)), int(rng.integers(1, 4))
    x = rng.standard_normal((n, d))
    m, s = rng.standard_normal(d), np.exp(rng.uniform(-0.5, 0.5, d))
    lp = lambda q: -0.5 * gnp.sum(((q - A(m)) / A(s)) ** 2) + gnp.sum(gnp.sin(5.0 * q)) - 0.05 * gnp.sum(q**4)
    log = Log(ctx, rtol=1e-5, atol=1e-6)
    box = [(m - 2 * s).tolist(), (m + 2 * s).tolist()]
    kw = dict(bandwidth=float(rng.uniform(0.5, 3)) if rng.uniform() < 0.5 else None, bandwidth_scale=float(rng.uniform(0.5, 2)))
    log("kernel", lambda: svgd.rbf_kernel_matrix(A(x), **kw), rtol=1e-9, atol=1e-12)
    log("step", lambda: svgd.svgd_step(lp, A(x), step_size=0.1, temperature=2.0, preconditioner_diag=A(s), sampling_box=box, **kw)[0])
    opts = svgd.SVGDOptions(n_steps=8, step_size=0.05, sampling_box=box if n % 2 else None, verbose=0, progress=False, **kw)
    log("sample", lambda: svgd.svgd_sample(lp, A(x), options=opts)[0])
    log("gradient", lambda: gnp.value_and_grad(lp, A(x[0])), rtol=1e-6)
    log("grad", lambda: gnp.grad(lp)(A(x[0])), rtol=1e-6)
    log("covariance", lambda: (knn_cov.estimate_cov_matrix(A(x)), knn_cov.estimate_cov_matrix_knn(A(x), n_random=n, n_neighbors=n)), rtol=1e-9)
    ctx.state("transport", n, d, kw["bandwidth"] is None)
