"""C25: seeded programs are reproducible and calls leave no hidden traces.

A catalogue of public calls is run in generated histories.  Monitors: two executions of a re-seeded
history (in one process, after unrelated calls and with foreign random streams shifted, or in a fresh
interpreter) must agree result by result; inputs, models and arrays returned by user functions are
fingerprinted before and after every call; deterministic calls are repeated in other positions of other
histories while the arrays returned earlier are overwritten.
"""

import contextlib
import io
import json
import os
import pickle
import random
import subprocess
import sys
import warnings

import numpy as np

import gpmp as gp
import gpmp.kernel as gk
import gpmp.num as gnp
from gpmp.dataloader import DataLoader, Dataset, MinMaxScaler, Normalizer, ObservationScaler, RobustScaler
from gpmp.mcmc import knn_cov, nuts, svgd
from gpmp.mcmc import param_posterior as pp
from gpmp.mcmc.mh import MetropolisHastings, MHOptions
from gpmp.misc import scoringrules, testfunctions
from gpmp.parameter import Param

from .. import gen
from ..core import Registry, to_np

REG = Registry(
    "C25",
    more=2,
    rule="one evaluation = one result compared between two executions of a history, or one input compared before and after a call",
    assumptions=[
        "results of one computation may differ in the last bits between two executions (relative tolerance 1e-9, samplers 1e-6)",
        "the model updates documented by select_/update_parameters are not traces",
    ],
)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def A(v):
    return gnp.asarray(np.array(v, dtype=float))


# -- the catalogue: name -> builder(rng) -> (inputs, function of the inputs) -----------------

RANDOM, FIXED = {}, {}


def rnd(f):
    RANDOM[f.__name__.strip("_")] = f
    return f


def fixed(f):
    FIXED[f.__name__.strip("_")] = f
    return f


def problem(rng, **kw):
    kw = {**dict(maxcond=1e5, nmax=10), **kw}
    return gen.Problem(rng, **kw)


class Store:
    """Arrays handed out by user functions, fingerprinted when handed out."""

    def __init__(self, f):
        self.f, self.kept = f, []

    def __call__(self, *args, **kw):
        v = self.f(*args, **kw)
        if gnp.isarray(v) and not getattr(v, "requires_grad", False):
            self.kept.append((v, finger(v)))
        return v

    def intact(self):
        return all(finger(v) == h for v, h in self.kept)


def watched_model(pb):
    model = pb.model()
    model.covariance = Store(model.covariance)
    if model.mean is not None:
        model.mean = Store(model.mean)
    return model


def form(rng, a):
    k = int(rng.integers(3))
    return [a.copy(), gnp.asarray(a.copy()), np.asfortranarray(a.copy())][k]


# random calls


@rnd
def _rand(rng):
    k = tuple(int(i) for i in rng.integers(1, 5, int(rng.integers(0, 3))))
    return {}, lambda i: [gnp.rand(*k), gnp.randn(*k)]


@rnd
def _choice(rng):
    n = int(rng.integers(3, 9))
    p = rng.dirichlet(np.ones(n))
    k = int(rng.integers(1, 4))
    return dict(p=p), lambda i: [gnp.choice(n, k), gnp.choice(n, k, replace=False), gnp.choice(n, k, p=i["p"])]


@rnd
def _choice_of_items(rng):
    return dict(a=A(rng.standard_normal(6))), lambda i: [gnp.choice(i["a"], 3, replace=False), gnp.choice(i["a"], 4)]


@rnd
def _permutation(rng):
    n = int(rng.integers(3, 9))
    return dict(x=A(rng.standard_normal(n)), y=A(rng.standard_normal((n, 2)))), lambda i: [gnp.permutation(n), gnp.permutation(i["x"]), gnp.permutation(i["y"])]


@rnd
def _normal_draws(rng):
    d = int(rng.integers(2, 4))
    b = rng.standard_normal((d, d + 1))
    return dict(m=A(rng.standard_normal(d)), S=A(b @ b.T + 0.1 * np.eye(d))), lambda i: [
        gnp.multivariate_normal.rvs(i["m"], i["S"], 3), gnp.multivariate_normal.rvs(0.0, 2.0, 4), gnp.multivariate_normal.rvs(0.0, i["S"], 1)]


@rnd
def _sample_paths(rng):
    pb = problem(rng, meantype="zero")
    model = watched_model(pb)
    how = str(rng.choice(["chol", "svd"]))
    return dict(model=model, xt=gnp.asarray(pb.xt.copy())), lambda i: [i["model"].sample_paths(i["xt"], 3, method=how, check_result=False)]


def dataset(rng, n=None):
    n = n or int(rng.integers(5, 14))
    if rng.uniform() < 0.5:
        k = n // 2
        x, z = rng.standard_normal((n, 2)), rng.standard_normal(n)
        return Dataset([A(x[:k]), A(x[k:])], [A(z[:k]), A(z[k:])])
    return Dataset(A(rng.standard_normal((n, 2))), A(rng.standard_normal(n)))


def arrays(ds):
    return [a for lst in (ds.x_list, ds.z_list) for a in lst]


@rnd
def _split(rng):
    return dict(ds=dataset(rng)), lambda i: [a for part in Dataset.split(i["ds"], (0.6, 0.2, 0.2)) for a in arrays(part)]


@rnd
def _folds(rng):
    n, k = int(rng.integers(6, 12)), int(rng.integers(2, 4))
    return {}, lambda i: [a for f in (Dataset.k_fold_indices(n, k) + Dataset.repeated_k_fold_indices(n, k, 2)) for a in f]


@rnd
def _shuffled_batches(rng):
    b = int(rng.integers(1, 5))
    return dict(ds=dataset(rng)), lambda i: [a for _ in range(2) for xz in DataLoader(i["ds"], batch_size=b, shuffle=True) for a in xz]


@rnd
def _seeded_batches(rng):
    b, s = int(rng.integers(1, 5)), int(rng.integers(100))

    def run(i):
        dl = DataLoader(i["ds"], batch_size=b, shuffle=True, seed=s)
        return [a for _ in range(2) for xz in dl for a in xz] + [gnp.rand(2)]

    return dict(ds=dataset(rng)), run


def target(rng, d):
    m, s = rng.standard_normal(d), np.exp(rng.uniform(-0.5, 0.5, d))
    return lambda q: 0.5 * gnp.sum(((q - A(m)) / A(s)) ** 2)


@rnd
def _metropolis(rng):
    d, c = int(rng.integers(1, 4)), int(rng.choice([1, 2, 4]))
    J = target(rng, d)
    how = str(rng.choice(["RM", "Haario"]))
    x0 = A(rng.standard_normal((c, d)))

    def run(i):
        mh = MetropolisHastings(log_target=lambda x: -J(x), options=MHOptions(dim=d, n_chains=c, adaptation_method=how, adaptation_interval=5, init_msg=None))
        mh.scheduler(i["x0"], n_steps_total=40, burnin_period=20)
        return [mh.x]

    return dict(x0=x0), run


def box(rng, d):
    lo = rng.uniform(-3, -1, d)
    return [lo.tolist(), (lo + rng.uniform(2, 5, d)).tolist()]


def starts(rng, d, c):
    return dict(random_init=True, init_box=box(rng, d)) if rng.uniform() < 0.5 else dict(param_initial_states=A(rng.standard_normal((c, d))))


@rnd
def _posterior_mh(rng):
    d = int(rng.integers(2, 4))
    J = target(rng, d)
    return starts(rng, d, 2), lambda i: [pp.sample_from_selection_criterion_mh(
        selection_criterion=J, n_steps_total=40, burnin_period=10, n_chains=2, n_pool=1, silent=True, show_progress=False, plot_chains=False, plot_empirical_distributions=False, **i)[0]]


@rnd
def _posterior_nuts(rng):
    d, c = int(rng.integers(2, 4)), int(rng.integers(1, 3))
    J = target(rng, d)
    seed = int(rng.integers(100)) if rng.uniform() < 0.3 else None
    mass = dict(init_mass_diag=A(np.exp(rng.standard_normal(d)))) if rng.uniform() < 0.5 else {}
    return {**starts(rng, d, c), **mass}, lambda i: [pp.sample_from_selection_criterion_nuts(
        selection_criterion=J, num_samples=6, num_warmup=10, n_chains=c, max_depth=4, progress=False, verbose=0, seed=seed, **i)[0]]


@rnd
def _nuts(rng):
    d = int(rng.integers(1, 4))
    J = target(rng, d)
    return dict(q=A(rng.standard_normal((2, d)))), lambda i: [nuts.nuts_sample(lambda x: -J(x), i["q"], 6, num_warmup=8, max_depth=4, progress=False, verbose=0)[0]]


@rnd
def _posterior_svgd(rng):
    d = int(rng.integers(1, 4))
    J = target(rng, d)
    return dict(particles_initial=A(rng.standard_normal(d))), lambda i: [pp.sample_from_selection_criterion_svgd(
        selection_criterion=J, n_particles=4, n_steps=4, init_jitter=0.1, progress=False, verbose=0, **i)[0]]


@rnd
def _local_covariance(rng):
    return dict(x=A(rng.standard_normal((12, 2)))), lambda i: [knn_cov.estimate_cov_matrix_knn(i["x"], n_random=4, n_neighbors=5)]


# deterministic calls


@fixed
def _predict(rng):
    pb = problem(rng)
    lam = bool(rng.integers(2))
    return dict(model=watched_model(pb), xi=form(rng, pb.xi), zi=form(rng, pb.zi), xt=form(rng, pb.xt)), lambda i: list(
        i["model"].predict(i["xi"], i["zi"], i["xt"], return_lambdas=lam))


@fixed
def _predict_column(rng):
    pb = problem(rng)
    return dict(model=watched_model(pb), xi=form(rng, pb.xi), zi=form(rng, pb.zi.reshape(-1, 1)), xt=form(rng, pb.xt)), lambda i: list(
        i["model"].predict(i["xi"], i["zi"], i["xt"], convert_out=True))


@fixed
def _loo(rng):
    pb = problem(rng, n=int(rng.integers(6, 10)), d=1)
    return dict(model=watched_model(pb), xi=form(rng, pb.xi), zi=form(rng, pb.zi)), lambda i: list(i["model"].loo(i["xi"], i["zi"]))


@fixed
def _likelihoods(rng):
    pb = problem(rng, n=int(rng.integers(6, 10)), d=int(rng.integers(1, 3)))
    i = dict(model=watched_model(pb), xi=A(pb.xi), zi=A(pb.zi), c=A(pb.covparam))
    if pb.meantype == "parameterized":
        return {**i, "m": A(pb.meanparam)}, lambda i: [i["model"].negative_log_likelihood(i["m"], i["c"], i["xi"], i["zi"])]
    if pb.meantype == "zero":
        return i, lambda i: [i["model"].negative_log_likelihood_zero_mean(i["c"], i["xi"], i["zi"]), i["model"].norm_k_sqrd_with_zero_mean(i["xi"], i["zi"], i["c"])]
    return i, lambda i: [i["model"].negative_log_restricted_likelihood(i["c"], i["xi"], i["zi"]), i["model"].norm_k_sqrd(i["xi"], i["zi"], i["c"])]


@fixed
def _inverses(rng):
    pb = problem(rng, n=6)
    return dict(model=watched_model(pb), xi=A(pb.xi), zi=A(pb.zi), c=A(pb.covparam)), lambda i: [*i["model"].k_inverses(i["xi"], i["zi"], i["c"]), i["model"].fisher_information(i["xi"], i["c"])]


@fixed
def _fisher(rng):
    pb = problem(rng, n=8, d=1, meantype="linear_predictor")
    return dict(model=watched_model(pb), xi=A(pb.xi), c=A(pb.covparam)), lambda i: [i["model"].fisher_information(i["xi"]), i["model"].fisher_information_cpd(i["xi"]), i["model"].fisher_information_cpd(i["xi"], i["c"])]


@fixed
def _kriging(rng):
    pb = problem(rng, meantype=str(rng.choice(["zero", "linear_predictor"])))
    rt = int(rng.integers(-1, 2))
    f = "kriging_predictor_with_zero_mean" if pb.meantype == "zero" else "kriging_predictor"
    return dict(model=watched_model(pb), xi=A(pb.xi), xt=A(pb.xt)), lambda i: list(getattr(i["model"], f)(i["xi"], i["xt"], rt))


@fixed
def _conditioned(rng):
    pb = problem(rng, meantype="linear_predictor", n=6, d=1)
    n, m = pb.n, pb.m
    paths = A(rng.standard_normal((n + m, 2)))

    def run(i):
        lam = i["model"].predict(i["xi"], i["zi"], i["xt"], return_lambdas=True)[2]
        return [i["model"].conditional_sample_paths(i["paths"], i["a"], i["zi"], i["b"], gnp.asarray(lam))]

    return dict(model=watched_model(pb), xi=A(pb.xi), zi=A(pb.zi), xt=A(pb.xt), paths=paths, a=gnp.asarray(np.arange(n)), b=gnp.asarray(np.arange(n, n + m))), run


@fixed
def _conditioned_parameterized(rng):
    pb = problem(rng, meantype="parameterized", n=5, d=1)
    n, m = pb.n, pb.m
    paths = A(rng.standard_normal((n + m, 2)))

    def run(i):
        lam = i["model"].predict(i["xi"], i["zi"], i["xt"], return_lambdas=True)[2]
        return [i["model"].conditional_sample_paths_parameterized_mean(i["paths"], i["xi"], i["a"], i["zi"], i["xt"], i["b"], gnp.asarray(lam))]

    return dict(model=watched_model(pb), xi=A(pb.xi), zi=A(pb.zi), xt=A(pb.xt), paths=paths, a=gnp.asarray(np.arange(n)), b=gnp.asarray(np.arange(n, n + m))), run


@fixed
def _kernels(rng):
    d, p = int(rng.integers(1, 4)), int(rng.integers(0, 6))
    x, y = rng.standard_normal((4, d)), rng.standard_normal((4, d))
    return dict(x=A(x), y=A(y), c=A(rng.uniform(-1, 1, d + 1)), h=A(np.abs(rng.standard_normal(5)))), lambda i: [
        gk.maternp_covariance(i["x"], i["y"], p, i["c"]), gk.maternp_covariance(i["x"], None, p, i["c"]), gk.maternp_covariance(i["x"], i["y"], p, i["c"], True),
        gk.maternp_kernel(p, i["h"]), gk.matern32_kernel(i["h"]), gk.exponential_kernel(i["h"])]


def anisotropic(rng, n=None):
    return problem(rng, n=n or int(rng.integers(8, 14)), d=int(rng.integers(1, 3)), meantype="linear_predictor", covkind="matern")


def constant_mean(pb):
    model = pb.model()
    model.mean = lambda x, p: gnp.ones((x.shape[0], 1))
    return model


@fixed
def _guesses(rng):
    pb = anisotropic(rng)

    def run(i):
        return [gk.anisotropic_parameters_initial_guess(i["model"], i["xi"], i["zi"]), gk.compute_logrho_min_from_xi(i["xi"]),
                np.array([[float(u) for u in b] for b in gk.empirical_bounds_factory(i["xi"], i["zi"])])]

    return dict(model=constant_mean(pb), xi=A(pb.xi), zi=A(pb.zi)), run


@fixed
def _priors(rng):
    pb = anisotropic(rng)
    c0 = pb.covparam + 0.1 * rng.standard_normal(pb.d + 1)

    def run(i):
        a = (i["model"], i["c"], i["xi"], i["zi"])
        return [gk.log_prior_jeffreys_variance(i["c"]), gk.log_prior_power_law(i["c"]), gk.log_prior_gaussian_logsigma2(i["c"], float(c0[0])),
                gk.log_prior_logrho_barrier_linear(i["c"], i["lmin"], i["l0"]), gk.neg_log_restricted_posterior_power_laws_prior(*a),
                gk.neg_log_restricted_posterior_logsigma2_prior(*a, float(c0[0]))]

    return dict(model=constant_mean(pb), c=A(pb.covparam), xi=A(pb.xi), zi=A(pb.zi), lmin=A(-pb.covparam[1:] - 1.5), l0=A(-pb.covparam[1:] + 0.5)), run


@fixed
def _criterion_objects(rng):
    pb = anisotropic(rng)

    def run(i):
        ev, pre, nograd, g = gk.make_selection_criterion_with_gradient(i["model"], gk.negative_log_restricted_likelihood, i["xi"], i["zi"])
        return [ev(i["c"]), nograd(i["c"]), pre(i["c"])] + ([] if g is None else [g(i["c"])])

    return dict(model=constant_mean(pb), c=A(pb.covparam), xi=A(pb.xi), zi=A(pb.zi)), run


@fixed
def _gradients(rng):
    pb = anisotropic(rng)

    def run(i):
        obj = gnp.DifferentiableSelectionCriterion(lambda c, x, z: i["model"].negative_log_restricted_likelihood(c, x, z), i["xi"], i["zi"])
        v = [obj.evaluate(i["c"]), obj.evaluate_no_grad(i["c"]), obj.evaluate_pre_grad(i["c"])]
        return v + ([] if obj.gradient is None else [obj.gradient(i["c"])])

    return dict(model=constant_mean(pb), c=A(pb.covparam), xi=A(pb.xi), zi=A(pb.zi)), run


SELECT = ["reml", "remap", "remap_with_power_laws_prior", "remap_gaussian_logsigma2", "remap_gaussian_logsigma2_and_logrho_prior"]


@fixed
def _selection(rng):
    pb = anisotropic(rng)
    f = getattr(gk, "select_parameters_with_" + str(rng.choice(SELECT)))
    with_start = bool(rng.integers(2)) and f.__name__.endswith("reml")
    i = dict(xi=form(rng, pb.xi), zi=form(rng, pb.zi), method_options=dict(maxiter=30))
    i["xi"], i["zi"] = gnp.asarray(i["xi"]), gnp.asarray(i["zi"])
    if with_start:
        i["covparam0"] = A(pb.covparam)
        if rng.uniform() < 0.5:
            i["bounds"] = [(float(v) - 4, float(v) + 4) for v in pb.covparam]

    def run(i):
        model = constant_mean(pb)
        model, info = f(model, i["xi"], i["zi"], info=True, method_options=i["method_options"], **{k: i[k] for k in ("covparam0", "bounds") if k in i})
        return [model.covparam, info.initial_params if hasattr(info, "initial_params") else 0.0, float(info.fun)]

    return i, run


@fixed
def _updates(rng):
    pb = anisotropic(rng)

    def run(i):
        model = constant_mean(pb)
        model.covparam = gnp.copy(i["c"])
        model, info = gk.update_parameters_with_reml(model, i["xi"], i["zi"], info=True)
        return [model.covparam, float(info.fun)]

    return dict(xi=A(pb.xi), zi=A(pb.zi), c=A(pb.covparam)), run


@fixed
def _loader_guess(rng):
    pb = anisotropic(rng, 12)
    ds = Dataset(A(pb.xi), A(pb.zi))

    def run(i):
        return [gk.anisotropic_parameters_initial_guess(i["model"], dataloader=DataLoader(i["ds"], batch_size=6, shuffle=False))]

    return dict(model=constant_mean(pb), ds=ds), run


@fixed
def _statistics(rng):
    return dict(ds=dataset(rng)), lambda i: [getattr(i["ds"], f"{f}_{s}")() for f in "xz" for s in ("min", "max", "mean", "var", "std", "median")] + [i["ds"].x_quantile(0.3)]


@fixed
def _plain_batches(rng):
    b = int(rng.integers(1, 5))
    return dict(ds=dataset(rng)), lambda i: [a for xz in DataLoader(i["ds"], batch_size=b, shuffle=False) for a in xz]


@fixed
def _scalers(rng):
    x = 5 + rng.standard_normal((7, 2))

    def run(i):
        out = []
        for S in (Normalizer, RobustScaler, MinMaxScaler):
            s = S.fit(i["x"])
            out += [s.transform(i["y"]), s.inverse_transform(i["y"])]
        s = ObservationScaler.fit(i["z"])
        return out + [s.transform(i["z"]), s.inverse_transform(i["z"])]

    return dict(x=A(x), y=A(rng.standard_normal((3, 2))), z=A(rng.standard_normal(7))), run


@fixed
def _performance(rng):
    pb = problem(rng, n=8, d=1, meantype="linear_predictor")
    zt = A(rng.standard_normal(pb.m))

    def run(i):
        r = gp.modeldiagnosis.compute_performance(i["model"], i["xi"], i["zi"], xtzt=(i["xt"], i["zt"]), compute_pit=True)
        return [r[k] for k in sorted(r) if r[k] is not None]

    return dict(model=watched_model(pb), xi=A(pb.xi), zi=A(pb.zi), xt=A(pb.xt), zt=zt), run


@fixed
def _scores(rng):
    m, s, z = rng.standard_normal(4), np.exp(rng.standard_normal(4)), rng.standard_normal(4)
    return dict(m=A(m), s=A(s), z=A(z), a=-0.5, b=1.0), lambda i: [scoringrules.crps_gaussian(i["m"], i["s"], i["z"]), scoringrules.tcrps_gaussian(i["m"], i["s"], i["z"], i["a"], i["b"]),
                                                                    gnp.normal.cdf(i["z"], i["m"], i["s"]), gnp.multivariate_normal.logpdf(i["z"], 0.0, 1.0)]


@fixed
def _functions(rng):
    x = rng.uniform(0, 1, (3, 6))
    return dict(x=x), lambda i: [testfunctions.hartmann6(i["x"]), testfunctions.hartmann4(i["x"][:, :4]), testfunctions.braninhoo(i["x"][:, :2])]


@fixed
def _transport(rng):
    d = int(rng.integers(1, 4))
    J = target(rng, d)
    opts = svgd.SVGDOptions(n_steps=4, verbose=0, progress=False)
    return dict(x=A(rng.standard_normal((4, d))), pre=A(np.exp(rng.standard_normal(d))), box=box(rng, d)), lambda i: [
        svgd.svgd_step(lambda q: -J(q), i["x"], step_size=0.1, preconditioner_diag=i["pre"], sampling_box=i["box"])[0], svgd.svgd_sample(lambda q: -J(q), i["x"], options=opts)[0]]


@fixed
def _layer(rng):
    n = int(rng.integers(2, 6))
    b = rng.standard_normal((n, n + 1))
    S = b @ b.T + 0.5 * np.eye(n)
    return dict(S=A(S), B=A(rng.standard_normal((n, 2))), v=A(rng.standard_normal(n)), t=A(rng.uniform(-1, 1, n))), lambda i: [
        gnp.cholesky(i["S"]), gnp.cholesky_solve(i["S"], i["B"])[0], gnp.cholesky_inv(i["S"]), gnp.solve(i["S"], i["B"]), gnp.cho_solve(gnp.cho_factor(i["S"]), i["B"]),
        gnp.solve_triangular(i["S"], i["B"], lower=True), gnp.logdet(i["S"]), gnp.inv(i["S"]), gnp.svd(i["S"])[1], gnp.sort(i["v"]), gnp.cumsum(i["v"], axis=0),
        gnp.clip(i["v"], -0.5, 0.5), gnp.maximum(i["v"], 0.0), gnp.inftobigf(i["v"]), gnp.cov(i["S"]), gnp.percentile(i["v"], 30.0), gnp.scaled_distance(i["t"], i["S"], i["S"]),
        gnp.scaled_distance_elementwise(i["t"], i["S"], i["S"].T), gnp.diag(i["v"]), gnp.where(i["v"] > 0, i["v"], 0.0), gnp.compute_gammaln(4 * n), gnp.gammaln(gnp.abs(i["v"]) + 1.0)]


@fixed
def _parameters(rng):
    n = int(rng.integers(2, 5))
    v = np.exp(rng.standard_normal(n))
    args = dict(values=v.tolist(), paths=[["a" if k % 2 else "b", f"p{k}"] for k in range(n)], normalizations=["log"] * n, names=[f"p{k}" for k in range(n)])

    def run(i):
        p = Param(**i)
        q = Param(**i)
        q.set_by_name("p0", 0.25)
        s = Param.concat(p[0:1], p[1:n])
        return [p.values, q.values, s.values, p.denormalized_values, np.array(p.indices_by_path_prefix(["b"]), dtype=float)]

    return args, run


@fixed
def _grid(rng):
    n = [int(k) for k in rng.integers(2, 4, 2)]
    return dict(n=n, box=box(rng, 2)), lambda i: [gp.misc.designs.regulargrid(2, i["n"], i["box"]), gp.misc.designs.scale(np.full((1, 2), 0.5), i["box"])]


# -- observation ---------------------------------------------------------------------------


def finger(v):
    """A value that changes when the object is modified."""
    if isinstance(v, np.ndarray):
        return ("np", v.dtype.str, v.shape, v.tobytes())
    if hasattr(v, "detach"):
        return ("t", str(v.dtype), tuple(v.shape), bool(v.requires_grad), v.grad is None, v.detach().cpu().numpy().tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(finger(u) for u in v))
    if isinstance(v, dict):
        return ("d", tuple((k, finger(u)) for k, u in v.items()))
    if isinstance(v, Dataset):
        return ("ds", finger(v.x_list), finger(v.z_list), len(v))
    if isinstance(v, gp.core.Model):
        return ("m", finger(v.covparam), finger(v.meanparam), v.meantype, id(v.mean), id(v.covariance),
                *(f.intact() for f in (v.mean, v.covariance) if isinstance(f, Store)))
    return repr(v) if isinstance(v, (int, float, str, bool, type(None))) else None


def freeze(v):
    if isinstance(v, np.ndarray):
        v.flags.writeable = False
    elif isinstance(v, (list, tuple)):
        for u in v:
            freeze(u)
    elif isinstance(v, dict):
        for u in v.values():
            freeze(u)
    elif isinstance(v, Dataset):
        freeze(v.x_list)
        freeze(v.z_list)


def scribble(v):
    """Overwrite an array the caller owns."""
    try:
        if isinstance(v, np.ndarray) and v.flags.writeable and v.size and v.dtype.kind == "f":
            v[...] = 777.25
        elif hasattr(v, "detach") and not v.requires_grad and v.is_floating_point():
            v.fill_(777.25)
    except (RuntimeError, ValueError):
        pass


def values(res):
    return [np.array(to_np(v), dtype=float) for v in res]


def build(name, seed):
    return {**RANDOM, **FIXED}[name](np.random.default_rng(seed))


def execute(history, wipe=False):
    """Run a history [(name, seed of its inputs)] and return the results of every call."""
    out = []
    for name, seed in history:
        with quiet():
            inputs, f = build(name, seed)
            res = f(inputs)
        out.append((name, values(res)))
        if wipe:
            for v in res:
                scribble(v)
    return out


def draw(rng, names, k):
    return [(str(n), int(rng.integers(2**31))) for n in rng.choice(sorted(names), k)]


def shift_foreign_streams(rng):
    s = int(rng.integers(2**31))
    np.random.seed(s)
    random.seed(s)
    if gnp._gpmp_backend_ == "torch":
        import torch

        torch.manual_seed(s)


CHAINS = {"metropolis", "posterior_mh", "posterior_nuts", "nuts", "posterior_svgd", "selection", "updates", "transport", "guesses"}


def same(ctx, got, want, what):
    for (name, a), (_, b) in zip(got, want):
        ctx.check(len(a) == len(b), f"{name}:{what}", f"{len(a)} results instead of {len(b)}")
        for k, (u, v) in enumerate(zip(a, b)):
            tol = 1e-6 if name in CHAINS else 1e-9
            ctx.observe(u)
            ok = u.shape == v.shape and bool(np.all((np.abs(u - v) <= tol * (np.max(np.abs(v[np.isfinite(v)]), initial=0.0) + 1e-300)) | (u == v) | (np.isnan(u) & np.isnan(v))))
            ctx.check(ok, f"{name}:{what}", f"result {k} of {name} differs: {np.ravel(u)[:4]} instead of {np.ravel(v)[:4]}")


# -- monitors -------------------------------------------------------------------------------


@REG.scenario(quick=60)
def reseeded(ctx):
    rng = ctx.rng
    hist = draw(rng, RANDOM, int(rng.integers(3, 7))) + draw(rng, FIXED, 1)
    rng.shuffle(hist)
    hist = [(str(n), int(s)) for n, s in hist]
    seed = int(rng.integers(2**31))
    ctx.note(history=[n for n, _ in hist], seed=seed)
    ctx.state("reseeded", *sorted({n for n, _ in hist}))
    shift_foreign_streams(rng)
    gnp.set_seed(seed)
    first = execute(hist)
    execute(draw(rng, {**RANDOM, **FIXED}, int(rng.integers(0, 4))), wipe=True)
    for _ in range(int(rng.integers(4))):
        gnp.randn(int(rng.integers(1, 6)))
    shift_foreign_streams(rng)
    gnp.set_seed(seed)
    same(ctx, execute(hist), first, "repeat")
    gnp.set_seed(seed)
    a = to_np(gnp.rand(8))
    gnp.set_seed(seed + 1)
    ctx.check(not np.array_equal(a, to_np(gnp.rand(8))), "seeds", "different seeds give the same numbers")


@REG.scenario(quick=2, thorough=6)
def fresh_process(ctx):
    """The same re-seeded history in a new interpreter (other hash seed, other foreign streams)."""
    rng = ctx.rng
    names = sorted(RANDOM) + sorted(FIXED)
    rng.shuffle(names)
    hist = [(str(n), int(rng.integers(2**31))) for n in names]
    seed = int(rng.integers(2**31))
    ctx.note(seed=seed)
    ctx.state("fresh", *names[:6])
    execute(draw(rng, {**RANDOM, **FIXED}, 3))
    gnp.set_seed(seed)
    here = execute(hist)
    env = {**os.environ, "GPMP_BACKEND": ctx.backend, "PYTHONHASHSEED": str(int(rng.integers(1, 1000)))}
    spec = json.dumps(dict(seed=seed, history=hist, foreign=int(rng.integers(2**31))))
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "gpverif.checks.c25", spec], capture_output=True, env=env, cwd=os.getcwd())
    if p.returncode != 0:
        raise RuntimeError(f"the child interpreter failed: {p.stderr.decode()[-600:]}")
    same(ctx, pickle.loads(p.stdout), here, "fresh")


@REG.scenario(quick=80)
def untouched(ctx):
    """Inputs, models and arrays handed out by user functions are left as they were; read-only inputs do as well."""
    rng = ctx.rng
    for name, seed in draw(rng, {**RANDOM, **FIXED}, 4):
        ctx.state("untouched", name)
        with quiet():
            inputs, f = build(name, seed)
            before = {k: finger(v) for k, v in inputs.items()}
            gnp.set_seed(5)
            res = values(f(inputs))
        for k, v in inputs.items():
            ctx.check(finger(v) == before[k], f"{name}:{k}", f"{name} modified its argument {k}")
        with quiet():
            inputs, f = build(name, seed)
            freeze(inputs)
            gnp.set_seed(5)
            again = values(f(inputs))
        same(ctx, [(name, again)], [(name, res)], "read-only")


@REG.scenario(quick=60)
def positions(ctx):
    """The result of a deterministic call does not depend on its position in a history."""
    rng = ctx.rng
    calls = draw(rng, FIXED, int(rng.integers(2, 6)))
    ctx.state("positions", *sorted({n for n, _ in calls}))
    first = {c: r for c, r in zip(calls, execute(calls, wipe=True))}
    other = draw(rng, {**RANDOM, **FIXED}, int(rng.integers(1, 4)))
    second = calls + calls + other
    rng.shuffle(second)
    second = [(str(n), int(s)) for n, s in second]
    gnp.set_seed(int(rng.integers(2**31)))
    for c, r in zip(second, execute(second, wipe=True)):
        if c in first:
            same(ctx, [r], [first[c]], "position")


@REG.scenario(quick=40)
def same_objects(ctx):
    """One set of inputs and one model used by a sequence of calls: every call still answers as on fresh objects."""
    rng = ctx.rng
    pb = gen.Problem(rng, n=int(rng.integers(7, 11)), d=int(rng.integers(1, 3)), meantype=str(rng.choice(["zero", "linear_predictor"])), maxcond=1e5)
    zero = pb.meantype == "zero"
    X, Z, T, C = A(pb.xi), A(pb.zi), A(pb.xt), A(pb.covparam)
    model = pb.model()
    model.covparam = C
    ops = {
        "predict": lambda m, x, z, t, c: m.predict(x, z, t),
        "predict-zero-neg": lambda m, x, z, t, c: m.predict(x, z, t, zero_neg_variances=False),
        "loo": lambda m, x, z, t, c: m.loo(x, z),
        "inverses": lambda m, x, z, t, c: m.k_inverses(x, z, c),
        "likelihood": lambda m, x, z, t, c: [(m.negative_log_likelihood_zero_mean if zero else m.negative_log_restricted_likelihood)(c, x, z)],
        "norm": lambda m, x, z, t, c: [m.norm_k_sqrd_with_zero_mean(x, z, c) if zero else m.norm_k_sqrd(x, z, c)],
        "gradient": lambda m, x, z, t, c: gnp.value_and_grad(lambda q: (m.negative_log_likelihood_zero_mean if zero else m.negative_log_restricted_likelihood)(q, x, z), c),
        "fisher": lambda m, x, z, t, c: [m.fisher_information(x)],
        "paths": lambda m, x, z, t, c: [m.sample_paths(t, 2, check_result=False)],
        "performance": lambda m, x, z, t, c: [v for v in gp.modeldiagnosis.compute_performance(m, x, z).values() if v is not None],
        "guess": lambda m, x, z, t, c: [gk.anisotropic_parameters_initial_guess_zero_mean(m, x, z)] if zero else [gk.compute_logrho_min_from_xi(x)],
        "repr": lambda m, x, z, t, c: [float(len(str(m)) > 0)],
    }
    names = [str(k) for k in rng.choice(list(ops), int(rng.integers(4, 9)))]
    ctx.note(calls=names, **pb.describe())
    ctx.state("same", pb.meantype, *sorted(set(names)))
    before = [finger(v) for v in (X, Z, T, C)]
    for name in names:
        with quiet():
            gnp.set_seed(3)
            got = values(ops[name](model, X, Z, T, C))
            fresh = pb.model()
            gnp.set_seed(3)
            want = values(ops[name](fresh, A(pb.xi), A(pb.zi), A(pb.xt), A(pb.covparam)))
        same(ctx, [(name, got)], [(name, want)], "same-objects")
        for k, v, h in zip(("xi", "zi", "xt", "covparam"), (X, Z, T, C), before):
            ctx.check(finger(v) == h, f"{name}:{k}", f"{name} modified {k}")
        ctx.check(finger(model.covparam) == before[3], f"{name}:model", f"{name} modified the parameters of the model")


def child():
    spec = json.loads(sys.argv[1])
    np.seterr(all="ignore")
    shift_foreign_streams(np.random.default_rng(spec["foreign"]))
    gnp.set_seed(spec["seed"])
    out = execute([tuple(h) for h in spec["history"]])
    sys.stdout.buffer.write(pickle.dumps(out))


if __name__ == "__main__":
    child()
