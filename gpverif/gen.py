"""Generators of Gaussian-process problems.

Every problem carries a covariance and a mean written for gpmp and independent
NumPy counterparts for the oracles.
"""

import math

import numpy as np

import gpmp.core
import gpmp.kernel
import gpmp.num as gnp

from . import ref

MEAN_KINDS = ("zero", "parameterized", "linear_predictor")


def design(rng, n, d, kind=None):
    """Well separated points in a random box."""
    kind = kind or rng.choice(["lhs", "grid", "far"])
    if kind == "grid" and d <= 2:
        m = int(math.ceil(n ** (1.0 / d)))
        g = np.meshgrid(*[np.linspace(0, 1, m)] * d, indexing="ij")
        x = np.stack([a.reshape(-1) for a in g], axis=1)[:n]
    else:
        x = np.stack(
            [(rng.permutation(n) + 0.5 + 0.6 * (rng.random(n) - 0.5)) / n for _ in range(d)],
            axis=1,
        )
    x = x[rng.permutation(x.shape[0])]
    scale = 10.0 ** rng.uniform(-1.0, 1.5, d) if kind == "far" else np.ones(d)
    shift = rng.normal(size=d) * (3.0 if kind == "far" else 0.0)
    return x * scale + shift * scale, scale


def xp_exp(a):
    return gnp.exp(a)


def _sq(x, y, invrho):
    return (((x[:, None, :] - y[None, :, :]) * invrho) ** 2).sum(-1)


def make_cov(rng, d, scale, n, kind=None):
    """(kind, covariance for gpmp, covparam, NumPy counterpart, noise-free?)

    The counterpart k(x, y, same) returns the dense matrix, `same` meaning that
    both arguments are one set of points (where a nugget or noise enters).
    """
    kind = kind or rng.choice(["matern", "matern", "rq", "nonstat", "noisy", "sqexp"])
    dens = max(1.0, n ** (1.0 / d))
    s2 = float(10.0 ** (rng.uniform(-2, 2) if rng.random() < 0.75 else rng.uniform(-13, 13)))
    # range between one and a few inter-point distances
    rho = scale * rng.uniform(0.7, 3.5, d) / dens
    if kind == "sqexp":
        rho = scale * rng.uniform(0.4, 1.1, d) / dens
    par = np.concatenate([[math.log(s2)], -np.log(rho)])
    if kind == "matern":
        p = int(rng.integers(0, 5))

        def cov(x, y, param, pairwise=False):
            return gpmp.kernel.maternp_covariance(x, y, p, param, pairwise)

        def k(x, y, same=False, par=par):
            K = math.exp(par[0]) * ref.matern_np(p, ref.sdist(x, y, np.exp(par[1:])))
            if same:
                K = K + 10.0 * math.exp(par[0]) * ref.EPS * np.eye(len(x))
            return K

        return f"matern{p}", cov, par, k, 0.0
    if kind in ("rq", "sqexp"):
        a = float(rng.uniform(0.6, 3.0))

        def shape(h2):
            if kind == "sqexp":
                return gnp.exp(-0.5 * h2)
            return (1.0 + h2 / (2 * a)) ** (-a)

        def shape_np(h2):
            return np.exp(-0.5 * h2) if kind == "sqexp" else (1.0 + h2 / (2 * a)) ** (-a)

        def cov(x, y, param, pairwise=False):
            if y is None:
                y = x
            invrho = gnp.exp(param[1:])
            if pairwise:
                h2 = (((x - y) * invrho) ** 2).sum(-1)
            else:
                h2 = _sq(x, y, invrho)
            return gnp.exp(param[0]) * shape(h2)

        def k(x, y, same=False, par=par):
            return math.exp(par[0]) * shape_np(ref.sdist(x, y, np.exp(par[1:])) ** 2)

        return kind, cov, par, k, 0.0
    if kind == "nonstat":
        w = rng.normal(size=d) / scale
        ph = float(rng.uniform(0, 6))

        def amp(x, m):
            return 1.0 + 0.5 * m.cos((x * gnp.asarray(w)).sum(-1) + ph)

        def cov(x, y, param, pairwise=False):
            if y is None:
                y = x
            invrho = gnp.exp(param[1:])
            if pairwise:
                h = gnp.sqrt((((x - y) * invrho) ** 2).sum(-1) + 1e-12)
                return gnp.exp(param[0]) * amp(x, gnp) * amp(y, gnp) * gnp.exp(-h) * (1 + h)
            h = gnp.sqrt(_sq(x, y, invrho) + 1e-12)
            return (
                gnp.exp(param[0])
                * amp(x, gnp)[:, None]
                * amp(y, gnp)[None, :]
                * gnp.exp(-h)
                * (1 + h)
            )

        def anp(x):
            return 1.0 + 0.5 * np.cos(np.sum(x * w, axis=-1) + ph)

        def k(x, y, same=False, par=par):
            h = np.sqrt(ref.sdist(x, y, np.exp(par[1:])) ** 2 + 1e-12)
            return math.exp(par[0]) * anp(x)[:, None] * anp(y)[None, :] * np.exp(-h) * (1 + h)

        return "nonstat", cov, par, k, 0.0
    if kind == "noisy":
        noise = s2 * float(10.0 ** rng.uniform(-4, 0))
        par = np.concatenate([par, [math.log(noise)]])

        def cov(x, y, param, pairwise=False):
            same = y is x or y is None
            if y is None:
                y = x
            invrho = gnp.exp(param[1:-1])
            if pairwise:
                h = gnp.sqrt((((x - y) * invrho) ** 2).sum(-1) + 1e-12)
                v = gnp.exp(param[0]) * gnp.exp(-h) * (1 + h)
                return v + gnp.exp(param[-1]) * (1.0 if same else 0.0)
            h = gnp.sqrt(_sq(x, y, invrho) + 1e-12)
            K = gnp.exp(param[0]) * gnp.exp(-h) * (1 + h)
            if same:
                K = K + gnp.exp(param[-1]) * gnp.eye(x.shape[0])
            return K

        def k(x, y, same=False, par=par):
            h = np.sqrt(ref.sdist(x, y, np.exp(par[1:-1])) ** 2 + 1e-12)
            K = math.exp(par[0]) * np.exp(-h) * (1 + h)
            if same:
                K = K + math.exp(par[-1]) * np.eye(len(x))
            return K

        return "noisy", cov, par, k, noise
    raise ValueError(kind)


def make_mean(rng, d, scale, meantype, qmax=6):
    """(kind, mean for gpmp, meanparam, NumPy counterpart)"""
    if meantype == "zero":
        return "zero", None, None, None
    if meantype == "parameterized":
        kind = rng.choice(["const", "affine", "wave"])
        if kind == "const":
            mp = rng.normal(size=1) * 5

            def mean(x, param):
                return param[0] * gnp.ones((x.shape[0], 1))

            def m(x, mp=mp):
                return mp[0] * np.ones(len(x))

        elif kind == "affine":
            mp = np.concatenate([rng.normal(size=1) * 5, rng.normal(size=d) / scale])

            def mean(x, param):
                return (param[0] + (x * param[1:]).sum(-1)).reshape(-1, 1)

            def m(x, mp=mp):
                return mp[0] + x @ mp[1:]

        else:
            mp = np.array([float(rng.normal() * 3), float(1.0 / scale[0])])

            def mean(x, param):
                return param[0] * gnp.sin(param[1] * x[:, 0])

            def m(x, mp=mp):
                return mp[0] * np.sin(mp[1] * x[:, 0])

        return kind, mean, mp, m
    kind = rng.choice(["const", "const", "affine", "quad1", "trig", "quadratic"])
    if kind == "quadratic" and d > 2:
        kind = "affine"
    if kind == "const":

        def mean(x, param):
            return gnp.ones((x.shape[0], 1))

        def P(x):
            return np.ones((len(x), 1))

    elif kind == "affine":

        def mean(x, param):
            return gnp.hstack((gnp.ones((x.shape[0], 1)), x))

        def P(x):
            return np.hstack([np.ones((len(x), 1)), x])

    elif kind == "quadratic":  # all monomials of degree at most two, in raw inputs

        def mean(x, param):
            cols = [gnp.ones((x.shape[0], 1)), x]
            cols += [x[:, i : i + 1] * x[:, j : j + 1] for i in range(d) for j in range(i, d)]
            return gnp.hstack(tuple(cols))

        def P(x):
            cols = [np.ones((len(x), 1)), x]
            cols += [x[:, i : i + 1] * x[:, j : j + 1] for i in range(d) for j in range(i, d)]
            return np.hstack(cols)

    elif kind == "quad1":

        def mean(x, param):
            u = x[:, :1]
            return gnp.hstack((gnp.ones((x.shape[0], 1)), u, u * u))

        def P(x):
            u = x[:, :1]
            return np.hstack([np.ones((len(x), 1)), u, u * u])

    else:
        w = 2.0 / scale[0]

        def mean(x, param):
            u = w * x[:, :1]
            return gnp.hstack((gnp.sin(u), gnp.cos(u), 1.0 + gnp.sin(2.0 * u)))

        def P(x):
            u = w * x[:, :1]
            return np.hstack([np.sin(u), np.cos(u), 1.0 + np.sin(2.0 * u)])

    return kind, mean, None, P


class Problem:
    def __init__(self, rng, n=None, d=None, m=None, meantype=None, covkind=None, maxcond=1e6,
                 nmax=24, dkind=None):
        for _ in range(200):
            self._draw(rng, n, d, m, meantype, covkind, nmax, dkind)
            if self.meantype == "linear_predictor" and self.n < self.q + 2:
                continue
            try:
                c = self.ref().cond()
            except Exception:
                continue
            if np.isfinite(c) and c < maxcond:
                self.cond = float(c)
                return
        raise RuntimeError("no well conditioned problem found")

    def _draw(self, rng, n, d, m, meantype, covkind, nmax, dkind):
        self.d = d or int(rng.integers(1, 5))
        self.n = n or int(rng.integers(1, nmax + 1))
        self.m = m or int(rng.integers(1, 9))
        self.meantype = meantype or str(rng.choice(MEAN_KINDS))
        self.xi, self.scale = design(rng, self.n, self.d, dkind)
        self.n = len(self.xi)
        self.covkind, self.cov, self.covparam, self.kref, self.noise = make_cov(
            rng, self.d, self.scale, self.n, covkind
        )
        self.meankind, self.mean, self.meanparam, self.mref = make_mean(
            rng, self.d, self.scale, self.meantype
        )
        lo, hi = self.xi.min(0), self.xi.max(0)
        span = np.where(hi > lo, hi - lo, self.scale)
        self.xt = lo + span * rng.uniform(-0.3, 1.3, (self.m, self.d))
        self.q = self.mref(self.xi).shape[1] if self.meantype == "linear_predictor" else 0
        sig = math.exp(0.5 * self.covparam[0])
        self.zi = sig * rng.normal(size=self.n) + rng.normal() * sig * 2
        if rng.random() < 0.12:  # data that do not look like the model
            self.zi = self.zi * 10.0 ** rng.uniform(-4, 5)
        self.sigma = sig

    def ref(self, xi=None, xt=None, par=None):
        xi = self.xi if xi is None else xi
        xt = self.xt if xt is None else xt
        kw = {} if par is None else dict(par=par)
        Kii = self.kref(xi, xi, True, **kw)
        Kit = self.kref(xi, xt, False, **kw)
        Ktt = self.kref(xt, xt, True, **kw)
        if self.covkind.startswith("matern"):
            Ktt = Ktt - 10.0 * math.exp(self.covparam[0]) * ref.EPS * np.eye(len(xt))
        a = {}
        if self.meantype == "linear_predictor":
            a = dict(P=self.mref(xi), Pt=self.mref(xt))
        elif self.meantype == "parameterized":
            a = dict(mi=self.mref(xi), mt=self.mref(xt))
        return ref.RefGP(Kii, Kit, Ktt, self.meantype, **a)

    def model(self):
        return gpmp.core.Model(
            self.mean,
            self.cov,
            None if self.meanparam is None else gnp.asarray(self.meanparam.copy()),
            gnp.asarray(self.covparam.copy()),
            meantype=self.meantype,
        )

    def zsize(self):
        """Magnitude of the numbers entering a prediction (data and known mean)."""
        zs = float(np.max(np.abs(self.zi))) + self.sigma
        if self.meantype == "parameterized":
            zs += float(np.max(np.abs(self.mref(self.xi))))
        return zs

    def rtol(self, backend, base=1e-9):
        """Relative tolerance for quantities obtained by solving with Kii.

        The PyTorch distance expands |x|^2 + |y|^2 - 2xy, hence an error of order
        eps * |x / rho|^2 in the squared scaled distances of the library kernels.
        """
        amp = 1.0
        if backend == "torch" and self.covkind.startswith("matern"):
            xs = (self.xi - self.xi.mean(0)) * np.exp(self.covparam[1:])
            amp += float(np.max(np.sum(xs**2, axis=1)))
        return base + 100 * ref.EPS * self.cond * amp

    def set_covparam(self, par):
        """Change the covariance parameters of the problem (reference side)."""
        self.covparam = par
        base = self.__dict__.setdefault("_kref0", self.kref)
        self.kref = lambda x, y, same=False, par=par: base(x, y, same, par=par)
        self.sigma = math.exp(0.5 * par[0])
        self.cond = float(self.ref().cond())

    def set_meanparam(self, mp):
        self.meanparam = mp
        base = self.__dict__.setdefault("_mref0", self.mref)
        self.mref = lambda x, mp=mp: base(x, mp)

    def describe(self):
        return dict(
            n=self.n,
            d=self.d,
            m=self.m,
            cov=self.covkind,
            mean=f"{self.meantype}/{self.meankind}",
            cond=f"{self.cond:.2e}",
            covparam=np.round(self.covparam, 6).tolist(),
        )

    def sig(self):
        return (self.covkind, self.meantype, str(self.meankind), self.d, min(self.n, 9))


class Reused:
    """One model and one set of array objects, changed in place or replaced between calls.

    `step` makes one random change, keeping the reference side of the problem in line;
    results of the next call must be those of the new state, whatever was computed before.
    """

    STEPS = ("covparam-new", "covparam-inplace", "meanparam-new", "meanparam-inplace", "z-inplace", "z-new",
             "x-inplace", "x-new", "t-inplace", "t-new", "same")

    def __init__(self, rng, **kw):
        self.rng = rng
        self.pb = Problem(rng, **kw)
        self.model = self.pb.model()
        self.xi, self.zi, self.xt = (gnp.asarray(a.copy()) for a in (self.pb.xi, self.pb.zi, self.pb.xt))

    def step(self):
        rng, pb = self.rng, self.pb
        what = str(rng.choice(self.STEPS))
        for _ in range(20):
            if self._step(what, rng, pb):
                return what
        return "none"

    def _step(self, what, rng, pb):
        kind, how = (what + "-").split("-")[:2]
        if kind == "covparam":
            old = pb.covparam
            pb.set_covparam(old + 0.4 * rng.normal(size=len(old)))
            if not pb.cond < 1e7:
                pb.set_covparam(old)
                return False
            self.model.covparam = self._put(self.model.covparam, pb.covparam, how)
        elif kind == "meanparam":
            if pb.meanparam is None:
                return True
            pb.set_meanparam(pb.meanparam + rng.normal(size=len(pb.meanparam)) * (0.1 + np.abs(pb.meanparam)))
            self.model.meanparam = self._put(self.model.meanparam, pb.meanparam, how)
        elif kind == "z":
            pb.zi = pb.zi + pb.sigma * rng.normal(size=pb.n)
            self.zi = self._put(self.zi, pb.zi, how)
        elif kind == "x":
            old = pb.xi
            pb.xi = old + 0.05 * pb.scale / max(1.0, pb.n) * rng.normal(size=old.shape)
            c = float(pb.ref().cond())
            if not c < 1e7:
                pb.xi = old
                return False
            pb.cond = c
            self.xi = self._put(self.xi, pb.xi, how)
        elif kind == "t":
            pb.xt = pb.xt + 0.2 * pb.scale * rng.normal(size=pb.xt.shape)
            self.xt = self._put(self.xt, pb.xt, how)
        return True

    @staticmethod
    def _put(arr, new, how):
        new = gnp.asarray(new.copy())
        if how == "inplace":
            arr[:] = new
            return arr
        return new
