"""C17: Metropolis-Hastings transitions are valid and leave the target invariant.

The proposal generator and the log-density are wrapped, so every run leaves an event log of
proposals and evaluations; the recorded traces are replayed against that log step by step, the
accept decisions are tested as a martingale against the exact acceptance probabilities, and many
chains started from exact draws must still be exact draws after a few steps.
"""

import contextlib
import io
import math

import numpy as np
from scipy import stats as st

import gpmp.num as gnp
from gpmp.mcmc.mh import MetropolisHastings, MHOptions

from .. import stats
from ..core import Registry, offline_violation, to_np

REG = Registry(
    "C17",
    more=2,
    rule="one evaluation = one clause on one transition, trace, proposal stream or diagnostic of one run",
    assumptions=[
        "each step asks the proposal generator for exactly one proposal per chain",
        "statistical verdicts have a false-alarm probability below 1e-9 each",
    ],
)


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# -- targets: log-density in plain NumPy on (dim,) arrays --------------------------------------


class Target:
    """A target density with its exact sampler and coordinatewise distribution functions."""

    def __init__(self, rng, dim, kind=None):
        kinds = ["normal", "exponential", "box", "mixture", "laplace", "correlated"]
        self.kind = str(rng.choice(kinds)) if kind is None else kind
        self.dim = dim
        self.scale = np.exp(rng.uniform(-2, 2, dim))
        self.loc = rng.uniform(-3, 3, dim)
        self.shift = float(rng.choice([0.0, 50.0, -800.0]))  # unnormalised
        self.style = str(rng.choice(["scalar", "array", "one"]))
        self.hole = str(rng.choice(["inf", "nan", "raise"]))
        if self.kind == "correlated":
            a = rng.standard_normal((dim, dim)) + 1.5 * np.eye(dim)
            self.cov = a @ a.T * 0.5
            self.prec = np.linalg.inv(self.cov)
            self.chol = np.linalg.cholesky(self.cov)
        self.spread = self.scale if self.kind != "correlated" else np.sqrt(np.diag(self.cov))
        if self.kind == "box":
            self.spread = self.scale * 0.5

    def logp(self, x):
        x = np.asarray(x, dtype=float)
        if self.kind == "correlated":
            d = x - self.loc
            return float(-0.5 * d @ self.prec @ d) + self.shift
        t = (x - self.loc) / self.scale
        if self.kind == "normal":
            v = -0.5 * np.sum(t**2)
        elif self.kind == "laplace":
            v = -np.sum(np.abs(t))
        elif self.kind == "exponential":
            v = -np.sum(t) if np.all(t >= 0) else -np.inf
        elif self.kind == "box":
            v = 0.0 if np.all((t >= 0) & (t <= 1)) else -np.inf
        else:
            v = np.sum(np.logaddexp(-0.5 * (t + 2) ** 2, -0.5 * (t - 2) ** 2))
        return float(v) + self.shift

    def draw(self, rng, n):
        if self.kind == "correlated":
            return self.loc + rng.standard_normal((n, self.dim)) @ self.chol.T
        if self.kind == "normal":
            t = rng.standard_normal((n, self.dim))
        elif self.kind == "laplace":
            t = rng.laplace(size=(n, self.dim))
        elif self.kind == "exponential":
            t = rng.exponential(size=(n, self.dim))
        elif self.kind == "box":
            t = rng.uniform(size=(n, self.dim))
        else:
            t = rng.standard_normal((n, self.dim)) + rng.choice([-2.0, 2.0], size=(n, self.dim))
        return self.loc + self.scale * t

    def pit(self, x):
        """Independent uniform coordinates when x is drawn from the target."""
        x = np.atleast_2d(x)
        if self.kind == "correlated":
            return st.norm.cdf(np.linalg.solve(self.chol, (x - self.loc).T).T)
        t = (x - self.loc) / self.scale
        if self.kind == "normal":
            return st.norm.cdf(t)
        if self.kind == "laplace":
            return st.laplace.cdf(t)
        if self.kind == "exponential":
            return st.expon.cdf(t)
        if self.kind == "box":
            return np.clip(t, 0, 1)
        return 0.5 * (st.norm.cdf(t + 2) + st.norm.cdf(t - 2))

    def __call__(self, x):
        """What the library is given: value types and failure styles vary."""
        v = self.logp(to_np(x))
        if v == -np.inf:
            if self.hole == "raise":
                raise ValueError("outside the support")
            v = float("nan") if self.hole == "nan" else v
        if self.style == "scalar":
            return v
        if self.style == "array":
            return gnp.asarray(np.array(v))
        return gnp.asarray(np.array([v]))


class Run:
    """A sampler whose proposals are logged."""

    def __init__(self, target, **opts):
        self.target = target
        self.props = {}
        self.origins = {}
        opts.setdefault("init_msg", None)
        self.opts = MHOptions(**opts)
        self.mh = MetropolisHastings(log_target=target, prop_rnd=self.propose, options=self.opts)
        self.custom = None

    def propose(self, x, c):
        y = self.custom(to_np(x), c) if self.custom else self.mh.default_prop_rnd(x, c)
        self.origins.setdefault(int(c), []).append(to_np(x).copy().ravel())
        self.props.setdefault(int(c), []).append(to_np(y).copy().ravel())
        return y if self.custom is None else gnp.asarray(y)

    def run(self, x0, n, burnin, **kw):
        self.props, self.origins = {}, {}
        with silent():
            return to_np(self.mh.scheduler(gnp.asarray(x0), n, burnin, **kw))

    def increments(self, c, start=0, stop=None):
        return np.array(self.props[c][start:stop]) - np.array(self.origins[c][start:stop])


def replay(ctx, run, x0, n, burnin, out):
    """Offline replay of the traces of one run against the event log."""
    mh, tg = run.mh, run.target
    x, acc, lp = to_np(mh.x), to_np(mh.accept), to_np(mh.log_target_values)
    C, d = run.opts.n_chains, run.opts.dim
    done = int(mh.global_iter)
    stopped = int(mh.burnin_period)
    ctx.check(stopped <= burnin, "burnin-longer", f"{stopped} > {burnin}")
    ctx.check(done - stopped == n - burnin, "sampling-length", f"{done - stopped} sampling steps, want {n - burnin}")
    if stopped < burnin:
        ctx.count("early burn-in stops", 1)
    ctx.shape(x, (C, 1 + done, d), "x-shape")
    ctx.shape(acc, (C, 1 + done), "accept-shape")
    ctx.shape(lp, (C, 1 + done), "log-target-shape")
    lo = stopped if run.opts.discard_burnin else 0
    ctx.shape(out, (C, done - lo, d), "returned-shape")
    ctx.equal(out, x[:, lo:done], "returned-sample")
    ctx.equal(x[:, 0], np.broadcast_to(x0, (C, d)), "initial-state")
    ctx.check(np.all((acc == 0) | (acc == 1)), "accept-flag-values")
    diffs, var, n_up = [], [], 0
    for c in range(C):
        ctx.check(len(run.props[c]) == done, "one-proposal-per-step", f"{len(run.props[c])} proposals, {done} steps")
        cur = x[c, 0]
        vcur = tg.logp(cur)
        ctx.check(lp[c, 0] == vcur or abs(lp[c, 0] - vcur) <= 1e-9 * (1 + abs(vcur)), "initial-log-density",
                  f"{lp[c, 0]} vs {vcur}")
        for t in range(1, 1 + done):
            y, o = run.props[c][t - 1], run.origins[c][t - 1]
            ctx.check(np.array_equal(o, cur), "proposal-origin", f"chain {c} step {t}")
            new, a = x[c, t], acc[c, t] == 1
            ctx.check(np.array_equal(new, y if a else cur), "transition",
                      f"chain {c} step {t}: accept={a} but state {new}, current {cur}, proposal {y}")
            vy = tg.logp(y)
            vnew = vy if a else vcur
            ctx.check(abs(lp[c, t] - vnew) <= 1e-9 * (1 + abs(vnew)), "log-density-of-state",
                      f"chain {c} step {t}: {lp[c, t]} vs {vnew}")
            if vcur > -np.inf:
                if vy == -np.inf:
                    ctx.check(not a, "zero-density-entered", f"chain {c} step {t}")
                else:
                    r = vy - vcur
                    if r > 1e-7:
                        n_up += 1
                        ctx.check(a, "uphill-rejected", f"chain {c} step {t}: log ratio {r}")
                    elif r < -1e-7:
                        p = math.exp(r)
                        diffs.append((float(a) - p, c, t, p))
                        var.append(p * (1 - p))
            cur, vcur = new, vnew
    ctx.count("transitions", C * done)
    ctx.count("uphill transitions", n_up)
    if diffs:
        D = np.array(diffs)
        V = np.array(var)
        for name, sel in [
            ("all", np.ones(len(D), bool)),
            ("likely", D[:, 3] > 0.5),
            ("unlikely", D[:, 3] < 0.2),
            ("chain0", D[:, 1] == 0),
            ("late", D[:, 2] > stopped),
        ]:
            tot, bound = stats.freedman(D[sel, 0], V[sel])
            ctx.check(tot <= bound, "acceptance-probability",
                      f"{name}: accepted minus expected {np.sum(D[sel, 0]):.1f} over {sel.sum()} steps, bound {bound:.1f}")
        # pooled over all runs by the offline monitor
        for lo, hi in BINS:
            sel = (D[:, 3] >= lo) & (D[:, 3] < hi)
            ctx.record("accepted", np.array([lo, np.sum(D[sel, 0]), np.sum(V[sel]), sel.sum()]))
    return x, acc


BINS = [(0.0, 0.1), (0.1, 0.3), (0.3, 0.6), (0.6, 0.9), (0.9, 1.01)]


@REG.offline_check
def pooled_acceptance(records, meta):
    """Accept decisions of all runs together against the exact probabilities."""
    out, n = [], 0
    for b, recs in records.items():
        tot = {lo: np.zeros(3) for lo, _ in BINS}
        for vals in recs.values():
            for name, v in vals:
                if name == "accepted":
                    n += 1
                    tot[float(v[0])] += v[1:]
        for name, parts in [("all", list(tot))] + [(f"p>={lo}", [lo]) for lo in tot]:
            d, v, m = sum(tot[lo] for lo in parts)
            t, bound = stats.freedman([d], [v])
            if t > bound:
                out.append(offline_violation(meta, "replayed_runs", "pooled-acceptance",
                    f"{name}: {int(m)} downhill proposals, accepted minus expected {d:.1f}, bound {bound:.1f}", backend=b))
    return n, out


def sliding(acc, width):
    n = acc.shape[1]
    w = min(max(1, int(width)), n)
    out = np.empty_like(acc)
    for t in range(n):
        out[:, t] = acc[:, max(0, t - w + 1) : t + 1].mean(axis=1)
    return out


def proposal_init(rng, tg, C, d):
    """A proposal parameter and the covariance it stands for, per chain."""
    s = float(np.exp(rng.uniform(-2, 1)))
    var = (s * tg.spread) ** 2
    kind = str(rng.choice(["none", "diag", "matrix", "per-chain-matrix", "per-chain-diag"]))
    a = rng.standard_normal((d, d)) * 0.5 + np.eye(d)
    if kind == "none":
        return kind, None, [np.eye(d)] * C
    if kind == "diag":
        return kind, gnp.asarray(var), [np.diag(var)] * C
    m = np.sqrt(var)[:, None] * (a @ a.T) * np.sqrt(var)[None, :]
    if kind == "matrix":
        return kind, gnp.asarray(m), [m] * C
    f = np.exp(rng.uniform(-2, 2, C))
    ms = np.array([m * f[c] for c in range(C)])
    return "per-chain-matrix", gnp.asarray(ms), list(ms)


def options(rng, tg, C, d, fixed=False):
    pk, p_init, covs = proposal_init(rng, tg, C, d)
    o = dict(
        dim=d,
        n_chains=C,
        symmetric=bool(rng.integers(2)),
        adaptation_method=str(rng.choice(["Haario", "RM", "haario", "rm"])),
        adaptation_interval=int(rng.choice([3, 5, 10, 25, 50])),
        freeze_adaptation=bool(rng.integers(2)) or fixed,
        discard_burnin=bool(rng.integers(2)),
        target_acceptance=float(rng.choice([0.2, 0.3, 0.5])),
        acceptance_tol=float(rng.choice([0.15, 0.6, 0.9])),
        RM_adapt_factor=float(rng.choice([0.5, 1.0, 2.0])),
        RM_diminishing=bool(rng.integers(2)),
        haario_initial_scaling_factor=[None, 1.0, 0.3][int(rng.integers(3))],
        sliding_rate_width=int(rng.choice([1, 7, 50, 200])),
        show_global_progress=bool(rng.integers(2)),
        progress_interval=int(rng.choice([1, 10, 200])),
    )
    divisors = [k for k in range(1, C + 1) if C % k == 0]
    o["n_pool"] = int(rng.choice(divisors))
    if not o["symmetric"] and o["adaptation_interval"] < 25:
        # a block with fewer distinct states than dimensions has a singular proposal density
        o["adaptation_interval"] = 25
    if p_init is not None:
        o["proposal_distribution_param_init"] = p_init
    return pk, covs, o


def start(rng, tg, C, d):
    """Initial states in one of the accepted layouts, and their (C, d) meaning."""
    pts = tg.draw(rng, C)
    how = str(rng.choice(["full", "row", "vector"]))
    if how == "full" or (C == 1 and how == "row"):
        return how, pts, pts
    if how == "row":
        return how, pts[:1], np.tile(pts[:1], (C, 1))
    return how, pts[0], np.tile(pts[:1], (C, 1))


@REG.scenario(quick=26)
def replayed_runs(ctx):
    rng = ctx.rng
    d, C = int(rng.integers(1, 4)), int(rng.choice([1, 2, 3, 4]))
    tg = Target(rng, d)
    pk, covs, o = options(rng, tg, C, d)
    run = Run(tg, **o)
    burnin = int(rng.choice([0, 1, 7, 60, 130, 260]))
    n = burnin + int(rng.choice([0, 1, 2, 30, 111]))
    if n == 0:
        n = 1
    how, arg, x0 = start(rng, tg, C, d)
    ctx.note(dim=d, chains=C, target=tg.kind, n=n, burnin=burnin, start=how, proposal=pk, hole=tg.hole, style=tg.style,
             opts={k: v for k, v in o.items() if k != "proposal_distribution_param_init"})
    ctx.state(d, C, tg.kind, o["adaptation_method"].lower(), o["freeze_adaptation"], o["discard_burnin"], burnin, n)
    gnp.set_seed(int(rng.integers(2**31)))
    keep = np.array(arg, copy=True)
    out = run.run(arg, n, burnin)
    ctx.equal(arg, keep, "initial-states-modified")
    x, acc = replay(ctx, run, x0, n, burnin, out)
    g = int(run.mh.global_iter)
    ctx.close(to_np(run.mh.rates), sliding(acc[:, :g], o["sliding_rate_width"]), "sliding-rates", rtol=1e-10, atol=1e-12)
    w = int(rng.integers(1, 2 * g + 1))
    ctx.close(to_np(run.mh.compute_sliding_rates(w)), sliding(acc[:, :g], w), "sliding-rates-any-width", rtol=1e-10, atol=1e-12)
    if rng.random() < 0.4:
        # a second run of the same object starts over
        x1 = tg.draw(rng, C)
        burnin2, n2 = (0, 17) if rng.random() < 0.5 else (23, 41)
        out = run.run(x1, n2, burnin2)
        replay(ctx, run, x1, n2, burnin2, out)
        ctx.count("repeated runs", 1)


@REG.scenario(quick=5)
def early_stops(ctx):
    """Long burn-in periods that the convergence diagnostics may shorten."""
    rng = ctx.rng
    d, C = int(rng.integers(1, 3)), int(rng.choice([1, 2, 4]))
    tg = Target(rng, d, kind=str(rng.choice(["box", "normal"])))
    run = Run(tg, dim=d, n_chains=C, adaptation_method=str(rng.choice(["RM", "Haario"])),
              adaptation_interval=int(rng.choice([3, 6])), target_acceptance=0.5, acceptance_tol=0.7,
              sliding_rate_width=50, discard_burnin=bool(rng.integers(2)), freeze_adaptation=bool(rng.integers(2)),
              proposal_distribution_param_init=gnp.asarray(tg.spread**2 * 2.0))
    x0 = tg.draw(rng, C)
    burnin, n = 400, 400 + int(rng.choice([1, 50, 120]))
    ctx.note(dim=d, chains=C, target=tg.kind, n=n)
    ctx.state(d, C, tg.kind, n)
    gnp.set_seed(int(rng.integers(2**31)))
    out = run.run(x0, n, burnin)
    replay(ctx, run, x0, n, burnin, out)
    if C == 1:
        ctx.check(int(run.mh.burnin_period) == burnin, "single-chain-stopped-early")


@REG.scenario(quick=10)
def invariance(ctx):
    """Chains started from exact draws are exact draws after a few steps with a fixed proposal."""
    rng = ctx.rng
    d, C, k = int(rng.integers(1, 3)), 900, int(rng.choice([2, 4]))
    tg = Target(rng, d)
    run = Run(tg, dim=d, n_chains=C, symmetric=bool(rng.integers(2)), freeze_adaptation=True,
              proposal_distribution_param_init=gnp.asarray(tg.spread**2 * float(np.exp(rng.uniform(-2, 2)))))
    if rng.random() < 0.5:
        # a user proposal: symmetric, discontinuous
        run.opts.symmetric = run.mh.symmetric = True
        jump = tg.spread * float(np.exp(rng.uniform(-1, 1)))
        prng = np.random.default_rng(int(rng.integers(2**31)))
        run.custom = lambda x, c: x + jump * (prng.uniform(-1, 1, d) + prng.choice([-1.0, 1.0]))
    x0 = tg.draw(rng, C)
    ctx.note(dim=d, target=tg.kind, steps=k, custom=run.custom is not None, symmetric=run.mh.symmetric)
    ctx.state(d, tg.kind, k, run.custom is not None)
    gnp.set_seed(int(rng.integers(2**31)))
    out = run.run(x0, k, 0)
    x, _ = replay(ctx, run, x0, k, 0, out)
    for t in (k - 1, k):
        u = tg.pit(x[:, t])
        for j in range(d):
            ctx.check(stats.ks_uniform(u[:, j]) > stats.ALPHA, "target-not-invariant",
                      f"{tg.kind}: coordinate {j} after {t} steps")
    # the move itself is reversible: (x0, xk) and (xk, x0) have the same law
    u0, u1 = tg.pit(x[:, 0])[:, 0], tg.pit(x[:, k])[:, 0]
    moved = np.abs(u1 - u0) > 0
    up = int(np.sum((u1 > u0) & moved))
    if moved.sum() > 50:
        ctx.check(st.binomtest(up, int(moved.sum()), 0.5).pvalue > stats.ALPHA, "not-reversible",
                  f"{up} of {moved.sum()} moves upwards")


@REG.scenario(quick=8)
def fixed_proposals(ctx):
    """The default proposal is the Gaussian random walk asked for, per chain."""
    rng = ctx.rng
    d, C, n = int(rng.integers(1, 4)), int(rng.choice([1, 2, 3])), 350
    tg = Target(rng, d, kind=str(rng.choice(["normal", "correlated", "box"])))
    pk, covs, o = options(rng, tg, C, d, fixed=True)
    run = Run(tg, **o)
    burnin = int(rng.choice([0, o["adaptation_interval"] - 1]))
    x0 = tg.draw(rng, C)
    ctx.note(dim=d, chains=C, target=tg.kind, proposal=pk, burnin=burnin)
    ctx.state(d, C, pk, burnin)
    gnp.set_seed(int(rng.integers(2**31)))
    out = run.run(x0, n, burnin)
    replay(ctx, run, x0, n, burnin, out)
    for c in range(C):
        p = stats.whitened_pvalue(run.increments(c), covs[c])
        ctx.check(p > stats.ALPHA, "proposal-law", f"{pk}: chain {c}, p={p:.1e}")
    if C > 1:
        a, b = run.increments(0), run.increments(1)
        r = np.corrcoef(a[:, 0], b[:, 0])[0, 1]
        ctx.check(abs(r) < 0.4, "chains-share-proposals", f"correlation {r}")


@REG.scenario(quick=16)
def block_adaptation(ctx):
    """After some adaptation blocks and a freeze, the proposal has the documented covariance."""
    rng = ctx.rng
    d, C = int(rng.integers(1, 4)), int(rng.choice([1, 2, 4]))
    tg = Target(rng, d, kind=str(rng.choice(["normal", "correlated", "laplace"])))
    pk, covs, o = options(rng, tg, C, d, fixed=True)
    k = o["adaptation_interval"] = int(rng.choice([30, 60]))
    blocks = int(rng.choice([1, 2, 3]))
    o["freeze_adaptation"] = True
    run = Run(tg, **o)
    b, n = k * blocks, k * blocks + 300
    x0 = tg.draw(rng, C)
    if rng.random() < 0.5:
        # chains start far away, each somewhere else
        x0 = x0 + tg.spread * rng.uniform(-30, 30, (C, 1))
    rm = o["adaptation_method"].lower() == "rm"
    ctx.note(dim=d, chains=C, method=o["adaptation_method"], n_pool=o["n_pool"], proposal=pk, block=k, blocks=blocks)
    ctx.state(d, C, rm, o["n_pool"], pk, blocks)
    gnp.set_seed(int(rng.integers(2**31)))
    for again in range(2 if rm and rng.random() < 0.5 else 1):
        out = run.run(x0, n, b)
        x, acc = replay(ctx, run, x0, n, b, out)
        for c in range(C):
            over = acc[c, 1 : b + 1].reshape(blocks, k).mean(axis=1) - o["target_acceptance"]
            got = run.increments(c, b)
            if rm:
                # diminishing factors are positive fractions of the base factor
                step = o["RM_adapt_factor"] * over
                if o["RM_diminishing"]:
                    lo, hi = step[step < 0].sum(), step[step > 0].sum()
                else:
                    lo = hi = step.sum()
                ok = any(stats.whitened_pvalue(got, covs[c] * math.exp(e)) > stats.ALPHA for e in np.linspace(lo, hi, 15))
                ctx.check(ok, "rm-scale", f"chain {c} run {again}: rate-target {over}, {pk}")
            else:
                g = (c // o["n_pool"]) * o["n_pool"]
                xb = x[g : g + o["n_pool"], b - k + 1 : b + 1].reshape(-1, d)
                s0 = o["haario_initial_scaling_factor"]
                s = (2.38**2 / d if s0 is None else s0) * math.exp(over.sum())
                want = s * np.atleast_2d(np.cov(xb.T)) + 1e-6 * np.eye(d)
                p = stats.whitened_pvalue(got, want)
                ctx.check(p > stats.ALPHA, "haario-covariance", f"chain {c} of {C}, pool {o['n_pool']}: p={p:.1e}")


class Island:
    """Flat where the first coordinate is positive; elsewhere only the starting point has mass."""

    def __init__(self, point):
        self.point = point

    def logp(self, x):
        x = np.asarray(x, dtype=float)
        return 0.0 if x[0] > 0 or np.array_equal(x, self.point) else -np.inf

    def __call__(self, x):
        return self.logp(to_np(x))


@REG.scenario(quick=12)
def adaptation_direction(ctx):
    """Chains that always accept widen their proposal, chains that never do narrow it, separately."""
    rng = ctx.rng
    d = int(rng.integers(1, 3))
    k, blocks = 20, 8
    method = str(rng.choice(["RM", "Haario"]))
    stuck = -1e9 * np.ones(d)
    free = np.full(d, 1e9)
    C = int(rng.choice([1, 2, 3]))
    roles = [bool(v) for v in rng.integers(2, size=C)]
    if C > 1:
        roles[-1] = not roles[0]
    x0 = np.array([free if r else stuck for r in roles])
    tg = Island(stuck)
    freeze = bool(rng.integers(2))
    run = Run(tg, dim=d, n_chains=C, adaptation_method=method, adaptation_interval=k, freeze_adaptation=freeze,
              RM_diminishing=bool(rng.integers(2)), haario_initial_scaling_factor=4.0, n_pool=1)
    burnin, n = k * blocks, 2 * k * blocks + int(rng.integers(0, k))
    ctx.note(dim=d, method=method, roles=roles, freeze=freeze)
    ctx.state(d, method, tuple(roles), freeze)
    gnp.set_seed(int(rng.integers(2**31)))
    out = run.run(x0, n, burnin)
    replay(ctx, run, x0, n, burnin, out)

    def logscale(c, a, b):
        return float(np.log(np.mean(run.increments(c, a, b) ** 2)))

    for c, r in enumerate(roles):
        first, last = logscale(c, 0, k), logscale(c, burnin - k, burnin)
        after, end = logscale(c, burnin, burnin + 3 * k), logscale(c, n - 3 * k, n)
        sign = 1 if r else -1
        # expected drift: at least 0.3 * sum of the factors (>= 1.4); noise of a block mean < 0.35
        ctx.check(sign * (last - first) > 0 or abs(last - first) < 0.7 and method == "RM" and not r,
                  "adaptation-direction", f"{method} chain {c} accepting={r}: {first:.2f} -> {last:.2f}")
        if freeze:
            m = 3 * k * d
            f = math.exp(end - after)
            p = 2 * min(st.f.cdf(f, m, m), st.f.sf(f, m, m))
            ctx.check(p > stats.ALPHA, "adapts-after-freeze", f"chain {c}: {after:.2f} -> {end:.2f}")
        elif r:
            ctx.check(end - after > 0.3, "adaptation-stopped", f"{method} chain {c}: {after:.2f} -> {end:.2f}")


@REG.scenario(quick=4, thorough=40)
def requested_rate(ctx):
    """After a long burn-in, the acceptance rate is near the requested one."""
    rng = ctx.rng
    d, C = int(rng.integers(1, 4)), 2
    tg = Target(rng, d, kind=str(rng.choice(["normal", "laplace"])))
    tg.scale = tg.spread = np.full(d, tg.scale[0])
    want = float(rng.choice([0.25, 0.4, 0.6]))
    method = "RM" if rng.random() < 0.7 else "Haario"
    run = Run(tg, dim=d, n_chains=C, adaptation_method=method, adaptation_interval=50, target_acceptance=want,
              acceptance_tol=0.0, proposal_distribution_param_init=gnp.asarray(tg.spread**2 * float(rng.choice([0.1, 30.0]))))
    ctx.note(dim=d, method=method, want=want)
    ctx.state(d, method, want)
    gnp.set_seed(int(rng.integers(2**31)))
    x0 = tg.draw(rng, C)
    burnin, n = 1500, 2100
    out = run.run(x0, n, burnin)
    _, acc = replay(ctx, run, x0, n, burnin, out)
    rate = acc[:, burnin + 1 :].mean(axis=1)
    near, bound = np.abs(rate - want), 0.25
    if method == "Haario":
        # the covariance of one block is noisy; that of a block with hardly any accepted move collapses,
        # and takes blocks to grow again
        bound = 0.5
        blocks = acc[:, 1 : burnin + 1].reshape(C, -1, 50).sum(axis=2)
        near = near[np.all(blocks > d + 2, axis=1)]
        ctx.count("collapsed_chains", C - len(near))
    ctx.check(np.all(near < bound), "requested-acceptance", f"{method}: {rate}, want {want}")
    if len(near):
        ctx.record("acceptance", float(np.max(near)))


@REG.scenario(quick=10)
def diagnostics(ctx):
    """Convergence diagnostics equal their definitions recomputed from the traces."""
    rng = ctx.rng
    d, C = int(rng.integers(1, 4)), int(rng.choice([2, 3, 4]))
    tg = Target(rng, d)
    pk, covs, o = options(rng, tg, C, d)
    run = Run(tg, **o)
    burnin = int(rng.choice([0, 20, 60]))
    n = burnin + int(rng.choice([60, 121]))
    x0 = tg.draw(rng, C)
    ctx.note(dim=d, chains=C, target=tg.kind, n=n, burnin=burnin)
    ctx.state(d, C, tg.kind, n, burnin)
    gnp.set_seed(int(rng.integers(2**31)))
    out = run.run(x0, n, burnin)
    x, acc = replay(ctx, run, x0, n, burnin, out)
    mh, g, b = run.mh, int(run.mh.global_iter), int(run.mh.burnin_period)

    def rhat(blk):
        m = blk.shape[1]
        W = blk.var(axis=1, ddof=1).mean(axis=0)
        B = m * blk.mean(axis=1).var(axis=0, ddof=1)
        return np.sqrt(((m - 1) / m * W + B / m) / W)

    last = int(rng.integers(5, g))
    for kw, blk in [({}, x[:, b:g]), (dict(last_n_samples=last), x[:, g - last : g]), (dict(burnin_period=7), x[:, 7:g])]:
        if np.all(blk.var(axis=1).mean(axis=0) > 1e-12):
            with silent():
                got = to_np(mh.compute_gelman_rubin_rhat(**kw))
                res = mh.check_convergence_gelman_rubin(threshold=1.05, **({"burnin_period": b} | kw))
            want = rhat(blk)
            ctx.close(got, want, "rhat", rtol=1e-7)
            ctx.close(to_np(res["rhat"]), want, "rhat-checked", rtol=1e-7)
            if np.all(np.abs(want - 1.05) > 1e-6):
                ctx.check(bool(res["ok"]) == bool(np.all(want < 1.05)), "rhat-verdict", f"{want} {res['ok']}")
    rates = sliding(acc[:, :g], o["sliding_rate_width"])
    for kw, i0 in [({}, b), (dict(last_n_samples=last), g - last), (dict(burnin_period=9), 9)]:
        lo, hi = float(rng.uniform(0, 0.5)), float(rng.uniform(0.4, 1))
        with silent():
            res = mh.check_acceptance_rates(low_threshold=lo, high_threshold=hi, **kw)
        mn, mx = rates[:, i0:g].min(), rates[:, i0:g].max()
        ctx.close(np.array([res["min_ar"], res["max_ar"]]), np.array([mn, mx]), "acceptance-extremes", rtol=1e-9, atol=1e-12)
        if abs(mn - lo) > 1e-9 and abs(mx - hi) > 1e-9:
            ctx.check(bool(res["ok"]) == (mn >= lo and mx <= hi), "acceptance-verdict")
    nb, size, alpha = int(rng.choice([1, 2, 3])), int(rng.choice([10, 17])), float(rng.choice([0.01, 0.2]))
    ks, pv, sig = (to_np(v) for v in mh.ks_statistics(nb, size, alpha=alpha, return_statistic=True))
    blocks = [x[c, x.shape[1] - nb * size + i * size :][:size] for c in range(C) for i in range(nb)]
    B = nb * C
    ctx.shape(ks, (d, B, B), "ks-shape")
    frac = 0
    for j in range(d):
        for p in range(B):
            for q in range(p):
                r = st.ks_2samp(blocks[p][:, j], blocks[q][:, j])
                ctx.check(abs(ks[j, p, q] - r.statistic) < 1e-9 and abs(ks[j, q, p] - r.statistic) < 1e-9, "ks-statistic")
                ctx.check(abs(pv[j, p, q] - r.pvalue) < 1e-9 and abs(pv[j, q, p] - r.pvalue) < 1e-9, "ks-pvalue")
                if abs(r.pvalue - alpha) > 1e-9:
                    ctx.check(bool(sig[j, p, q]) == (r.pvalue < alpha), "ks-significance")
    with silent():
        res = mh.check_convergence_ks(multi_block_n_blocks=nb, multi_block_size=size, alpha=alpha, fraction_threshold=0.3)
    ctx.close(float(res["multi_block"]["frac_significant"]), float(np.mean(np.asarray(sig, float))), "ks-fraction", rtol=1e-9, atol=1e-12)
    _, sig1 = mh.ks_statistics(1, nb * size, alpha=alpha)
    f1 = float(np.mean(np.asarray(to_np(sig1), float)))
    ctx.close(float(res["single_block"]["frac_significant"]), f1, "ks-fraction-single", rtol=1e-9, atol=1e-12)
    ctx.check(bool(res["ok"]) == (float(np.mean(np.asarray(sig, float))) < 0.3 and f1 < 0.3), "ks-verdict")
    # empirical covariances
    cut = int(rng.integers(0, g - 10))
    all_cov = np.atleast_2d(np.cov(x[:, cut:].reshape(-1, d).T))
    sc = np.abs(all_cov).max() + 1e-30
    ctx.close(np.atleast_2d(to_np(mh.compute_empirical_covariance_whole_chain(burnin=cut, pooled=True))), all_cov,
              "pooled-covariance", rtol=1e-8, scale=sc)
    pool = o["n_pool"]
    per = mh.compute_empirical_covariance_whole_chain(burnin=cut, n_pool=pool)
    ctx.check(len(per) == C // pool, "covariance-groups")
    for i, m in enumerate(per):
        want = np.atleast_2d(np.cov(x[i * pool : (i + 1) * pool, cut:].reshape(-1, d).T))
        ctx.close(np.atleast_2d(to_np(m)), want, "group-covariance", rtol=1e-8, scale=sc)
    s, e = float(rng.uniform(0.1, 3)), float(rng.choice([1e-6, 0.1]))
    raw = np.atleast_2d(np.cov(x[0].T))
    got = to_np(mh.update_proposal_covariance_from_samples(x_chain=gnp.asarray(x[0]), scaling=s, epsilon=e))
    ctx.close(np.atleast_2d(got), s * raw + e * np.eye(d), "haario-formula", rtol=1e-8, scale=s * np.abs(raw).max() + e)
    got = to_np(mh.update_proposal_covariance_from_samples(raw_cov=gnp.asarray(raw)))
    ctx.close(np.atleast_2d(got), 2.38**2 / d * raw + 1e-6 * np.eye(d), "haario-formula-default", rtol=1e-8,
              scale=np.abs(raw).max() * 6 + 1e-6)


@REG.scenario(quick=10)
def single_steps(ctx):
    """Single updates with a given, missing or NaN log-density of the current state."""
    rng = ctx.rng
    d = int(rng.integers(1, 4))
    tg = Target(rng, d)
    run = Run(tg, dim=d, n_chains=1)
    x = tg.draw(rng, 1)[0]
    run.run(x, 1, 0)
    run.props, run.origins = {}, {}
    ctx.note(dim=d, target=tg.kind)
    ctx.state(d, tg.kind, tg.style, tg.hole)
    diffs, var = [], []
    for i in range(120):
        v = tg.logp(x)
        arg = [None, float("nan"), v][int(rng.integers(3))]
        xin = gnp.asarray(x)
        new, a, lnew, lcur = run.mh.mhstep(xin, 0, log_target_x_current=arg) if arg is not None else run.mh.mhstep(xin, 0)
        y = run.props[0][-1]
        ctx.equal(to_np(xin), x, "step-modifies-state")
        ctx.equal(to_np(new), y if a else x, "single-step-state")
        vy = tg.logp(y)
        ctx.check(abs(float(lcur) - v) <= 1e-9 * (1 + abs(v)), "single-step-current-density", f"{lcur} vs {v}")
        ctx.check(abs(float(lnew) - (vy if a else v)) <= 1e-9 * (1 + abs(v)), "single-step-new-density")
        ctx.check(not (a and vy == -np.inf), "zero-density-entered")
        p = math.exp(min(0.0, vy - v))
        diffs.append(float(bool(a)) - p)
        var.append(p * (1 - p))
        x = to_np(new).copy()
    tot, bound = stats.freedman(diffs, var)
    ctx.check(tot <= bound, "single-step-acceptance", f"{tot:.1f} > {bound:.1f}")
    # a state of zero density is left as soon as a proposal has positive density
    outside = tg.loc - 1e6 * tg.scale
    if tg.logp(outside) == -np.inf and tg.hole != "nan":
        run.custom = lambda z, c: tg.draw(rng, 1)[0]
        new, a, lnew, _ = run.mh.mhstep(gnp.asarray(outside), 0)
        ctx.check(bool(a), "stuck-at-zero-density", f"{tg.hole}")


@REG.scenario(quick=6)
def refused_arguments(ctx):
    rng = ctx.rng
    d, C = int(rng.integers(2, 4)), 4
    tg = Target(rng, d, kind="normal")
    ctx.note(dim=d)
    ctx.state(d)

    def sched(x0, n, b, **kw):
        opts = dict(dim=d, n_chains=C)
        opts.update(kw.pop("opts", {}))
        return lambda: Run(tg, **opts).run(x0, n, b, **kw)

    ok = np.zeros((C, d))
    ctx.raises(sched(ok, 5, 6), "total-below-burnin", ValueError)
    ctx.raises(sched(np.zeros((C, d + 1)), 6, 2), "wrong-dimension", ValueError)
    ctx.raises(sched(np.zeros((C - 1, d)), 6, 2), "wrong-chain-count", ValueError)
    ctx.raises(sched(np.zeros(d), 6, 2, replicate_initial_state=False), "not-replicated", ValueError)
    ctx.raises(sched(ok, 120, 60, opts=dict(adaptation_method="none")), "unknown-method", ValueError)
    ctx.raises(sched(ok, 120, 60, opts=dict(n_pool=3)), "pool-not-divisor", ValueError)
    ctx.raises(sched(ok, 6, 2, opts=dict(proposal_distribution_param_init=gnp.ones(d + 1))), "proposal-shape", ValueError)
    run = Run(tg, dim=d, n_chains=1)
    run.run(np.zeros(d), 30, 0)
    ctx.raises(lambda: run.mh.compute_gelman_rubin_rhat(), "rhat-single-chain", ValueError)
    ctx.raises(lambda: run.mh.ks_statistics(10, 10), "ks-too-long", ValueError)
    ctx.raises(lambda: run.mh.update_proposal_covariance_from_samples(), "neither-sample-nor-covariance", ValueError)
