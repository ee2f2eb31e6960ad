"""C19: SMC and subset simulation target the right law with consistent weights.

The density handed to the library and the phases of the particle set (initialisation, reweighting,
resampling, moves) are wrapped, so every run leaves an event log.  Each event is replayed against
the definition with densities recomputed from the particles; accept decisions, proposal directions
and offspring counts are tested as martingales; final particles and rare-event probabilities are
compared with exact laws, case by case and pooled over all cases.
"""

import contextlib
import io
import math
import warnings

import numpy as np
from scipy import stats as st

import gpmp.num as gnp
from gpmp.mcmc import smc as smc_mod
from gpmp.mcmc.smc import (
    SMC,
    ParticlesSet,
    ParticlesSetConfig,
    ParticlesSetError,
    SMCConfig,
    log_indicator_density,
    run_smc_sampling,
    run_subset_simulation,
)

from .. import stats
from ..core import Registry, as_float, offline_violation, to_np

REG = Registry(
    "C19",
    more=2,
    rule="one evaluation = one clause on one phase (reweight, resample, move), log entry, final law or estimate",
    assumptions=[
        "a move evaluates the density once at all proposed positions",
        "statistical verdicts have a false-alarm probability below 1e-9 each",
        "a proposal scale leaving its configured bounds is a declared refusal",
    ],
)

CAP = 6000


class Runaway(Exception):
    pass


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def seed_defaults(seed):
    """Seed the generators the SMC module uses when none is given."""
    for cls in (SMC, ParticlesSet):
        for d in cls.__init__.__defaults__ or ():
            if isinstance(d, np.random.Generator):
                d.bit_generator.state = np.random.default_rng(seed).bit_generator.state
    if hasattr(smc_mod, "default_rng"):
        stream = np.random.default_rng(seed + 1)
        smc_mod.default_rng = lambda *a: np.random.default_rng(*a) if a else stream


# -- families of densities indexed by one parameter ---------------------------------------------


class Family:
    """log-density f(x, param) with exact coordinatewise law at every parameter."""

    def __init__(self, rng, dim, kind=None):
        self.kind = str(rng.choice(["normal", "laplace", "exponential", "cube", "uniform"])) if kind is None else kind
        self.dim = dim
        self.scale = np.exp(rng.uniform(-2, 1.0, dim))
        self.loc = rng.uniform(-2, 2, dim)
        self.shift = 0.0
        self.temp = bool(rng.integers(2)) and self.kind != "cube"  # parameter is a temperature
        self.shape = str(rng.choice(["flat", "flat", "column"]))
        self.calls = []
        self.n_calls = 0

    def beta(self, param):
        return 1.0 / float(param) if self.temp else float(param)

    def params(self, rng, easy, hard):
        """(initial, target): from an easy level to a hard one, in units of inverse temperature."""
        if self.kind == "cube":
            return 1.0 / easy, 1.0 / hard
        return (1.0 / easy, 1.0 / hard) if self.temp else (easy, hard)

    def box(self, rng):
        lo = self.loc - self.scale * rng.uniform(2, 6, self.dim)
        hi = self.loc + self.scale * rng.uniform(2, 6, self.dim)
        return [list(lo), list(hi)] if rng.integers(2) else np.array([lo, hi])

    def logp(self, x, param):
        t = (np.asarray(x, dtype=float) - self.loc) / self.scale
        if self.kind == "cube":  # uniform on a cube of half-width param
            ok = np.all(np.abs(t) < float(param), axis=1)
            return np.where(ok, self.shift, -np.inf)
        b = self.beta(param)
        if self.kind == "normal":
            v = -0.5 * np.sum(t**2, axis=1)
        elif self.kind == "laplace":
            v = -np.sum(np.abs(t), axis=1)
        elif self.kind == "exponential":
            v = np.where(np.all(t > 0, axis=1), -np.sum(np.maximum(t, 0), axis=1), -np.inf)
        else:  # uniform for every parameter, constant height changing
            v = np.where(np.all((t > -1) & (t < 1), axis=1), 0.0, -np.inf)
        return b * (v + self.shift)

    def pit(self, x, param):
        t = (np.asarray(x, dtype=float) - self.loc) / self.scale
        b = self.beta(param)
        if self.kind == "cube":
            return np.clip((t / float(param) + 1) / 2, 0, 1)
        if self.kind == "normal":
            return st.norm.cdf(t * math.sqrt(b))
        if self.kind == "laplace":
            return st.laplace.cdf(t * b)
        if self.kind == "exponential":
            return st.expon.cdf(t * b)
        return np.clip((t + 1) / 2, 0, 1)

    def __call__(self, x, param):
        self.n_calls += 1
        if self.n_calls > CAP:
            raise Runaway(f"more than {CAP} density evaluations")
        x = to_np(x).copy()
        v = self.logp(x, param)
        self.calls.append((x, as_float(param)))
        return gnp.asarray(v if self.shape == "flat" else v.reshape(-1, 1))


class Monitor:
    """Wraps the phases of every particle set and replays each against its definition."""

    PHASES = ("particles_init", "reweight", "resample", "move")

    def __init__(self, ctx, logp, calls):
        self.ctx, self.logp, self.calls = ctx, logp, calls
        self.rates = []  # one entry per move, in order
        self.marks = []  # index in rates at which each resampling occurred
        self.resampled_w = []
        self.n_init = 0
        self.acc_d, self.acc_v = [], []
        self.sign_d, self.pull_d = [], []
        self.off = {"weight": [0.0, 0.0], "index": [0.0, 0.0], "place": [0.0, 0.0]}
        self.init_u = []
        self.lp = None  # log-densities at the particles, followed independently
        self.distinct = math.inf  # smallest number of distinct particles seen after resampling

    def __enter__(self):
        self.saved = {m: getattr(ParticlesSet, m) for m in self.PHASES}
        for m in self.PHASES:
            setattr(ParticlesSet, m, self._wrap(m, self.saved[m]))
        return self

    def __exit__(self, *exc):
        for m, f in self.saved.items():
            setattr(ParticlesSet, m, f)

    def _wrap(self, name, orig):
        mon = self

        def phase(ps, *args, **kw):
            return getattr(mon, name)(ps, orig, args, kw)

        return phase

    # -- phases

    def particles_init(self, ps, orig, args, kw):
        out = orig(ps, *args, **kw)
        ctx = self.ctx
        box = np.array([to_np(gnp.asarray(b)).ravel() for b in (args[0] if args else kw["box"])], dtype=float)
        x = to_np(ps.x)
        n = args[1] if len(args) > 1 else kw["n"]
        ctx.shape(x, (n, box.shape[1]), "init-shape")
        ctx.check(bool(np.all((x >= box[0]) & (x <= box[1]))), "init-in-box", "initial particles outside the box")
        w = to_np(ps.w)
        ctx.close(w / w.sum(), np.full(n, 1 / n), "init-weights", msg="initial weights not equal")
        self.init_u.append(((x - box[0]) / (box[1] - box[0])).ravel())
        self.n_init += 1
        self.lp = np.zeros(n)  # uniform on the box, up to a constant
        return out

    def reweight(self, ps, orig, args, kw):
        ctx = self.ctx
        w0, l0, x = to_np(ps.w).copy(), to_np(ps.logpx).copy(), to_np(ps.x).copy()
        ref = self.lp if self.lp is not None and len(self.lp) == len(w0) else l0
        k = len(self.calls)
        out = orig(ps, *args, **kw)
        if len(self.calls) == k:
            return out
        lp = self.logp(x, self.calls[-1][1])
        with np.errstate(all="ignore"):
            d = np.where((w0 > 0) & (lp > -np.inf), lp - ref, -np.inf)
            m = np.max(d)
            want = w0 * np.exp(d - m) if np.isfinite(m) else np.zeros_like(w0)
        got = to_np(ps.w_tmp)
        update = args[0] if args else kw.get("update_logpx_and_w", True)
        if want.sum() > 0 and m > -700:
            if not ctx.check(bool(np.all(np.isfinite(got)) and np.sum(got) > 0), "weights-finite", "weights are not finite"):
                return out
            ctx.close(got / got.sum(), want / want.sum(), "reweight", rtol=1e-8, atol=1e-12 / len(w0), scale=1.0,
                      msg="weights are not the old ones times the density ratio")
            e = want.sum() ** 2 / np.sum(want**2)
            ctx.close(as_float(ps.ess()), e, "ess", rtol=1e-7, msg="effective sample size")
        ctx.equal(to_np(ps.x), x, "reweight-keeps-x", msg="reweighting moved particles")
        if update:
            self.lp = lp
            ctx.close(np.maximum(to_np(ps.logpx), -1e90), np.maximum(lp, -1e90), "logpx-after-reweight", rtol=1e-10, atol=1e-9,
                      msg="stored log-densities differ from the density at the particles")
        else:
            ctx.equal(to_np(ps.logpx), l0, "trial-reweight-keeps-logpx", msg="a trial reweighting changed logpx")
            ctx.equal(to_np(ps.w), w0, "trial-reweight-keeps-w", msg="a trial reweighting changed the weights")
        self.last_w = want
        ctx.count("reweights", 1)
        return out

    def resample(self, ps, orig, args, kw):
        ctx = self.ctx
        x0, l0, w = to_np(ps.x).copy(), to_np(ps.logpx).copy(), to_np(ps.w_tmp).copy()
        n = x0.shape[0]
        out = orig(ps, *args, **kw)
        x1, l1 = to_np(ps.x), to_np(ps.logpx)
        ctx.shape(x1, x0.shape, "resample-keeps-n")
        index, group = {}, np.empty(n, dtype=int)
        for i in range(n):
            group[i] = index.setdefault(x0[i].tobytes(), len(index))
        try:
            g1 = np.array([index[x1[i].tobytes()] for i in range(n)])
        except KeyError:
            ctx.check(False, "resample-duplicates", "a resampled particle is none of the existing ones")
            return out
        first = np.full(len(index), -1)
        for i in range(n):
            if first[group[i]] < 0:
                first[group[i]] = i
        ctx.check(True, "resample-duplicates")
        if self.lp is not None and len(self.lp) == n:
            self.lp = self.lp[first[g1]]
        ctx.close(np.maximum(l1, -1e90), np.maximum(l0[first[g1]], -1e90), "resample-logpx", rtol=1e-12, atol=1e-12,
                  msg="log-density not carried along with its particle")
        wn = to_np(ps.w)
        ctx.close(wn / wn.sum(), np.full(n, 1 / n), "resample-resets-weights", msg="weights not reset")
        ctx.close(to_np(ps.w_tmp) / to_np(ps.w_tmp).sum(), np.full(n, 1 / n), "resample-resets-w-tmp", msg="weights not reset")
        self.marks.append(len(self.rates))
        if not np.all(np.isfinite(w)) or w.sum() <= 0:
            self.distinct = 0  # no particle in the support: nothing can be said of the final law
            return out
        p = np.bincount(group, weights=w / w.sum())
        c = np.bincount(g1, minlength=len(p))
        self.distinct = min(self.distinct, int(np.sum(c > 0)))
        ctx.check(bool(np.all(c[p == 0] == 0)), "resample-zero-weight", "a particle of weight zero was duplicated")
        if ps.config.resample_scheme == "residual":
            q = np.zeros(len(p))
            np.add.at(q, group, np.floor(n * w / w.sum() - 1e-9))
            ctx.check(bool(np.all(c >= q)), "residual-floor", "residual resampling keeps fewer than the integer part of n*w copies")
        pv = stats.multinomial_pvalue(c, p)
        ctx.check(pv > stats.ALPHA, "multiplicities", f"offspring counts inconsistent with the weights (p={pv:.2g})")
        order = np.argsort(-p)
        top = np.zeros(len(p), dtype=bool)
        top[order[: 1 + int(np.searchsorted(np.cumsum(p[order]), 0.5))]] = True
        place = x0[first[:, None], 0].ravel()
        splits = {"weight": top, "index": np.arange(len(p)) < len(p) / 2, "place": place < np.median(place)}
        for name, s in splits.items():
            ps_ = float(p[s].sum())
            self.off[name][0] += float(c[s].sum() - n * ps_)
            self.off[name][1] += n * ps_ * (1 - ps_)
        ctx.count("resamplings", 1)
        ctx.state("resample", ps.config.resample_scheme, int(math.log2(1 + np.sum(c > 0))))
        return out

    def move(self, ps, orig, args, kw):
        ctx = self.ctx
        x0, l0 = to_np(ps.x).copy(), to_np(ps.logpx).copy()
        k = len(self.calls)
        out = orig(ps, *args, **kw)
        x1 = to_np(ps.x).copy()
        new = self.calls[k:]
        if len(new) != 1 or new[0][0].shape != x0.shape:
            ctx.count("moves_not_replayed", 1)
            self.rates.append(None)
            return out
        y, param = new[0]
        if np.any(np.all(y == x0, axis=1)):  # proposals lost in rounding: all particles are copies of one
            ctx.count("degenerate_moves", 1)
            self.rates.append(None)
            return out
        moved = np.any(x1 != x0, axis=1)
        ctx.check(bool(np.all(np.where(moved[:, None], x1 == y, x1 == x0))), "move-to-proposal",
                  "a moved particle is neither its proposal nor its former position")
        ctx.close(as_float(out), moved.mean(), "acceptance-rate", atol=1e-12, msg="acceptance rate returned by move")
        self.rates.append(float(moved.mean()))
        lx, ly, l1 = self.logp(x0, param), self.logp(y, param), self.logp(x1, param)
        ctx.close(np.maximum(to_np(ps.logpx), -1e90), np.maximum(l1, -1e90), "logpx-after-move", rtol=1e-10, atol=1e-9,
                  msg="stored log-densities differ from the density at the particles")
        self.lp = l1
        live = lx > -1e90
        a = np.exp(np.minimum(0.0, ly[live] - lx[live]))
        ctx.check(not np.any(moved[live] & (a == 0)), "never-leaves-support", "a particle left the support")
        self.acc_d.append(float(np.sum(moved[live] - a)))
        self.acc_v.append(float(np.sum(a * (1 - a))))
        s = np.sign(y - x0)
        self.sign_d.append(s.sum(axis=0))
        self.pull_d.append((s * np.sign(x0 - x0.mean(axis=0))).sum(axis=0))
        self.n = len(x0)
        # steps near the rounding of the positions cannot be told apart
        if np.all(np.std(y - x0, axis=0) > 1e6 * np.finfo(float).eps * np.max(np.abs(x0), axis=0)):
            ctx.check(len(np.unique(y - x0, axis=0)) > len(x0) // 2, "proposal-noise", "particles share their proposal noise")
        ctx.count("moves", 1)
        ctx.count("proposals", len(x0))
        return out

    # -- verdicts over the whole run

    def finish(self, tag):
        ctx = self.ctx
        if self.acc_d:
            tot, bound = stats.freedman(np.array([sum(self.acc_d)]), np.array([sum(self.acc_v)]))
            ctx.check(tot <= bound, "acceptance-law", f"accept decisions: |{tot:.1f}| exceeds {bound:.1f}")
            ctx.record("acc:" + tag, [sum(self.acc_d), sum(self.acc_v)])
            n = len(self.sign_d) * self.n
            for name, d in (("sign", self.sign_d), ("pull", self.pull_d)):
                tot = np.sum(d, axis=0)
                for t in tot:
                    got, bound = stats.freedman(np.array([t]), np.array([n]))
                    ctx.check(got <= bound, f"proposal-{name}", "proposals are not symmetric around the particle")
                ctx.record(f"{name}:" + tag, [float(np.sum(tot)), float(n * len(tot) ** 2)])
        for name, (d, v) in self.off.items():
            if v > 0:
                ctx.record(f"offspring-{name}:" + tag, [d, v])
        u = np.concatenate(self.init_u) if self.init_u else np.empty(0)
        if len(u) > 50:
            ctx.check(stats.ks_uniform(u) > stats.ALPHA, "init-uniform", "initial particles are not uniform on the box")


def draw_configs(rng, method):
    pc = ParticlesSetConfig(
        resample_scheme=str(rng.choice(["multinomial", "residual"])),
        covariance_method=str(rng.choice(["normal", "knn"])),
        param_s_initial_value=float(rng.choice([0.05, 0.5, 2.0])),
    )
    sc = SMCConfig(
        compute_next_logpdf_param_method=method,
        mh_steps=int(rng.choice([5, 10, 20])),
        mh_acceptation_rate_min=float(rng.choice([0.1, 0.15, 0.25])),
        mh_acceptation_rate_max=float(rng.choice([0.3, 0.4, 0.6])),
        mh_adjustment_factor=float(rng.choice([1.2, 1.4, 2.0])),
    )
    return pc, sc


def check_log(ctx, smc, mon):
    """Acceptance rates in the log are those of the moves, in order."""
    check_moves(ctx, mon, smc.smc_config.mh_steps)
    logged = [as_float(r) for e in smc.log for r in e["acceptation_rate_sequence"]]
    logged += [as_float(r) for r in smc.log_data["acceptation_rate_sequence"]]
    if None not in mon.rates:
        ctx.check(len(logged) == len(mon.rates), "log-rate-count", f"{len(logged)} rates logged for {len(mon.rates)} moves")
        if len(logged) == len(mon.rates):
            ctx.close(np.array(logged), np.array(mon.rates), "log-rates", atol=1e-12, msg="acceptance rates in the log")
    for e in smc.log:
        ctx.check(e["num_particles"] == smc.n, "log-n", "number of particles in the log")


def check_moves(ctx, mon, steps):
    ends = mon.marks[1:] + [len(mon.rates)]
    for a, b in zip(mon.marks, ends):
        ctx.check(b - a >= steps, "moves-per-stage", f"{b - a} moves in a stage, {steps} requested")


def check_final(ctx, fam, x, n, param, tag, steps=None, distinct=math.inf):
    x = to_np(x)
    ctx.shape(x, (n, fam.dim), "final-shape")
    ctx.check(bool(np.all(np.isfinite(x))), "final-finite", "non-finite particles")
    if distinct == 0:
        ctx.count("lost_populations", 1)
        return
    ctx.check(bool(np.all(fam.logp(x, param) > -1e90)), "final-support", "final particles outside the support")
    u = fam.pit(x, param)
    if n >= 150 and distinct >= 15:
        for j in range(fam.dim):
            D = st.kstest(u[:, j], "uniform").statistic
            # particles descending from few distinct ones carry the information of those only
            ctx.check(D < 0.12 + 4.5 / math.sqrt(min(n, distinct)), "final-law", f"final particles far from the target (KS distance {D:.3f}, n={n})")
            ctx.observe("ks", D)
            if steps is None or steps >= 20:
                ctx.record("mean:" + tag, [float((u[:, j].mean() - 0.5) * math.sqrt(12 * n))])
                ctx.record("second:" + tag, [float((np.mean((u[:, j] - 0.5) ** 2) - 1 / 12) * math.sqrt(180 * n))])


def run_guarded(ctx, run):
    """Run; a declared refusal of the proposal scale ends the case without a verdict."""
    try:
        with silent():
            run()
    except ParticlesSetError:
        ctx.count("declared_refusals", 1)
        return False
    return True


# -- scenarios -----------------------------------------------------------------------------------


@REG.scenario(quick=30)
def tempering(ctx):
    """run_smc_sampling from the initial box to the target."""
    rng = ctx.rng
    fam = Family(rng, int(rng.integers(1, 4)))
    n = int(rng.choice([150, 300, 600]))
    easy, hard = float(rng.choice([0.01, 0.1, 0.5])), float(rng.choice([1.0, 4.0, 30.0]))
    initial, target = fam.params(rng, easy, hard)
    method = str(rng.choice(["p0", "ess"]))
    if method == "ess":  # an unnormalised level probability only makes sense without a constant
        fam.shift = float(rng.choice([0.0, 3.0, -20.0]))
    box = fam.box(rng)
    mer = float(rng.choice([0.3, 0.5, 0.8]))
    pc, sc = draw_configs(rng, method)
    explicit = bool(rng.integers(2))
    steps = sc.mh_steps if explicit else 20
    seed_defaults(int(rng.integers(2**31)))
    ctx.note(family=fam.kind, dim=fam.dim, n=n, initial=initial, target=target, method=method, min_ess=mer, explicit=explicit,
             configs=repr((pc, sc)) if explicit else None)
    ctx.state("tempering", fam.kind, fam.dim, method, fam.temp, explicit)
    res = {}

    def go():
        kw = dict(particles_config=pc, smc_config=sc) if explicit else dict(mh_steps=20)
        res["x"], res["smc"] = run_smc_sampling(
            fam, initial, target, method, mer, p0=float(rng.choice([0.15, 0.3, 0.6])), init_box=box, n_particles=n, **kw
        )

    with Monitor(ctx, fam.logp, fam.calls) as mon:
        if not run_guarded(ctx, go):
            return
    smc = res["smc"]
    check_log(ctx, smc, mon)
    check_final(ctx, fam, res["x"], n, target, "tempering", steps, mon.distinct)
    seqs = [e["logpdf_param_sequence"] for e in smc.log if e["logpdf_param_sequence"]]
    if seqs:
        path = np.array([as_float(p) for p in max(seqs, key=len)])
        ctx.check(path[0] == initial and path[-1] == target, "path-ends", "tempering path does not go from initial to target")
        sgn = np.sign(target - initial)
        ctx.check(bool(np.all(np.diff(path) * sgn >= 0)), "path-monotone", "tempering path is not monotone")
        ctx.observe("stages", len(path) - 1)
    used = sorted({i for i, e in enumerate(smc.log) if e["ess"] is not None})
    ctx.check(bool(used), "log-ess", "no effective sample size in the log")
    mon.finish("tempering")


@REG.scenario(quick=10)
def stages(ctx):
    """One SMC object followed through a history of targets, with step and possible restart."""
    rng = ctx.rng
    fam = Family(rng, int(rng.integers(1, 3)))
    n = int(rng.choice([100, 200, 400]))
    method = str(rng.choice(["p0", "ess"]))
    if method == "ess":
        fam.shift = float(rng.choice([0.0, 3.0, -20.0]))
    pc, sc = draw_configs(rng, method)
    box = fam.box(rng)
    smc = SMC(box, n=n, particles_config=pc, smc_config=sc, rng=np.random.default_rng(int(rng.integers(2**31))))
    levels = np.exp(rng.uniform(np.log(0.2), np.log(20.0), int(rng.integers(2, 5))))
    initial, _ = fam.params(rng, 0.05, 1.0)
    mer = float(rng.choice([0.2, 0.5, 0.8]))
    p0 = float(rng.choice([0.15, 0.3, 0.6]))
    ctx.note(family=fam.kind, dim=fam.dim, n=n, levels=levels.tolist(), method=method, min_ess=mer)
    orig_step = smc.step

    def step(f, param, *a, **k):
        ps = smc.particles
        with np.errstate(all="ignore"):
            w0 = to_np(ps.w)
            d = np.where(w0 > 0, fam.logp(to_np(ps.x), param) - to_np(ps.logpx), -np.inf)
        m = np.max(d)
        out = orig_step(f, param, *a, **k)
        if -600 < m < np.inf:
            w = w0 * np.exp(d - m)
            last = smc.log[-1]
            ctx.close(as_float(last["ess"]), w.sum() ** 2 / np.sum(w**2), "log-ess", rtol=1e-7, msg="logged ESS")
            ctx.check(as_float(last["current_logpdf_param"]) == as_float(param), "log-param", "logged parameter")
            ctx.check(last["stage"] == smc.stage, "log-stage", "logged stage")
        return out

    smc.step = step
    with Monitor(ctx, fam.logp, fam.calls) as mon:
        for i, lev in enumerate(levels):
            _, target = fam.params(rng, 0.05, float(lev))
            fam.n_calls = 0
            how = "step" if rng.uniform() < 0.3 and i > 0 else "restartable"
            ps = smc.particles
            w0 = to_np(ps.w)
            with np.errstate(all="ignore"):
                d = np.where(w0 > 0, fam.logp(to_np(ps.x), target) - to_np(ps.logpx), -np.inf)
            m = np.max(d)
            w = w0 * np.exp(d - m) if np.isfinite(m) else np.zeros(n)
            ratio = (w.sum() ** 2 / np.sum(w**2)) / n if w.sum() > 0 else 0.0
            if how == "step" and ratio < 0.05:
                how = "restartable"
            k = mon.n_init
            if how == "step":
                go = lambda: smc.step(fam, target)
            else:
                go = lambda: smc.step_with_possible_restart(fam, initial, target, mer, p0)
            if not run_guarded(ctx, go):
                return
            if how == "restartable" and abs(ratio - mer) > 1e-9 and -600 < m < 600:
                ctx.check((mon.n_init > k) == (ratio < mer), "restart-decision",
                          f"ESS ratio {ratio:.3f}, minimum {mer}: restart {'taken' if mon.n_init > k else 'not taken'}")
                ctx.state("restart", mon.n_init > k, fam.kind, method)
            check_final(ctx, fam, smc.particles.x, n, target, "stages", 1 if how == "step" else sc.mh_steps, mon.distinct)
        check_log(ctx, smc, mon)
    mon.finish("stages")


@REG.scenario(quick=24)
def hostile(ctx):
    """Extreme constants, supports missed by most of the box, few particles, short parameter ranges."""
    rng = ctx.rng
    what = ["huge", "tiny", "few", "short", "same", "support", "indefinite", "jumps", "missed"][ctx.case % 9]
    kind = {"few": "cube", "jumps": "cube", "support": "exponential", "same": "normal", "short": "normal", "missed": "uniform"}.get(what)
    fam = Family(rng, 1 if what == "few" else 2, kind=kind)
    method = "ess" if what in ("short", "tiny", "huge") else str(rng.choice(["p0", "ess"]))
    n, easy, hard, mer = (100 if what == "short" else 200), 0.02, 2.0, 0.5
    if what == "huge":
        fam.shift = float(rng.choice([800.0, 2000.0, 1e5]))
    elif what == "tiny":
        fam.shift = float(rng.choice([-800.0, -2000.0]))
        if fam.kind == "cube":
            fam.kind = "normal"
    elif what == "few":
        n = int(rng.integers(5, 12))
    elif what == "short":
        fam.temp = False
        fam.scale = fam.scale / 20
        easy, hard, mer = 1e-4, float(rng.choice([0.02, 0.045])), float(rng.choice([0.7, 0.9]))
    elif what == "same":
        easy = hard = 3.0
        n = 400
    elif what == "jumps":
        n, hard = 60, 10.0
    elif what == "missed":
        n = 30
    box = np.array(fam.box(rng), dtype=float)
    if what == "missed":  # the support is so small a part of the box that no first particle may be in it
        box = fam.loc + float(rng.choice([1.5, 4.0])) * (box - fam.loc)
    if what == "short":
        mid, half = fam.loc, float(rng.choice([60.0, 95.0, 150.0])) * fam.scale
        box = np.array([mid - half, mid + half])
    initial, target = fam.params(rng, easy, hard)
    pc, sc = draw_configs(rng, method)
    sc.mh_steps = 20
    smc = SMC(box, n=n, particles_config=pc, smc_config=sc, rng=np.random.default_rng(int(rng.integers(2**31))))
    ctx.note(what=what, family=fam.kind, n=n, initial=initial, target=target, method=method, shift=fam.shift)
    ctx.state("hostile", what, fam.kind, method)
    orig_rvs = ParticlesSet.multivariate_normal_rvs
    if what == "indefinite":
        # every third request for proposals meets a numerically indefinite covariance
        count = [0]

        def rvs(C, n_, rng_):
            count[0] += 1
            if count[0] % 3 == 0:
                raise ValueError("The input matrix must be symmetric positive semidefinite.")
            return orig_rvs(C, n_, rng_)

        ParticlesSet.multivariate_normal_rvs = staticmethod(rvs)
    try:
        with Monitor(ctx, fam.logp, fam.calls) as mon:
            ok = run_guarded(ctx, lambda: smc.step_with_possible_restart(fam, initial, target, mer, 0.35))
    finally:
        ParticlesSet.multivariate_normal_rvs = staticmethod(orig_rvs)
    if not ok:
        return
    check_log(ctx, smc, mon)
    check_final(ctx, fam, smc.particles.x, n, target, "hostile", 1 if what in ("same", "few") else 20, mon.distinct)
    mon.finish("hostile")


@REG.scenario(quick=30)
def resampling(ctx):
    """Resampling alone, with weights of every shape."""
    rng = ctx.rng
    scheme = ["multinomial", "residual"][ctx.case % 2]
    n, dim = int(rng.choice([1, 2, 5, 50, 400])), int(rng.integers(1, 4))
    kind = str(rng.choice(["flat", "geometric", "one", "integers", "zeros", "dirichlet", "unnormalised", "vanishing"]))
    box = [[0.0] * dim, [1.0] * dim]
    calls = []
    with Monitor(ctx, None, calls) as mon:
        for _ in range(6):
            ps = ParticlesSet(box, n, config=ParticlesSetConfig(resample_scheme=scheme),
                              rng=np.random.default_rng(int(rng.integers(2**31))))
            w = {
                "flat": np.full(n, 1.0 / n),
                "geometric": 0.9 ** np.arange(n),
                "one": np.eye(n)[rng.integers(n)],
                "integers": rng.integers(1, 4, n).astype(float),
                "zeros": rng.integers(0, 2, n) * rng.uniform(size=n),
                "dirichlet": rng.gamma(0.3, size=n) + 1e-300,
                "unnormalised": rng.uniform(size=n) * 1e8,
                "vanishing": np.zeros(n),
            }[kind]
            lp = rng.standard_normal(n)
            ps.logpx = gnp.asarray(lp.copy())
            ps.w = gnp.asarray(w.copy())
            ps.w_tmp = gnp.asarray(w.copy())
            with silent():
                ps.resample()
    ctx.note(scheme=scheme, n=n, dim=dim, kind=kind)
    ctx.state("resampling", scheme, kind, n)
    if n >= 50:
        mon.finish("resampling-" + scheme)


@REG.scenario(quick=8)
def multiplicities(ctx):
    """Offspring numbers of one weighted set resampled many times."""
    rng = ctx.rng
    scheme = ["multinomial", "residual"][ctx.case % 2]
    n = int(rng.choice([5, 12, 25]))
    w = {0: rng.gamma(0.7, size=n), 1: rng.integers(1, 5, n) + 0.0, 2: 0.8 ** np.arange(n), 3: rng.uniform(0.2, 1.8, n)}[
        int(rng.integers(4))
    ]
    p = w / w.sum()
    gen = np.random.default_rng(int(rng.integers(2**31)))
    tot, reps = np.zeros(n), 400 if ctx.tier == "quick" else 1500
    base = np.zeros(n)
    if scheme == "residual":
        e = n * p
        base = np.floor(e + 1e-12 * np.maximum(1, e))
    for _ in range(reps):
        ps = ParticlesSet([[0.0], [1.0]], n, config=ParticlesSetConfig(resample_scheme=scheme), rng=gen)
        ps.x = gnp.asarray(np.arange(n, dtype=float).reshape(-1, 1))
        ps.w, ps.w_tmp = gnp.asarray(w.copy()), gnp.asarray(w.copy())
        ps.resample()
        tot += np.bincount(to_np(ps.x).ravel().astype(int), minlength=n)
    ctx.check(tot.sum() == n * reps, "resample-keeps-n", "number of particles changed")
    extra, q = tot - reps * base, np.maximum(n * p - base, 0.0)
    if q.sum() > 1e-6:
        pv = stats.multinomial_pvalue(np.maximum(extra, 0), q / q.sum())
        ctx.check(pv > stats.ALPHA, "expected-multiplicities", f"mean offspring numbers differ from n times the weights (p={pv:.2g})")
        ctx.check(bool(np.all(extra >= -1e-9)), "residual-floor", "fewer copies than the integer part of n*w")
    ctx.note(scheme=scheme, n=n, weights=w.tolist())
    ctx.state("multiplicities", scheme, n)
    ctx.count("resamplings", reps)


@REG.scenario(quick=6)
def long_moves(ctx):
    """Particles started from exact draws stay exact draws under many moves."""
    rng = ctx.rng
    fam = Family(rng, int(rng.integers(1, 4)))
    n = int(rng.choice([500, 1000]))
    _, param = fam.params(rng, 0.1, float(rng.choice([0.5, 1.0, 5.0])))
    ps = ParticlesSet(fam.box(rng), n, rng=np.random.default_rng(int(rng.integers(2**31))))
    u = rng.uniform(size=(n, fam.dim))
    b = fam.beta(param)
    t = {
        "normal": lambda: st.norm.ppf(u) / math.sqrt(b),
        "laplace": lambda: st.laplace.ppf(u) / b,
        "exponential": lambda: st.expon.ppf(u) / b,
        "cube": lambda: (2 * u - 1) * param,
        "uniform": lambda: 2 * u - 1,
    }[fam.kind]()
    x = fam.loc + fam.scale * t
    with Monitor(ctx, fam.logp, fam.calls) as mon:
        ps.x = gnp.asarray(x.copy())
        ps.set_logpdf_with_parameter(fam, param)
        ps.logpx = gnp.asarray(fam.logp(x, param))
        ps.param_s = float(np.exp(rng.uniform(-2, 1.5)))
        with silent():
            for _ in range(25):
                ps.move()
    v = fam.pit(to_np(ps.x), param)
    for j in range(fam.dim):
        p = stats.ks_uniform(v[:, j])
        ctx.check(p > stats.ALPHA, "moves-invariant", f"exact draws are no longer draws of the target (p={p:.2g})")
        ctx.record("mean:moves", [float((v[:, j].mean() - 0.5) * math.sqrt(12 * n))])
    ctx.state("moves", fam.kind, fam.dim)
    mon.finish("moves")


# -- subset simulation ------------------------------------------------------------------------


class RareEvent:
    """X on a box, f(X) with an exactly known distribution function."""

    def __init__(self, rng):
        self.base = str(rng.choice(["uniform", "normal", "exponential"]))
        self.dim = int(rng.integers(1, 4 if self.base == "uniform" else 3))
        self.tail = str(rng.choice(["upper", "lower"]))
        self.off = rng.uniform(-3, 3, self.dim)
        self.scale = np.exp(rng.uniform(-1.5, 1.5, self.dim))
        self.fkind = str(rng.choice(["first", "monotone", "extreme"]))
        self.outside = str(rng.choice(["inf", "big"]))
        self.pad = float(rng.choice([0.0, 0.3]))
        self.calls = []
        self.n_calls = 0
        self.level = None
        probs = rng.uniform(0.08, 0.6, int(rng.integers(1, 7)))
        if self.base != "uniform":  # enough weighted particles must survive the first stage
            probs[0] = rng.uniform(0.4, 0.6)
        self.stage = probs
        s = np.cumprod(probs)
        q = s if self.tail == "lower" else 1 - s
        self.thresholds = [np.inf if self.tail == "lower" else -np.inf] + [float(self.quantile(v)) for v in q]
        self.exact = s

    def box(self):
        if self.base == "uniform":
            lo, hi = -self.pad, 1 + self.pad
        elif self.base == "normal":
            lo, hi = -5.5, 5.5
        else:
            lo, hi = -self.pad, 10.0
        return [list(self.off + self.scale * lo), list(self.off + self.scale * hi)]

    def unit(self, x):
        return (np.asarray(x, dtype=float) - self.off) / self.scale

    def u(self, x):
        t = self.unit(x)
        if self.base == "uniform":
            return np.clip(t, 0, 1)
        return st.norm.cdf(t) if self.base == "normal" else st.expon.cdf(np.maximum(t, 0))

    def fval(self, x):
        t = self.unit(x)
        if self.fkind == "first":
            return t[:, 0]
        if self.fkind == "monotone":
            return np.sinh(t[:, 0]) * 3 - 1
        return np.max(t, axis=1) if self.tail == "upper" else np.min(t, axis=1)

    def quantile(self, q):
        ppf = {"uniform": lambda v: v, "normal": st.norm.ppf, "exponential": st.expon.ppf}[self.base]
        if self.fkind == "first":
            return ppf(q)
        if self.fkind == "monotone":
            return np.sinh(ppf(q)) * 3 - 1
        if self.tail == "upper":  # P(max < v) = F(v)^d
            return ppf(q ** (1 / self.dim))
        return ppf(1 - (1 - q) ** (1 / self.dim))

    def logpx(self, x):
        t = self.unit(x)
        jac = -np.sum(np.log(self.scale))
        bad = -np.inf if self.outside == "inf" else -1e100
        if self.base == "uniform":
            return np.where(np.all((t >= 0) & (t <= 1), axis=1), jac, bad)
        if self.base == "normal":
            return np.sum(st.norm.logpdf(t), axis=1) + jac
        return np.where(np.all(t >= 0, axis=1), -np.sum(np.maximum(t, 0), axis=1) + jac, bad)

    def inside(self, x, u):
        f = self.fval(x)
        return f < u if self.tail == "lower" else f > u

    def logp(self, x, u):
        return np.where(self.inside(x, u), self.logpx(x), -np.inf)

    def f(self, x):
        self.n_calls += 1
        if self.n_calls > CAP:
            raise Runaway("too many evaluations")
        x = to_np(x).copy()
        self.calls.append((x, self.level))
        return gnp.asarray(self.fval(x))

    def log_px(self, x):
        return gnp.asarray(self.logpx(to_np(x)))


class SubsetMonitor(Monitor):
    """The level in force changes at each reweighting."""

    def __init__(self, ctx, ev):
        super().__init__(ctx, ev.logp, ev.calls)
        self.ev, self.k, self.before = ev, 0, []

    def reweight(self, ps, orig, args, kw):
        self.k += 1
        if self.k < len(self.ev.thresholds):
            self.ev.level = self.ev.thresholds[self.k]
        self.before.append(to_np(ps.x).copy())
        return super().reweight(ps, orig, args, kw)


@REG.scenario(quick=40)
def rare_events(ctx):
    """run_subset_simulation against exact probabilities."""
    rng = ctx.rng
    ev = RareEvent(rng)
    n = int(rng.choice([200, 400, 800]))
    steps = int(rng.choice([10, 20]))
    seed_defaults(int(rng.integers(2**31)))
    res = {}
    ctx.note(base=ev.base, f=ev.fkind, tail=ev.tail, dim=ev.dim, n=n, steps=steps, thresholds=ev.thresholds, exact=ev.exact.tolist())
    ctx.state("rare", ev.base, ev.fkind, ev.tail, ev.dim, len(ev.exact))

    def go():
        res["p"], res["stages"], res["smc"] = run_subset_simulation(
            ev.f, ev.thresholds, ev.box(), ev.log_px, tail=ev.tail, n_particles=n, mh_steps=steps,
            resample_scheme=str(rng.choice(["residual", "multinomial"])),
        )

    with SubsetMonitor(ctx, ev) as mon:
        if not run_guarded(ctx, go):
            return
    got = to_np(res["stages"]).ravel()
    m = len(ev.exact)
    ctx.shape(got, (m,), "stage-count")
    ctx.close(res["p"], float(np.prod(got)), "product", rtol=1e-10, msg="estimate is not the product of the stage probabilities")
    ctx.check(bool(np.all((got >= 0) & (got <= 1 + 1e-9))), "stage-range", f"stage probabilities {got}")
    if len(mon.before) == m:
        for k in range(1, m):
            frac = float(np.mean(ev.inside(mon.before[k], ev.thresholds[k + 1])))
            ctx.close(got[k], frac, "stage-fraction", rtol=1e-9, atol=1e-12,
                      msg="stage probability is not the fraction of particles beyond the threshold")
        for k in range(1, m):
            ctx.check(bool(np.all(ev.logp(mon.before[k], ev.thresholds[k]) > -1e90)), "stage-support",
                      "particles outside the region of the stage")
        x0 = mon.before[0]
        w = np.exp(ev.logpx(x0))
        ins = ev.inside(x0, ev.thresholds[1])
        r = w[ins].sum() / w.sum()
        se = math.sqrt(np.sum((w * (ins - r)) ** 2)) / w.sum()
        vol = float(np.prod(np.subtract(*ev.box()[::-1])))
        se = math.hypot(se, vol * np.std(w * ins) / math.sqrt(n))
        neff = w.sum() ** 2 / np.sum(w**2)
        if neff > 50:
            ctx.check(abs(got[0] - ev.stage[0]) < 8 * se + 0.02, "first-stage",
                      f"first stage probability {got[0]:.4g}, exact {ev.stage[0]:.4g} (se {se:.2g})")
            ctx.record("first", [float((got[0] - ev.stage[0]) / se)])
    infl = 12.0 if steps >= 20 else 20.0
    se = math.sqrt(infl * sum((1 - p) / (p * n) for p in ev.stage))
    if n >= 400 and np.all(got > 0) and ev.base == "uniform":
        r = math.log(res["p"] / ev.exact[-1])
        ctx.check(abs(r) < 6 * se + 0.1, "estimate", f"estimate {res['p']:.3g}, exact {ev.exact[-1]:.3g}")
    if steps >= 20 and m > 1 and ev.base == "uniform":
        for k in range(1, m):
            p = ev.stage[k]
            ctx.record("stage", [float((got[k] - p) / math.sqrt(p * (1 - p) / n))])
    x = to_np(res["smc"].particles.x)
    ctx.shape(x, (n, ev.dim), "final-shape")
    ctx.check(bool(np.all(ev.logp(x, ev.thresholds[-1]) > -1e90)), "final-support", "final particles outside the rare event")
    # each snapshot holds the rates of the first moves that followed its resampling
    logs = res["smc"].log
    check_moves(ctx, mon, steps)
    if len(logs) == m and len(mon.marks) == m and None not in mon.rates:
        for e, k in zip(logs, mon.marks):
            seq = np.array([as_float(r) for r in e["acceptation_rate_sequence"]])
            ctx.close(seq, np.array(mon.rates[k : k + len(seq)]), "log-rates", atol=1e-12, msg="acceptance rates in the log")
    mon.finish("subset")


@REG.scenario(quick=10)
def indicator(ctx):
    """The conditional density used by subset simulation."""
    rng = ctx.rng
    ev = RareEvent(rng)
    u = float(rng.choice([ev.thresholds[-1], 0.5, ev.thresholds[0]]))
    x = np.array(ev.box()[0]) + rng.uniform(-0.1, 1.1, (40, ev.dim)) * np.subtract(*ev.box()[::-1])
    got = to_np(log_indicator_density(ev.f, u, ev.log_px, tail=ev.tail)(gnp.asarray(x)))
    want = ev.logp(x, u)
    ctx.shape(got, (40,), "indicator-shape")
    ctx.close(np.maximum(got, -1e90), np.maximum(want, -1e90), "indicator", rtol=1e-12, msg="log of indicator times density")
    xi = gnp.asarray(x)
    on = as_float(ev.f(xi)[0])
    edge = to_np(log_indicator_density(ev.f, on, ev.log_px, tail=ev.tail)(xi))[0]
    ctx.check(edge < -1e90, "indicator-strict", "a point exactly on the threshold is kept")
    ctx.state("indicator", ev.base, ev.tail)
    ctx.raises(lambda: log_indicator_density(ev.f, u, ev.log_px, tail="both")(xi), "indicator-tail", ValueError)


@REG.offline_check
def pooled(records, meta):
    """Deviations too small for one run, summed over all runs of the tier."""
    n, out = 0, []
    exact, free = {}, {}
    for backend, cases in records.items():
        for (scen, case), recs in cases.items():
            for name, value in recs:
                if len(value) == 2:
                    d = exact.setdefault(name, [0.0, 0.0])
                    d[0] += value[0]
                    d[1] += value[1]
                else:
                    free.setdefault(name, []).append(value[0])
    for name, (d, v) in exact.items():
        n += 1
        if v <= 0:
            continue
        z = abs(d) / math.sqrt(v)
        tot, bound = stats.freedman(np.array([d]), np.array([v]))
        # offspring sums are not bounded by one: normal bound with room, at least 20 events of variance
        limit = bound if not name.startswith("offspring") else 7.0 * math.sqrt(v) + 20
        if tot > limit:
            out.append(offline_violation(meta, name.split(":")[-1], f"pooled-{name}", f"{name}: total {d:.1f}, {z:.1f} standard deviations"))
    for name, vals in free.items():
        vals = np.array(vals)
        if len(vals) < 10:
            continue
        n += 1
        sd = max(1.0, float(np.std(vals)))
        # O(1/n) bias of adaptive interacting particles, in standard deviations of one run
        allow = 0.5
        if abs(vals.mean()) > allow + 6.5 * sd / math.sqrt(len(vals)):
            out.append(offline_violation(meta, name, f"pooled-{name}", f"{name}: mean deviation {vals.mean():.2f} (sd {sd:.2f}, {len(vals)} runs)"))
    return n, out
