"""C18: NUTS transitions leave the target invariant and report faithful diagnostics.

The log-density and the library's normal generator are wrapped: every transition leaves a log of
the points visited and the momentum drawn, from which the Hamiltonian trajectory, the acceptance
statistic and the tree limits are recomputed.  Transitions started from exact draws must give exact
draws, judged per case and pooled over all cases.
"""

import contextlib
import io
import math

import numpy as np
from scipy import stats as st

import gpmp.num as gnp
from gpmp.mcmc import nuts

from .. import stats
from ..core import Registry, as_float, offline_violation, to_np

REG = Registry(
    "C18",
    more=2,
    rule="one evaluation = one clause on one transition, trace or adaptation step of one run",
    assumptions=["statistical verdicts have a false-alarm probability below 1e-9 each"],
)


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


class Density:
    """A density with native log-density, NumPy gradient, exact sampler and uniformising map."""

    def __init__(self, rng, dim, kind=None):
        kinds = ["normal", "correlated", "student", "exponential", "logistic"] + (["banana"] if dim >= 2 else [])
        self.kind = str(rng.choice(kinds)) if kind is None else kind
        self.dim = dim
        self.loc = rng.uniform(-2, 2, dim)
        self.scale = np.exp(rng.uniform(-1, 1, dim))
        self.shift = float(rng.choice([0.0, 30.0, -500.0]))
        if self.kind == "correlated":
            a = 0.6 * rng.standard_normal((dim, dim)) + 1.2 * np.eye(dim)
            self.cov = a @ a.T
            self.prec = np.linalg.inv(self.cov)
            self.chol = np.linalg.cholesky(self.cov)
            self.scale = np.sqrt(np.diag(self.cov))
        self.visited = []
        self.log = False

    def native(self, q):
        """What the library is given."""
        if self.log:
            self.visited.append(to_np(q).copy())
        loc, sc = gnp.asarray(self.loc), gnp.asarray(self.scale)
        t = (q - loc) / sc
        if self.kind == "normal":
            v = -0.5 * gnp.sum(t * t)
        elif self.kind == "correlated":
            e = q - loc
            v = -0.5 * gnp.sum(e * (gnp.asarray(self.prec) @ e))
        elif self.kind == "student":
            v = -3.0 * gnp.sum(gnp.log(1 + t * t / 5.0))
        elif self.kind == "logistic":
            v = -gnp.sum(t + 2 * gnp.log(1 + gnp.exp(-t)))
        elif self.kind == "exponential":
            v = -gnp.sum(t)
            if bool(gnp.any(t < 0)):
                v = v - gnp.inf
        else:
            r = t[1] - 0.7 * t[0] * t[0]
            v = -0.5 * gnp.sum(t * t) + 0.5 * t[1] * t[1] - 0.5 * r * r
        return v + self.shift

    def logp(self, x):
        x = np.asarray(x, dtype=float)
        t = (x - self.loc) / self.scale
        if self.kind == "normal":
            v = -0.5 * np.sum(t * t)
        elif self.kind == "correlated":
            v = -0.5 * (x - self.loc) @ self.prec @ (x - self.loc)
        elif self.kind == "student":
            v = -3.0 * np.sum(np.log1p(t * t / 5.0))
        elif self.kind == "logistic":
            v = -np.sum(t + 2 * np.logaddexp(0, -t))
        elif self.kind == "exponential":
            v = -np.sum(t) if np.all(t >= 0) else -np.inf
        else:
            v = -0.5 * np.sum(t * t) + 0.5 * t[1] ** 2 - 0.5 * (t[1] - 0.7 * t[0] ** 2) ** 2
        return float(v) + self.shift

    def gradU(self, x):
        t = (x - self.loc) / self.scale
        if self.kind == "normal":
            g = t
        elif self.kind == "correlated":
            return self.prec @ (x - self.loc)
        elif self.kind == "student":
            g = 6.0 * t / 5.0 / (1 + t * t / 5.0)
        elif self.kind == "logistic":
            g = np.tanh(t / 2)
        elif self.kind == "exponential":
            g = np.ones_like(t)
        else:
            r = t[1] - 0.7 * t[0] ** 2
            g = t.copy()
            g[1] = r
            g[0] = t[0] - 1.4 * t[0] * r
        return g / self.scale

    def draw(self, rng, n):
        z = rng.standard_normal((n, self.dim))
        if self.kind == "correlated":
            return self.loc + z @ self.chol.T
        if self.kind == "student":
            z = rng.standard_t(5, (n, self.dim))
        elif self.kind == "logistic":
            z = rng.logistic(size=(n, self.dim))
        elif self.kind == "exponential":
            z = rng.exponential(size=(n, self.dim))
        elif self.kind == "banana":
            z[:, 1] += 0.7 * z[:, 0] ** 2
        return self.loc + self.scale * z

    def pit(self, x):
        x = np.atleast_2d(x)
        t = (x - self.loc) / self.scale
        if self.kind == "correlated":
            return st.norm.cdf(np.linalg.solve(self.chol, (x - self.loc).T).T)
        if self.kind == "student":
            return st.t.cdf(t, 5)
        if self.kind == "logistic":
            return st.logistic.cdf(t)
        if self.kind == "exponential":
            return st.expon.cdf(t)
        if self.kind == "banana":
            t = t.copy()
            t[:, 1] -= 0.7 * t[:, 0] ** 2
        return st.norm.cdf(t)


@contextlib.contextmanager
def momenta():
    """Record what the library's normal generator returns."""
    drawn = []
    orig = gnp.randn

    def randn(*shape):
        r = orig(*shape)
        drawn.append(to_np(r).copy())
        return r

    gnp.randn = randn
    try:
        yield drawn
    finally:
        gnp.randn = orig


def limits(ctx, a, nlf, depth, div, max_depth):
    ctx.check(0.0 <= a <= 1.0 + 1e-12, "accept-statistic-range", f"{a}")
    ctx.check(0 <= depth <= max_depth, "depth-limit", f"{depth} > {max_depth}")
    ctx.check(nlf <= 2**depth - 1, "leapfrog-limit", f"{nlf} steps at depth {depth}")
    if depth > 0:
        # all doublings but the last are complete
        ctx.check(nlf >= 2 ** (depth - 1), "leapfrog-count", f"{nlf} steps at depth {depth}")


def step_for(rng, tg, mass):
    """From tiny steps to steps near the stability limit."""
    w = np.min(tg.scale * np.sqrt(mass))
    if tg.kind == "correlated":
        w = 1 / math.sqrt(np.linalg.eigvalsh(tg.prec / np.sqrt(np.outer(mass, mass))).max())
    return float(w * rng.choice([0.15, 0.5, 1.0, 1.5, 1.8, 1.9]))


def trajectory(tg, q, p, eps, im, n):
    """Leapfrog states {index: (position, momentum, energy)} on both sides of the start."""
    out = {0: (q.copy(), p.copy(), -tg.logp(q) + 0.5 * np.sum(p * p * im))}
    for s in (1, -1):
        qc, pc = q.copy(), p.copy()
        for k in range(1, n):
            ph = pc - 0.5 * s * eps * tg.gradU(qc)
            qc = qc + s * eps * ph * im
            lp = tg.logp(qc)
            if not np.isfinite(lp):
                out[s * k] = (qc.copy(), pc.copy(), np.inf)
                break
            pc = ph - 0.5 * s * eps * tg.gradU(qc)
            out[s * k] = (qc.copy(), pc.copy(), -lp + 0.5 * np.sum(pc * pc * im))
    return out


class Unsure(Exception):
    """The replay depends on a comparison too close to call."""


def uturn(traj, a, b, im):
    """Has the stretch between indices a < b turned back?"""
    dq = traj[b][0] - traj[a][0]
    v = [float(np.sum(dq * im * traj[k][1])) for k in (a, b)]
    scale = float(np.sqrt(np.sum(dq**2) * max(np.sum((im * traj[k][1]) ** 2) for k in (a, b)))) + 1e-300
    if min(abs(x) for x in v) < 1e-5 * scale:
        raise Unsure
    return min(v) < 0


def subtree(traj, first, v, depth, im, dmax, used):
    """Indices of a subtree built from ``first`` in direction v; (last index, goes on)."""
    if depth == 0:
        used.append(first)
        e = traj[first][2] - traj[0][2]
        if np.isfinite(e) and abs(e - dmax) < 1e-3 * dmax:
            raise Unsure
        if e > dmax - 40 and np.isfinite(e) and e < dmax:
            raise Unsure  # the slice variable, not observed here, would matter
        return first, bool(np.isfinite(e) and e < dmax)
    last, go = subtree(traj, first, v, depth - 1, im, dmax, used)
    if not go:
        return last, False
    last, go = subtree(traj, last + v, v, depth - 1, im, dmax, used)
    return last, go and not uturn(traj, min(first, last), max(first, last), im)


def replay(traj, order, max_depth, im, dmax):
    """Deterministic part of one transition, directions taken from the order of the visits.

    Returns (states used, depth, [states of each doubling kept], directions).
    """
    lo = hi = 0
    used, kept, dirs, depth, go = [], [[0]], [], 0, True
    while go and depth < max_depth:
        new = [k for k in order if k < lo or k > hi]
        if not new:
            return used, depth, kept, dirs, "no further state was visited though the tree had to grow"
        v = 1 if new[0] > 0 else -1
        dirs.append(v)
        mine = []
        last, s2 = subtree(traj, hi + 1 if v == 1 else lo - 1, v, depth, im, dmax, mine)
        used += mine
        if v == 1:
            hi = max(hi, max(mine))
        else:
            lo = min(lo, min(mine))
        depth += 1
        if s2:
            kept.append(mine)
            go = not uturn(traj, lo, hi, im)
        else:
            go = False
    return used, depth, kept, dirs, None


def selection_law(kept, dH, progressive):
    """Probability of each state under a slice level Exp(1) below the starting energy."""
    states = [k for grp in kept for k in grp]
    prob = dict.fromkeys(states, 0.0)
    cuts = sorted({0.0} | {max(0.0, dH[k]) for k in states})
    for i, lo in enumerate(cuts):
        w = math.exp(-lo) - (math.exp(-cuts[i + 1]) if i + 1 < len(cuts) else 0.0)
        valid = [[k for k in grp if dH[k] <= lo] for grp in kept]
        if progressive:
            n, sel = len(valid[0]), {k: 1.0 / len(valid[0]) for k in valid[0]}
            for grp in valid[1:]:
                if grp:
                    p = min(1.0, len(grp) / n)
                    sel = {k: s * (1 - p) for k, s in sel.items()}
                    sel.update({k: p / len(grp) for k in grp})
                    n += len(grp)
        else:
            allv = [k for grp in valid for k in grp]
            sel = {k: 1.0 / len(allv) for k in allv}
        for k, s in sel.items():
            prob[k] += w * s
    return prob


SCORES = {
    "energy": lambda k, e, m, w: math.exp(-max(0.0, e)),
    "moved": lambda k, e, m, w: float(k != 0),
    "low energy": lambda k, e, m, w: float(e < 0),
    "high energy": lambda k, e, m, w: float(e > 1.0),
    "worse sibling": lambda k, e, m, w: float(k in w),
    "distance": lambda k, e, m, w: abs(k) / m,
}


@REG.scenario(quick=28)
def trajectories(ctx):
    """Each transition follows the Hamiltonian trajectory of the momentum drawn, stops by the U-turn
    rule and selects a state with probabilities that leave the target invariant."""
    rng = ctx.rng
    d = int(rng.integers(1, 4))
    tg = Density(rng, d)
    mass = np.exp(rng.uniform(-1, 1, d)) if rng.random() < 0.7 else np.ones(d)
    replayed(ctx, tg, mass, step_for(rng, tg, mass), int(rng.choice([0, 1, 2, 3, 4, 5])), 80)


@REG.scenario(quick=12)
def rough_trajectories(ctx):
    """Steps near the stability limit, where leaves of one subtree differ in energy."""
    rng = ctx.rng
    d = int(rng.integers(1, 4))
    tg = Density(rng, d, kind="normal")
    mass = 1.0 / tg.scale**2
    replayed(ctx, tg, mass, float(rng.choice([1.3, 1.5, 1.7])), int(rng.choice([2, 3])), 220)


def replayed(ctx, tg, mass, eps, max_depth, reps):
    rng, d, dmax = ctx.rng, tg.dim, 1000.0
    ctx.note(kind=tg.kind, dim=d, eps=eps, max_depth=max_depth, mass=mass)
    ctx.state(tg.kind, d, max_depth)
    im = gnp.asarray(1.0 / mass)
    q = tg.draw(rng, 1)[0]
    gnp.set_seed(int(rng.integers(2**31)))
    tol = 1e-6 * tg.scale.max()
    sums = {(s, n): np.zeros(3) for s in (False, True) for n in SCORES}
    for rep in range(reps):
        tg.visited, tg.log = [], True
        q0 = gnp.asarray(q)
        with momenta() as drawn:
            qn, a, nlf, depth, div = nuts.nuts_transition(tg.native, q0, eps, im, max_depth, dmax)
        tg.log = False
        qn = to_np(qn)
        ctx.equal(to_np(q0), q, "start-modified")
        ctx.shape(qn, (d,), "state-shape")
        limits(ctx, a, nlf, depth, div, max_depth)
        ctx.check(tg.logp(qn) > -np.inf, "zero-density-entered", f"{qn}")
        if len(drawn) != 1 or drawn[0].size != d:
            q = qn
            continue
        p0 = drawn[0].ravel() * np.sqrt(mass)
        traj = trajectory(tg, q, p0, eps, 1.0 / mass, 2**max_depth)
        q = qn
        pts = np.array(tg.visited).reshape(-1, d)
        # identification is by position: skip trajectories that come back on themselves
        qs = np.array([traj[k][0] for k in sorted(traj)])
        if not np.isfinite(qs).all():
            continue
        D = np.max(np.abs(qs[:, None, :] - qs[None, :, :]), axis=2) + 1e9 * np.eye(len(qs))
        if len(qs) > 1 and D.min() < 100 * tol * (1 + 2**max_depth):
            continue
        first = {}
        for k in traj:
            hit = np.flatnonzero(np.all(np.abs(pts - traj[k][0]) <= tol * (1 + abs(k)), axis=1))
            if len(hit):
                first[k] = int(hit[0])
        order = [k for k in sorted(first, key=first.get) if k != 0]
        ctx.count("transitions replayed", 1)
        ctx.check(len(order) == nlf, "gradient-steps", f"{nlf} reported, {len(order)} states visited")
        here = [k for k in [0] + order if np.max(np.abs(traj[k][0] - qn)) <= tol * (1 + abs(k))]
        ctx.check(len(here) == 1, "not-a-trajectory-state", f"{qn}")
        h0 = traj[0][2]
        fin = [k for k in order if np.isfinite(traj[k][2])]
        if len(fin) == len(order):
            want = float(np.mean([math.exp(min(0.0, h0 - traj[k][2])) for k in order])) if order else 0.0
            ctx.close(a, want, "accept-statistic", rtol=1e-4, atol=1e-5)
        worst = max([traj[k][2] - h0 for k in order], default=-np.inf)
        if abs(worst - dmax) > 1e-3 * dmax:
            ctx.check(bool(div) == (worst > dmax), "divergence-flag", f"{div}, energy error {worst}")
        try:
            used, wdepth, kept, dirs, problem = replay(traj, order, max_depth, 1.0 / mass, dmax)
        except (Unsure, KeyError):
            continue
        ctx.check(problem is None, "stopped-too-early", str(problem))
        ctx.check(depth == wdepth and sorted(used) == sorted(order), "stopping-rule",
                  f"depth {depth}, states {sorted(order)}; the rule gives {wdepth}, {sorted(used)}")
        if dirs:
            ctx.record("direction", np.array([sum(dirs), len(dirs)]))
        members = [k for grp in kept for k in grp]
        if len(here) == 1:
            ctx.check(here[0] in members, "selected-outside-tree", f"{here[0]} not in {sorted(members)}")
        if len(here) == 1 and len(members) > 1 and here[0] in members:
            dH = {k: traj[k][2] - h0 for k in members}
            m = max(abs(k) for k in members)
            # the higher of two neighbouring leaves whose energies differ
            w = set()
            for grp in kept[1:]:
                for i in range(0, len(grp) - 1, 2):
                    a2, b2 = grp[i], grp[i + 1]
                    if abs(dH[a2] - dH[b2]) > 0.4 and max(dH[a2], dH[b2]) > 0.4:
                        w.add(a2 if dH[a2] > dH[b2] else b2)
            for prog in (False, True):
                law = selection_law(kept, dH, prog)
                for name, f in SCORES.items():
                    e = sum(p * f(k, dH[k], m, w) for k, p in law.items())
                    v = sum(p * (f(k, dH[k], m, w) - e) ** 2 for k, p in law.items())
                    sums[prog, name] += [f(here[0], dH[here[0]], m, w) - e, v, 1]
    for (prog, name), v in sums.items():
        ctx.record(f"selection {'progressive' if prog else 'uniform'} {name}", v)


def pairs(u):
    """Zero-mean functions whose pairwise differences are tested."""
    return dict(first=u - 0.5, second=(u - 0.5) ** 2 - 1 / 12, third=np.abs(u - 0.5) ** 4 - 1 / 80)


@REG.scenario(quick=14)
def invariance(ctx):
    rng = ctx.rng
    d = int(rng.integers(1, 3))
    tg = Density(rng, d)
    mass = np.exp(rng.uniform(-1, 1, d)) if rng.random() < 0.7 else np.ones(d)
    eps = step_for(rng, tg, mass) if rng.random() < 0.3 else float(np.min(tg.scale * np.sqrt(mass)) * rng.choice([1.2, 1.6, 1.9]))
    max_depth = int(rng.choice([1, 2, 3, 4]))
    n = 450 if ctx.tier == "quick" else 1200
    ctx.note(kind=tg.kind, dim=d, eps=eps, max_depth=max_depth, mass=mass)
    ctx.state(tg.kind, d, max_depth)
    im = gnp.asarray(1.0 / mass)
    gnp.set_seed(int(rng.integers(2**31)))
    x0 = tg.draw(rng, n)
    x1 = np.empty_like(x0)
    dmax = 1000.0
    moved = 0
    for i in range(n):
        q, a, nlf, depth, div = nuts.nuts_transition(tg.native, gnp.asarray(x0[i]), eps, im, max_depth, dmax)
        x1[i] = to_np(q)
        limits(ctx, a, nlf, depth, div, max_depth)
        moved += bool(np.any(x1[i] != x0[i]))
    ctx.count("moves", moved)
    ctx.check(np.all([tg.logp(v) > -np.inf for v in x1]), "zero-density-entered")
    u0, u1 = tg.pit(x0), tg.pit(x1)
    for j in range(d):
        ctx.check(stats.ks_uniform(u1[:, j]) > stats.ALPHA, "target-not-invariant", f"{tg.kind} coordinate {j}")
        f0, f1 = pairs(u0[:, j]), pairs(u1[:, j])
        for name in f0:
            dd = f1[name] - f0[name]
            ctx.record(f"pair {name}", np.array([dd.sum(), (dd**2).sum(), n]))
            if moved > 30:
                z = dd.sum() / math.sqrt((dd**2).sum() + 1e-300)
                ctx.check(abs(z) < 7.0, "drift-from-target", f"{tg.kind} coordinate {j} {name}: z={z:.1f}")
    # log-density: small under an uncorrected integrator
    e0, e1 = np.array([tg.logp(v) for v in x0]), np.array([tg.logp(v) for v in x1])
    dd = np.clip(np.tanh((e1 - tg.shift) / d) - np.tanh((e0 - tg.shift) / d), -1, 1)
    ctx.record("pair energy", np.array([dd.sum(), (dd**2).sum(), n]))


@REG.scenario(quick=9, thorough=36)
def deep_invariance(ctx):
    """Many transitions of the standard normal law at large step sizes, where errors show."""
    rng = ctx.rng
    d = 1 + ctx.case % 2
    eps = [1.2, 1.6, 1.9][(ctx.case // 2) % 3]
    md = int(rng.choice([1, 2, 3]))
    n = (6000 if ctx.backend == "numpy" else 1200) * (1 if ctx.tier == "quick" else 3)
    ctx.note(dim=d, eps=eps, max_depth=md)
    ctx.state(d, eps, md)
    if ctx.backend == "numpy":
        lp = lambda q: -0.5 * float(q @ q)
    else:
        lp = lambda q: -0.5 * (q @ q)
    gnp.set_seed(int(rng.integers(2**31)))
    im = gnp.ones(d)
    x0 = rng.standard_normal((n, d))
    x1 = np.array([to_np(nuts.nuts_transition(lp, gnp.asarray(x), eps, im, md, 1000.0)[0]) for x in x0])
    ctx.count("moves", int(np.sum(np.any(x1 != x0, axis=1))))
    e0, e1 = (x0**2).sum(axis=1), (x1**2).sum(axis=1)
    u0, u1 = st.chi2.cdf(e0, d), st.chi2.cdf(e1, d)
    for name, dd in [("energy", u1 - u0), ("energy tails", (u1 - 0.5) ** 2 - (u0 - 0.5) ** 2), ("radius", np.sqrt(e1) - np.sqrt(e0))]:
        z = dd.sum() / math.sqrt((dd**2).sum() + 1e-300)
        ctx.check(abs(z) < 7.0, "drift-from-target", f"{name}: z={z:.1f} over {n} transitions")
        ctx.record(f"deep {d} {eps} {name}", np.array([dd.sum(), (dd**2).sum(), n]))
    for j in range(d):
        ctx.check(stats.ks_normal(x1[:, j]) > stats.ALPHA, "target-not-invariant", f"coordinate {j}")


@REG.offline_check
def pooled(records, meta):
    """Evidence too weak in one case, pooled over all cases."""
    out, n = [], 0
    for b, recs in records.items():
        tot = {}
        for (scen, case), vals in recs.items():
            for name, v in vals:
                if name.split()[0] in ("pair", "deep", "selection", "direction"):
                    n += 1
                    tot[name] = tot.get(name, 0) + v
        wrong = {"uniform": [], "progressive": []}
        for name, v in sorted(tot.items()):
            if name == "direction":
                t, bound = stats.freedman([v[0] / 2], [v[1] / 4])
                if t > bound:
                    out.append(offline_violation(meta, "trajectories", "direction-bias", f"{int(v[1])} doublings, sum of directions {v[0]}", backend=b))
            elif name.startswith("selection"):
                t, bound = stats.freedman([v[0]], [v[1]])
                if t > bound:
                    wrong[name.split()[1]].append(f"{name}: off by {v[0]:.1f} over {int(v[2])} transitions, bound {bound:.1f}")
            else:
                z = v[0] / math.sqrt(v[1] + 1e-300)
                if v[2] > 1000 and abs(z) > 6.5:
                    out.append(offline_violation(meta, "invariance", "pooled-drift", f"{name}: z={z:.1f} over {int(v[2])} transitions", backend=b))
        # two valid selection rules are known; the transitions must follow one of them
        if all(wrong.values()):
            out.append(offline_violation(meta, "trajectories", "selection-law", "; ".join(wrong["uniform"]), backend=b))
    return n, out


@contextlib.contextmanager
def transitions():
    """Record the step size and mass of every transition of a run."""
    events = []
    orig = nuts.nuts_transition

    def spy(*args, **kw):
        names = ["log_prob", "q0", "step_size", "inv_mass_diag", "max_depth", "delta_max"]
        bound = dict(zip(names, args))
        bound.update(kw)
        start = to_np(bound["q0"]).copy()
        out = orig(*args, **kw)
        events.append(
            (
                as_float(bound["step_size"]),
                to_np(bound["inv_mass_diag"]).copy(),
                to_np(out[0]).copy(),
                out[1:],
                start,
            )
        )
        return out

    nuts.nuts_transition = spy
    try:
        yield events
    finally:
        nuts.nuts_transition = orig


def run(tg, q0, n, **kw):
    kw.setdefault("progress", False)
    with silent():
        s, info = nuts.nuts_sample(tg.native, gnp.asarray(q0), n, **kw)
    return to_np(s), {k: to_np(v) for k, v in info.items()}


@REG.scenario(quick=12)
def full_runs(ctx):
    rng = ctx.rng
    d, C = int(rng.integers(1, 4)), int(rng.choice([1, 2, 3]))
    tg = Density(rng, d)
    W, N = int(rng.choice([0, 1, 12, 30, 60])), int(rng.choice([1, 5, 25]))
    max_depth = int(rng.choice([2, 4, 10]))
    seed = int(rng.integers(2**31))
    kw = dict(num_warmup=W, max_depth=max_depth, seed=seed, verbose=int(rng.integers(3)), log_every=int(rng.choice([1, 50])),
              target_accept=float(rng.choice([0.6, 0.8, 0.9])), progress=bool(rng.random() < 0.2))
    if rng.random() < 0.4:
        kw["init_step_size"] = float(0.3 * tg.scale.min())
    m0 = None
    if rng.random() < 0.4:
        m0 = np.exp(rng.uniform(-1, 1, d))
        kw["init_mass_diag"] = gnp.asarray(m0)
    q0 = tg.draw(rng, C)
    qarg = gnp.asarray(q0.copy())
    ctx.note(kind=tg.kind, dim=d, chains=C, warmup=W, samples=N, max_depth=max_depth)
    ctx.state(tg.kind, d, C, W, N)
    with transitions() as ev:
        S, info = run(tg, qarg, N, **kw)
    ctx.equal(to_np(qarg), q0, "start-modified")
    if m0 is not None:
        ctx.equal(to_np(kw["init_mass_diag"]), m0, "mass-modified")
    ctx.shape(S, (N, C, d), "samples-shape")
    for k in ("accept_stat", "divergent", "tree_depth", "n_leapfrog", "log_prob_trace"):
        ctx.shape(info[k], (N, C), k + "-shape")
    for k in ("accept_stat", "divergent", "tree_depth", "n_leapfrog", "log_prob_trace"):
        ctx.shape(info["warmup_" + k], (W, C), "warmup_" + k + "-shape")
    ctx.shape(info["warmup_step_size"], (W,), "warmup-steps-shape")
    ctx.check(as_float(info["step_size_final"]) > 0 and np.all(info["mass_diag_final"] > 0), "final-adaptation-positive")
    want = np.array([[tg.logp(S[t, c]) for c in range(C)] for t in range(N)])
    ctx.close(info["log_prob_trace"], want, "log-density-trace", rtol=1e-9, atol=1e-9)
    ctx.check(np.all(np.isfinite(want)), "zero-density-entered")
    for pre, m in (("", N), ("warmup_", W)):
        for t in range(m):
            for c in range(C):
                limits(ctx, float(info[pre + "accept_stat"][t, c]), int(info[pre + "n_leapfrog"][t, c]),
                       int(info[pre + "tree_depth"][t, c]), bool(info[pre + "divergent"][t, c]), max_depth)
    if len(ev) == (W + N) * C:
        ctx.count("runs with transition log", 1)
        eps = np.array([e[0] for e in ev]).reshape(W + N, C)
        im = np.array([e[1] for e in ev]).reshape(W + N, C, d)
        qs = np.array([e[2] for e in ev]).reshape(W + N, C, d)
        ctx.close(eps[W:], np.full((N, C), as_float(info["step_size_final"])), "step-adapts-after-warmup", rtol=1e-12)
        ctx.close(im[W:], np.broadcast_to(1 / info["mass_diag_final"], (N, C, d)), "mass-adapts-after-warmup", rtol=1e-12)
        ctx.close(eps[:W], np.repeat(info["warmup_step_size"].reshape(-1, 1), C, axis=1), "warmup-step-trace", rtol=1e-12)
        ctx.equal(qs[W:], S, "samples-are-transitions")
        # the mass of each window end comes from the states of that window
        for lo, hi in nuts.make_warmup_windows(W):
            if hi < W + N:
                var = qs[lo:hi].reshape(-1, d)
                var = np.maximum(var.var(axis=0, ddof=1) if len(var) > 1 else np.ones(d), 1e-4)
                now = im[hi, 0]
                ok = np.allclose(now * var, 1.0, rtol=1e-6) or np.allclose(now, var, rtol=1e-6)
                ctx.check(ok, "mass-window", f"window [{lo},{hi}): variances {var}, inverse mass {now}")
        starts = np.array([e[4] for e in ev]).reshape(W + N, C, d)
        ctx.equal(starts[0], q0, "first-start")
        ctx.equal(starts[1:], qs[:-1], "chain-continues-elsewhere")
        ctx.close(info["warmup_log_prob_trace"], np.array([[tg.logp(v) for v in r] for r in qs[:W]]).reshape(W, C),
                  "warmup-log-density-trace", rtol=1e-9, atol=1e-9)
        for pre, o in (("", W), ("warmup_", 0)):
            for t in range(len(info[pre + "accept_stat"])):
                for c in range(C):
                    a, nlf, dep, div = ev[(o + t) * C + c][3]
                    ctx.check(
                        float(info[pre + "accept_stat"][t, c]) == float(a)
                        and int(info[pre + "n_leapfrog"][t, c]) == int(nlf)
                        and int(info[pre + "tree_depth"][t, c]) == int(dep)
                        and bool(info[pre + "divergent"][t, c]) == bool(div),
                        "diagnostics-of-transition", f"{pre} step {t} chain {c}")
    # the same seed and start reproduce the run, whatever happened in between
    gnp.randn(int(rng.integers(1, 50)))
    tail = {k: v for k, v in kw.items() if k not in ("verbose", "progress", "log_every")}
    if rng.random() < 0.5:
        opts = nuts.NUTSOptions(**tail, verbose=0, progress=False)
        before = dict(vars(opts))
        S2, info2 = run(tg, qarg, N, options=opts)
        ctx.check(all(vars(opts)[k] is before[k] for k in before), "options-modified")
    else:
        S2, info2 = run(tg, qarg, N, verbose=0, **tail)
    ctx.equal(S2, S, "not-reproducible")
    for k in info:
        ctx.equal(info2[k], info[k], "diagnostics-not-reproducible", msg=k)
    S3, _ = run(tg, qarg, N, verbose=0, **dict(tail, seed=seed + 1))
    if len(np.unique(S[:, :, 0])) > 4:
        ctx.check(not np.array_equal(S3, S), "seed-ignored")


@REG.scenario(quick=4, thorough=20)
def long_runs(ctx):
    """Many short chains from exact draws through the sampling driver; step-size adaptation."""
    rng = ctx.rng
    d, C = int(rng.integers(1, 3)), 400
    tg = Density(rng, d, kind=str(rng.choice(["normal", "logistic", "correlated"])))
    ctx.note(kind=tg.kind, dim=d)
    ctx.state(tg.kind, d)
    q0 = tg.draw(rng, C)
    S, info = run(tg, q0, 3, num_warmup=0, max_depth=3, init_step_size=float(tg.scale.min()), seed=int(rng.integers(2**31)), verbose=0)
    for t in range(3):
        u = tg.pit(S[t])
        for j in range(d):
            ctx.check(stats.ks_uniform(u[:, j]) > stats.ALPHA, "run-not-invariant", f"{tg.kind} coordinate {j} step {t}")
    tgt = float(rng.choice([0.6, 0.8, 0.9]))
    S, info = run(tg, q0[:2], 120, num_warmup=160, max_depth=6, target_accept=tgt, seed=int(rng.integers(2**31)), verbose=0)
    ctx.check(np.all(np.isfinite(info["log_prob_trace"])), "zero-density-entered")
    acc = float(info["accept_stat"].mean())
    ctx.check(abs(acc - tgt) < 0.33, "step-size-adaptation", f"mean acceptance {acc:.2f} for target {tgt}")


@REG.scenario(quick=16)
def adaptation_parts(ctx):
    """Dual averaging, running variances and warm-up windows against their definitions."""
    rng = ctx.rng
    d = int(rng.integers(1, 4))
    ctx.state(d)
    # dual averaging (Hoffman & Gelman, Algorithm 5)
    mu, e0 = float(rng.normal()), float(rng.normal())
    g, t0, kap, tgt = float(rng.choice([0.05, 0.3])), float(rng.choice([10.0, 3.0])), float(rng.choice([0.75, 0.6])), float(rng.uniform(0.5, 0.95))
    da = nuts.DualAveragingState(mu=mu, log_eps=e0, log_eps_bar=e0, h_bar=0.0, t=0)
    hb, eb = 0.0, e0
    for t in range(1, 30):
        a = float(rng.random())
        got = da.update(a, target=tgt, gamma=g, t0=t0, kappa=kap)
        hb = (1 - 1 / (t + t0)) * hb + (tgt - a) / (t + t0)
        le = mu - math.sqrt(t) / g * hb
        eb = t**-kap * le + (1 - t**-kap) * eb
        ctx.close(math.log(float(got)), le, "dual-averaging-step", rtol=1e-9, atol=1e-9)
        ctx.close(math.log(float(da.final())), eb, "dual-averaging-average", rtol=1e-9, atol=1e-9)
    rv = nuts.RunningDiagVar(d)
    xs = rng.standard_normal((int(rng.integers(1, 40)), d)) * 10 ** rng.uniform(-2, 2) + 10 ** rng.uniform(0, 3)
    k = int(rng.integers(0, len(xs) + 1))
    rv.update_batch(gnp.asarray(xs[:k]))
    for row in xs[k:]:
        rv.update_one(gnp.asarray(row))
    want = xs.var(axis=0, ddof=1) if len(xs) > 1 else np.ones(d)
    ctx.close(to_np(rv.var()), want, "running-variance", rtol=1e-6, atol=1e-9 * np.abs(xs).max() ** 2)
    for _ in range(6):
        W = int(rng.integers(0, 400))
        wins = nuts.make_warmup_windows(W)
        if W <= 20:
            ctx.check(wins == [], "short-warmup-windows", f"{W}: {wins}")
            continue
        ctx.check(len(wins) > 0 and all(0 <= a < b <= W for a, b in wins), "window-range", f"{W}: {wins}")
        ctx.check(all(wins[i][1] == wins[i + 1][0] for i in range(len(wins) - 1)), "windows-contiguous", f"{wins}")
        ctx.check(wins[0][0] >= 1 and wins[-1][1] <= W - 1, "window-buffers", f"{W}: {wins}")
        if W >= 150:
            ctx.check(wins[0][0] == 75 and wins[-1][1] == W - 50, "large-warmup-buffers", f"{W}: {wins}")
    tg = Density(rng, d)
    mass = np.exp(rng.uniform(-1, 1, d))
    eps = nuts.find_reasonable_step_size(tg.native, gnp.asarray(tg.draw(rng, 1)[0]), gnp.asarray(1 / mass))
    ctx.check(np.isfinite(eps) and 1e-7 < eps < 1e3, "initial-step-size", f"{eps}")
    # leapfrog is reversible and second order
    q, p = tg.draw(rng, 1)[0], rng.standard_normal(d) * np.sqrt(mass)
    im, h = gnp.asarray(1 / mass), 0.05 * float(np.min(tg.scale * np.sqrt(mass)))
    U, gr = nuts.potential_and_grad(tg.native, gnp.asarray(q))
    ctx.close(float(U), -tg.logp(q), "potential", rtol=1e-9, atol=1e-9)
    inside = tg.kind != "exponential" or np.min((q - tg.loc) / tg.scale) > 1e-3
    if inside:
        ctx.close(to_np(gr), tg.gradU(q), "potential-gradient", rtol=1e-4, atol=1e-5)
    q1, p1, U1, g1 = nuts.leapfrog(tg.native, gnp.asarray(q), gnp.asarray(p), gr, h, im)
    if np.isfinite(float(U1)) and inside:
        ph = p - 0.5 * h * tg.gradU(q)
        qw = q + h * ph / mass
        ctx.close(to_np(q1), qw, "leapfrog-position", rtol=1e-5, atol=1e-6)
        ctx.close(float(U1), -tg.logp(to_np(q1)), "leapfrog-potential", rtol=1e-8, atol=1e-8)
        q2, p2, _, _ = nuts.leapfrog(tg.native, q1, -p1, g1, h, im)
        ctx.close(to_np(q2), q, "leapfrog-reversible", rtol=1e-7, atol=1e-7)
        ctx.close(-to_np(p2), p, "leapfrog-reversible-momentum", rtol=1e-6, atol=1e-6)


@REG.scenario(quick=8)
def hostile_densities(ctx):
    """Starts of zero density, NaN regions and steps far beyond stability are survived."""
    rng = ctx.rng
    d = int(rng.integers(1, 3))
    what = str(rng.choice(["zero-start", "nan-region", "huge-step", "tiny-support"]))
    ctx.note(what=what, dim=d)
    ctx.state(what, d)
    gnp.set_seed(int(rng.integers(2**31)))
    im = gnp.ones(d)

    def lp(q):
        v = -0.5 * gnp.sum(q * q)
        if what == "nan-region" and bool(gnp.any(q > 1.0)):
            v = v * gnp.nan
        if what == "tiny-support" and bool(gnp.any(gnp.abs(q) > 1e-3)):
            v = v - gnp.inf
        if what == "zero-start" and bool(gnp.any(q < 0)):
            v = v - gnp.inf
        return v

    q = -np.ones(d) if what == "zero-start" else np.zeros(d) + 1e-4
    eps = 50.0 if what == "huge-step" else 0.7
    for i in range(25):
        qn, a, nlf, depth, div = nuts.nuts_transition(lp, gnp.asarray(q), eps, im, 5, 1000.0)
        qn = to_np(qn)
        limits(ctx, a, nlf, depth, div, 5)
        ctx.check(np.all(np.isfinite(qn)), "state-not-finite")
        if what == "nan-region":
            ctx.check(np.all(qn <= 1.0), "nan-density-entered", f"{qn}")
        if what == "tiny-support":
            ctx.check(np.all(np.abs(qn) <= 1e-3), "zero-density-entered", f"{qn}")
        if what == "zero-start":
            ctx.equal(qn, q, "moved-within-zero-density")
        q = qn
    ctx.raises(lambda: run(Density(rng, d, "normal"), np.zeros(d), 3, num_warmup=2, verbose=0), "one-dimensional-start", ValueError)
    ctx.raises(lambda: run(Density(rng, d, "normal"), np.zeros((1, d)), 3, num_warmup=2, verbose=0, init_mass_diag=gnp.ones(d + 1)),
               "mass-shape", ValueError)
