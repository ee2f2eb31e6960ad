"""C16: parameter containers keep names, paths, scales and values aligned.

A list-of-records model executes the same random operation history; the whole observable state is
compared with the container after every operation.
"""

import math

import numpy as np

import gpmp.num as gnp
from gpmp.parameter import (
    Normalization,
    Param,
    make_anisotropic_param,
    param_from_covparam_anisotropic,
    param_from_covparam_anisotropic_noisy,
)

from ..core import Registry, to_np

REG = Registry(
    "C16",
    rule="one evaluation = one field of the container compared with the model after one operation of a history",
    more=20,
)

NORMS = ["log", "log_inv", "none"]
PATHS = [["covparam", "variance"], ["covparam", "lengthscale"], ["meanparam"], ["a"], ["a", "b"], ["a", "b", "c"], ["ab"]]


def nat(v, norm):
    return math.exp(v) if norm == "log" else math.exp(-v) if norm == "log_inv" else v


def raw(u, norm):
    return math.log(u) if norm == "log" else -math.log(u) if norm == "log_inv" else u


class Rec:
    def __init__(self, v, name, path, norm, bound):
        self.v, self.name, self.path, self.norm, self.bound = v, name, path, norm, bound

    def copy(self):
        return Rec(self.v, self.name, list(self.path), self.norm, self.bound)


def bound_for(rng, v, norm):
    """Bounds in natural values; kept away from the value so that rounding cannot matter."""
    if rng.random() < 0.3:
        return None
    if norm == "none" and rng.random() < 0.3:  # bounds belong to the interval
        return (v, v + float(rng.choice([0.0, 1.0]))) if rng.random() < 0.5 else (v - 1.0, v)
    lo, hi = sorted(float(nat(t, norm)) for t in v + rng.choice([-3.0, -1.0, -0.5, 0.5, 1.0, 3.0], 2))
    return (lo, hi)


def fresh(rng, count, n=None):
    n = int(rng.integers(0, 6)) if n is None else n
    recs = []
    for i in range(n):
        norm = str(rng.choice(NORMS))
        v = float(np.round(rng.uniform(-3, 3), 3) * (200.0 if rng.random() < 0.05 else 1.0))
        name = f"p{count[0]}" if rng.random() < 0.9 else "dup"
        if recs and rng.random() < 0.08:
            name = recs[-1].name.swapcase()
        count[0] += 1
        recs.append(Rec(v, name, list(PATHS[int(rng.integers(len(PATHS)))]), norm, bound_for(rng, v, norm)))
    return recs


def container(rng, recs):
    vals = [r.v for r in recs]
    kind = int(rng.integers(3))
    values = vals if kind == 0 else gnp.asarray(np.array(vals)) if kind == 1 else tuple(vals)
    if not vals:
        values = gnp.asarray(np.zeros(0))
    norms = [
        r.norm if rng.random() < 0.5 else Normalization(r.norm) if rng.random() < 0.5 else r.norm.upper()
        for r in recs
    ]
    return Param(
        values=values,
        paths=[list(r.path) for r in recs],
        normalizations=norms,
        names=[r.name for r in recs],
        bounds=[r.bound for r in recs],
    )


def compare(ctx, p, recs, tag):
    """Every observable field of the container against the model."""
    n = len(recs)
    ctx.require(p.dim == n, tag + "dim", f"{p.dim} of {n}")
    ctx.check(list(p.names) == [r.name for r in recs], tag + "names", f"{p.names}")
    ctx.check([list(x) for x in p.paths] == [r.path for r in recs], tag + "paths", f"{p.paths}")
    ctx.check([x.value for x in p.normalizations] == [r.norm for r in recs], tag + "normalizations", f"{p.normalizations}")
    ctx.check([b if b is None else tuple(b) for b in p.bounds] == [r.bound for r in recs], tag + "bounds", f"{p.bounds}")
    ctx.close(p.values, np.array([r.v for r in recs]), tag + "values", rtol=1e-13, scale=10.0)
    un = np.array([nat(r.v, r.norm) for r in recs])
    size = np.abs(un) + (un == 0)
    ctx.close(to_np(p.denormalized_values) / size, un / size, tag + "natural", rtol=1e-12, scale=1.0)
    ok = [True if r.bound is None else r.bound[0] <= nat(r.v, r.norm) <= r.bound[1] for r in recs]
    near = any(
        r.bound is not None and r.norm != "none" and min(abs(nat(r.v, r.norm) - b) for b in r.bound) < 1e-9 * abs(nat(r.v, r.norm)) for r in recs
    )
    if not near:
        ctx.check([bool(b) for b in p.check_bounds()] == ok, tag + "check-bounds", f"{p.check_bounds()} expected {ok}")


def match(recs, path, prefix):
    return [i for i, r in enumerate(recs) if (r.path[: len(path)] == path if prefix else r.path == path)]


OPS = [
    "set_name", "set_name", "get_name", "view_name", "set_path", "set_prefix", "get_path", "view_path", "natural_one",
    "natural_all", "values", "slice", "index", "add", "concat", "dict", "repr", "queries", "restore", "other",
]


@REG.scenario(quick=250)
def histories(ctx):
    rng = ctx.rng
    count = [0]
    recs = fresh(rng, count, int(rng.integers(1, 6)))
    p = container(rng, recs)
    others = []  # containers left behind by slicing and concatenation must not follow later writes
    ctx.note(n=len(recs), norms=[r.norm for r in recs], paths=[r.path for r in recs])
    compare(ctx, p, recs, "new-")
    ops = []
    for _ in range(int(rng.integers(4, 16))):
        op = str(rng.choice(OPS))
        n = len(recs)
        ops.append(op)
        ctx.note(ops=list(ops))
        new = float(np.round(rng.uniform(-3, 3), 3))
        i = int(rng.integers(0, n)) if n else None
        first = [r.name for r in recs].index(recs[i].name) if n else None
        path = list(PATHS[int(rng.integers(len(PATHS)))])
        path = path[: int(rng.integers(1, len(path) + 1))]
        if op == "set_name" and n:
            p.set_by_name(recs[i].name, new)
            recs[first].v = new
        elif op == "get_name" and n:
            ctx.close(p.get_by_name(recs[i].name), recs[first].v, "get-name", rtol=1e-13, scale=10.0)
        elif op == "view_name" and n:
            v = p.get_by_name(recs[i].name, return_view=True)
            ctx.close(v, np.array([recs[first].v]), "view-name", rtol=1e-13, scale=10.0)
            v[0] = new
            recs[first].v = new
        elif op in ("set_path", "set_prefix"):
            pre = op == "set_prefix"
            idx = match(recs, path, pre)
            vals = np.round(rng.uniform(-3, 3, len(idx)), 3)
            arg = vals.tolist() if rng.random() < 0.5 else gnp.asarray(vals.copy())
            if rng.random() < 0.15:
                bad = np.zeros(len(idx) + 1).tolist()
                ctx.raises(lambda: p.set_by_path(path, bad, prefix_match=pre), "wrong-count-refused", ValueError)
            else:
                p.set_by_path(path, arg, prefix_match=pre)
                for k, j in enumerate(idx):
                    recs[j].v = float(vals[k])
        elif op == "get_path":
            pre = bool(rng.random() < 0.5)
            idx = match(recs, path, pre)
            v = p.get_by_path(path, prefix_match=pre)
            ctx.close(v, np.array([recs[j].v for j in idx]), "get-path", rtol=1e-13, scale=10.0)
            if idx:
                v[0] = 77.0  # a copy: the container must not follow
            w = p.select_by_path_prefix(path)
            ctx.close(w, np.array([recs[j].v for j in match(recs, path, True)]), "select-prefix", rtol=1e-13, scale=10.0)
        elif op == "view_path":
            pre = bool(rng.random() < 0.5)
            idx = match(recs, path, pre)
            if idx and idx == list(range(idx[0], idx[0] + len(idx))):
                v = p.get_by_path(path, prefix_match=pre, return_view=True)
                ctx.close(v, np.array([recs[j].v for j in idx]), "view-path", rtol=1e-13, scale=10.0)
                k = int(rng.integers(len(idx)))
                v[k] = new
                recs[idx[k]].v = new
            elif idx:
                ctx.raises(lambda: p.get_by_path(path, prefix_match=pre, return_view=True), "no-scattered-view", ValueError)
        elif op == "natural_one" and n:
            u = float(nat(new, recs[first].norm))
            p.set_from_unnormalized(**{recs[i].name: u})
            recs[first].v = raw(u, recs[first].norm)
        elif op == "natural_all" and n:
            vs = np.round(rng.uniform(-3, 3, n), 3)
            us = [nat(float(v), r.norm) for v, r in zip(vs, recs)]
            p.denormalized_values = us if rng.random() < 0.5 else gnp.asarray(np.array(us))
            for u, r in zip(us, recs):
                r.v = raw(u, r.norm)
            ctx.close(p.denormalized_values, np.array(us), "natural-round-trip", rtol=1e-12, scale=np.abs(us).max())
            ctx.raises(lambda: setattr(p, "denormalized_values", us + [1.0]), "wrong-length-refused", ValueError)
        elif op == "values" and n:
            vs = np.round(rng.uniform(-3, 3, n), 3)
            if rng.random() < 0.3:
                vs = np.rint(vs)
                p.values = [int(v) for v in vs]
            else:
                p.values = gnp.asarray(vs.copy()) if rng.random() < 0.5 else vs.tolist()
            for v, r in zip(vs, recs):
                r.v = float(v)
        elif op == "slice" and n:
            def e():
                return None if rng.random() < 0.4 else int(rng.integers(-n - 1, n + 2))

            sl = slice(e(), e(), None if rng.random() < 0.6 else int(rng.choice([-1, 2, -2])))
            q, qr = p[sl], [r.copy() for r in recs[sl]]
            compare(ctx, q, qr, "slice-")
            others.append((q, qr))
            if rng.random() < 0.4 and qr:
                others.append((p, recs))
                p, recs = q, qr
                others = [o for o in others if o[0] is not p]
        elif op == "index" and n:
            k = int(rng.integers(-n, n))
            q, qr = p[k], [recs[k].copy()]
            compare(ctx, q, qr, "index-")
            others.append((q, qr))
        elif op in ("add", "concat"):
            r2 = fresh(rng, count, int(rng.integers(0, 4)))
            q = container(rng, r2)
            if op == "add":
                s, sr = p + q, [r.copy() for r in recs + r2]
            else:
                r3 = fresh(rng, count, int(rng.integers(0, 3)))
                q3 = container(rng, r3)
                s, sr = Param.concat(q3, p, q), [r.copy() for r in r3 + recs + r2]
            compare(ctx, s, sr, op + "-")
            others.append((p, recs))
            others.append((q, r2))
            p, recs = s, sr
            if len(recs) > 14:
                p, recs = p[:6], [r.copy() for r in recs[:6]]
        elif op == "dict" and n:
            d = p.to_dict()
            s = p.to_simple_dict()
            last = {r.name: r for r in recs}
            ctx.check(set(d) == set(last) == set(s), "dict-names", f"{sorted(d)}")
            for k, r in last.items():
                ctx.close(d[k]["value"], r.v, "dict-value", rtol=1e-13, scale=10.0)
                ctx.close(d[k]["denormalized"], nat(r.v, r.norm), "dict-natural", rtol=1e-12)
                ctx.check(
                    list(d[k]["path"]) == r.path and d[k]["normalization"] == r.norm and d[k]["bounds"] == r.bound,
                    "dict-fields",
                    f"{d[k]}",
                )
                ctx.close(s[k], nat(r.v, r.norm), "simple-dict", rtol=1e-12)
        elif op == "repr" and n:
            lines = repr(p).splitlines()
            ctx.check(len(lines) == n + 1, "repr-rows", f"{len(lines)} lines for {n}")
            for ln, r in zip(lines[1:], recs):
                f = ln.split()
                ctx.check(
                    f[0] == r.name + ":" and f[1] == "->".join(r.path) and f[2] == r.norm, "repr-row", f"{ln}"
                )
        elif op == "queries":
            ctx.check(p.indices_by_path_prefix(path) == match(recs, path, True), "indices-by-prefix", f"{path}")
            ctx.check(
                p.names_by_path_prefix(path) == [recs[j].name for j in match(recs, path, True)], "names-by-prefix", f"{path}"
            )
            ctx.check(
                {tuple(x) for x in p.get_paths()} == {tuple(r.path) for r in recs}, "all-paths", f"{p.get_paths()}"
            )
            ctx.check(
                [list(x) for x in p.get_paths(prefix=path)] == [recs[j].path for j in match(recs, path, True)],
                "paths-by-prefix",
                f"{p.get_paths(prefix=path)}",
            )
            ctx.raises(lambda: p.get_by_name("absent"), "unknown-name", ValueError)
            ctx.raises(lambda: p.set_by_name("absent", 1.0), "unknown-name", ValueError)
        elif op == "restore" and n:
            # read, overwrite, write back what was read
            old = p.get_by_name(recs[i].name)
            olds = p.get_by_path(recs[i].path)
            p.set_by_name(recs[i].name, new)
            p.set_by_path(recs[i].path, [new] * len(match(recs, recs[i].path, False)))
            p.set_by_path(recs[i].path, olds)
            p.set_by_name(recs[i].name, old)
        elif op == "other" and others:
            # write to a container left behind: the current one must not follow
            q, qr = others[int(rng.integers(len(others)))]
            if qr:
                k = int(rng.integers(len(qr)))
                f = [r.name for r in qr].index(qr[k].name)
                q.set_by_name(qr[k].name, new)
                qr[f].v = new
        compare(ctx, p, recs, "")
    for q, qr in others:
        compare(ctx, q, qr, "other-")
    ctx.count("operations", len(ops))
    for o in ops:
        ctx.state(o, len(recs) > 0)
    ctx.state(tuple(ops[:3]))


@REG.scenario(quick=60)
def factories(ctx):
    """Containers built for anisotropic covariance parameters."""
    rng = ctx.rng
    d = int(rng.integers(1, 5))
    noisy = bool(rng.random() < 0.4)
    pre = str(rng.choice(["", "k_"]))
    v = rng.uniform(-3, 3, d + 1 + noisy)
    bs, br, bn = (None if rng.random() < 0.3 else (float(-rng.random()), float(rng.random())) for _ in range(3))
    which = "noisy" if noisy else str(rng.choice(["make", "make-default", "from"]))
    ctx.note(d=d, which=which, prefix=pre)
    ctx.state(which, d, pre)
    arg = v.tolist() if rng.random() < 0.5 else gnp.asarray(v.copy())
    if which == "noisy":
        p = param_from_covparam_anisotropic_noisy(
            arg, logsigma2_bounds=bs, logsigma2_noise_bounds=bn, loginvrho_bounds=br, name_prefix=pre
        )
    elif which == "make":
        p = make_anisotropic_param(values=arg, logsigma2_bounds=bs, loginvrho_bounds=br, name_prefix=pre)
    elif which == "from":
        p = param_from_covparam_anisotropic(arg, logsigma2_bounds=bs, loginvrho_bounds=br, name_prefix=pre)
    else:
        p = make_anisotropic_param(d=d, logsigma2_bounds=bs, loginvrho_bounds=br, name_prefix=pre)
        v = np.array([0.0] + [-1.0] * d)
    recs = [Rec(float(v[0]), pre + "sigma2", ["covparam", "variance"], "log", bs)]
    if noisy:
        recs.append(Rec(float(v[1]), pre + "sigma2_noise", ["covparam", "variance"], "log", bn))
    recs += [Rec(float(t), f"{pre}rho_{i}", ["covparam", "lengthscale"], "log_inv", br) for i, t in enumerate(v[1 + noisy :])]
    compare(ctx, p, recs, which + "-")
    # writing one length scale touches that one only
    k = int(rng.integers(d))
    u = float(np.exp(rng.uniform(-2, 2)))
    p.set_from_unnormalized(**{f"{pre}rho_{k}": u})
    recs[1 + noisy + k].v = -math.log(u)
    compare(ctx, p, recs, which + "-after-")
    if not noisy:
        ctx.raises(lambda: make_anisotropic_param(), "needs-values-or-d", ValueError)


@REG.scenario(quick=60)
def construction(ctx):
    """Defaults and inconsistent constructions."""
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    ctx.note(n=n)
    ctx.state(n)
    p = Param(dim=n, name_prefix="q")
    compare(ctx, p, [Rec(0.0, f"q{i}", ["param"], "none", None) for i in range(n)], "default-")
    ints = [int(t) for t in rng.integers(-3, 4, n)]
    p = Param(ints)
    recs = [Rec(float(t), f"param_{i}", ["param"], "none", None) for i, t in enumerate(ints)]
    compare(ctx, p, recs, "ints-")
    p.set_by_name("param_0", 0.25)
    recs[0].v = 0.25
    compare(ctx, p, recs, "ints-set-")
    compare(ctx, Param(), [], "empty-")
    ctx.raises(lambda: Param([0.0] * n, names=["a"] * (n + 1)), "names-mismatch", ValueError)
    ctx.raises(lambda: Param([0.0] * n, paths=[["a"]] * (n + 1)), "paths-mismatch", ValueError)
    ctx.raises(lambda: Param([0.0] * n, bounds=[None] * (n + 1)), "bounds-mismatch", ValueError)
    ctx.raises(lambda: Param([0.0] * n, normalizations=["log"] * (n + 1)), "norms-mismatch", ValueError)
    ctx.raises(lambda: Param([0.0] * n, normalizations=["logarithmic"] * n), "unknown-norm", ValueError)
