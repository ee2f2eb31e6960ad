"""Case contexts, keyed monitors and the scenario registry."""

import hashlib
import math
import os
import traceback
import zlib

import numpy as np

MAX_VIOLATIONS_PER_KEY = 3


class Scenario:
    def __init__(self, name, func, quick, thorough, backends):
        self.name = name
        self.func = func
        self.quick = quick
        self.thorough = thorough
        self.backends = backends

    def count(self, tier):
        return self.thorough if tier == "thorough" else self.quick


class Registry:
    """Scenarios of one property, in declaration order."""

    def __init__(self, prop, rule, assumptions=(), level="exploration", more=1):
        self.prop = prop
        self.more = more  # multiplies the case counts of every scenario
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level
        self.scenarios = []
        # offline monitor over the records of both backends (or None)
        self.offline = None

    def scenario(self, quick, thorough=None, backends=("numpy", "torch")):
        def deco(func):
            self.scenarios.append(
                Scenario(func.__name__, func, self.more * quick,
                         self.more * (thorough or (6 if self.more == 1 else 4) * quick), backends)
            )
            return func

        return deco

    def offline_check(self, func):
        self.offline = func
        return func


def offline_violation(meta, scenario, key, message, case=0, backend="both", info=None):
    """A violation found by an offline monitor, in the form the runner reports."""
    return dict(
        property=meta["prop"],
        scenario=scenario,
        case=case,
        backend=backend,
        seed=meta["seed"],
        tier=meta["tier"],
        key=key,
        mech=f"{scenario}/{key}",
        message=message,
        info=info or {},
    )


class Stop(Exception):
    """Abandon the rest of a case after a violation that makes it meaningless."""


def to_np(v):
    """Plain NumPy copy of any array-like the library returns."""
    if v is None:
        return None
    if hasattr(v, "detach"):
        v = v.detach().cpu().numpy()
    return np.array(v)


def as_float(v):
    a = to_np(v)
    if a.size != 1:
        raise ValueError(f"scalar expected, got shape {a.shape}")
    return float(a.reshape(()))


class Stats:
    """What the monitors of one worker observed."""

    def __init__(self):
        self.monitors = {}
        self.states = set()
        self.digests = {}
        self.cases = 0
        self.cases_nontrivial = 0
        self.per_scenario = {}
        self.samples = []
        self.violations = []
        self.viol_counts = {}
        self.records = []
        self.counters = {}
        self.undecided = {}

    def as_dict(self):
        return dict(
            monitors=self.monitors,
            states=sorted(self.states),
            digests=sorted(self.digests),
            cases=self.cases,
            per_scenario=self.per_scenario,
            samples=self.samples,
            violations=self.violations,
            viol_counts=self.viol_counts,
            counters=self.counters,
            undecided=self.undecided,
        )


class Ctx:
    """One case: its random stream and its monitors."""

    def __init__(self, reg, scen, case, seed, tier, backend, stats):
        self.reg = reg
        self.scenario = scen.name
        self.case = case
        self.seed = seed
        self.tier = tier
        self.backend = backend
        self.stats = stats
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(reg.prop.encode()), zlib.crc32(scen.name.encode()), case]
        )
        self.evals = 0
        self.info = {}
        self._h = hashlib.blake2b(digest_size=8)
        self._h.update(scen.name.encode())
        self.failed = False

    # -- observation -------------------------------------------------------
    def observe(self, *values):
        for v in values:
            try:
                a = to_np(v)
                if a.dtype == object:
                    raise TypeError
                self._h.update(np.ascontiguousarray(a).tobytes())
            except Exception:
                self._h.update(repr(v).encode())

    def note(self, **kw):
        """Describe the case (appears in samples and in violation reports)."""
        self.info.update(kw)

    def state(self, *sig):
        """Record a distinct abstract state reached by the execution."""
        self.stats.states.add(f"{self.scenario}:{sig!r}")

    def count(self, name, n=1):
        self.stats.counters[name] = self.stats.counters.get(name, 0) + int(n)

    def record(self, name, value):
        """Event for the offline monitor that compares the two backends."""
        if value is not None and not isinstance(value, str):
            value = to_np(value)
        self.stats.records.append((self.scenario, self.case, name, value))
        self.evals += 1
        self.observe(value)
        k = f"{self.scenario}/record"
        self.stats.monitors[k] = self.stats.monitors.get(k, 0) + 1

    # -- monitors ----------------------------------------------------------
    def _tick(self, key):
        self.evals += 1
        k = f"{self.scenario}/{key}"
        self.stats.monitors[k] = self.stats.monitors.get(k, 0) + 1

    def violate(self, key, msg, mech=None):
        self.failed = True
        k = f"{self.scenario}/{key}"
        n = self.stats.viol_counts.get(k, 0)
        self.stats.viol_counts[k] = n + 1
        if n < MAX_VIOLATIONS_PER_KEY:
            self.stats.violations.append(
                dict(
                    property=self.reg.prop,
                    scenario=self.scenario,
                    case=self.case,
                    backend=self.backend,
                    seed=self.seed,
                    tier=self.tier,
                    key=key,
                    mech=mech or k,
                    message=str(msg)[:2000],
                    info={a: repr(b)[:400] for a, b in self.info.items()},
                )
            )

    def check(self, ok, key, msg="", mech=None):
        self._tick(key)
        ok = bool(ok)
        if not ok:
            self.violate(key, msg() if callable(msg) else msg, mech)
        return ok

    def require(self, ok, key, msg="", mech=None):
        if not self.check(ok, key, msg, mech):
            raise Stop()

    def shape(self, a, shape, key):
        got = tuple(np.shape(to_np(a))) if a is not None else None
        return self.check(got == tuple(shape), key, f"shape {got}, expected {tuple(shape)}")

    def close(self, got, want, key, rtol=1e-8, atol=0.0, scale=None, msg="", mech=None):
        """|got - want| <= atol + rtol * scale, scale = max |want| by default."""
        self._tick(key)
        g = to_np(got)
        w = to_np(want)
        self.observe(g)
        if g is None or w is None:
            self.violate(key, f"missing value: got {got!r}, expected {want!r} {msg}", mech)
            return False
        if g.shape != w.shape:
            self.violate(key, f"shape {g.shape}, expected {w.shape} {msg}", mech)
            return False
        if g.dtype.kind not in "fiub" or w.dtype.kind not in "fiub":
            ok = bool(np.array_equal(g, w))
            if not ok:
                self.violate(key, f"got {g!r}, expected {w!r} {msg}", mech)
            return ok
        g = g.astype(np.float64)
        w = w.astype(np.float64)
        fin = np.isfinite(w)
        same_special = bool(
            np.array_equal(np.isnan(g), np.isnan(w))
            and np.array_equal(g[~fin & ~np.isnan(w)], w[~fin & ~np.isnan(w)])
        )
        err = np.abs(g - w)[fin] if g.size else np.zeros(0)
        if scale is None:
            s = float(np.max(np.abs(w[fin]))) if np.any(fin) else 0.0
        else:
            s = float(np.max(np.abs(to_np(scale))))
        tol = atol + rtol * s
        worst = float(np.max(err)) if err.size else 0.0
        ok = same_special and (worst <= tol)  # NaN compares false
        if not ok:
            self.violate(
                key,
                f"max error {worst:.3e} > {tol:.3e}; got {_short(g)}, expected {_short(w)} {msg}",
                mech,
            )
        return ok

    def equal(self, got, want, key, msg=""):
        return self.close(got, want, key, rtol=0.0, atol=0.0, msg=msg)

    def raises(self, func, key, exc=Exception, msg=""):
        """The call must be refused."""
        self._tick(key)
        try:
            r = func()
        except exc:
            return True
        self.violate(key, f"no error raised, returned {r!r} {msg}")
        return False


def _short(a):
    s = np.array2string(np.asarray(a).reshape(-1)[:6], precision=12)
    return s + ("..." if np.size(a) > 6 else "")


def run_case(reg, scen, case, seed, tier, backend, stats):
    ctx = Ctx(reg, scen, case, seed, tier, backend, stats)
    try:
        scen.func(ctx)
    except Stop:
        pass
    except MemoryError:
        raise
    except BaseException as exc:  # noqa: BLE001 - verdict on any failure
        if isinstance(exc, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(exc.__traceback__)
        where = [
            f"{os.path.relpath(f.filename, '/repo')}:{f.name}"
            for f in tb
            if "/repo/gpmp/" in f.filename
        ]
        own = [f.filename for f in tb if f"{os.sep}gpverif{os.sep}" in f.filename]
        if not where and own and own[-1].endswith(("ref.py", "gen.py")):
            # no library code involved: the oracle cannot judge this case (see run_check.py)
            stats.undecided[scen.name] = stats.undecided.get(scen.name, 0) + 1
        ctx._tick("completes")
        ctx.violate(
            "completes",
            f"{type(exc).__name__}: {exc} at {where[-1] if where else tb[-1]}"
            + "\n"
            + "".join(traceback.format_exception(exc)[-6:]),
            mech=f"{scen.name}/exception:{type(exc).__name__}:{where[-1] if where else 'oracle' if own and own[-1].endswith(('ref.py', 'gen.py')) else 'harness'}",
        )
    stats.cases += 1
    ps = stats.per_scenario.setdefault(scen.name, [0, 0])
    ps[0] += 1
    ps[1] += ctx.evals
    if ctx.evals:
        stats.digests[ctx._h.hexdigest()] = 1
    if len([s for s in stats.samples if s["scenario"] == scen.name]) < 1 and ctx.info:
        stats.samples.append(
            dict(
                scenario=scen.name,
                case=case,
                backend=backend,
                monitors_evaluated=ctx.evals,
                **{k: repr(v)[:200] for k, v in ctx.info.items()},
            )
        )
    return ctx


def tol_for(cond, base=1e-8, mult=1e4):
    """Relative tolerance for a computation with condition number `cond`."""
    return base + mult * np.finfo(float).eps * float(cond)


def isclose_f(a, b, rtol=1e-9, atol=0.0):
    return math.isclose(float(a), float(b), rel_tol=rtol, abs_tol=atol)
