"""Decide one property: run its monitored workloads and judge what was observed.

    run_check.py PROPERTY             the whole check (VERIF_SEED, VERIF_TIER)
    run_check.py PROPERTY --replay F  re-run the single case recorded in F
    run_check.py --selftest           can the framework be imported?
"""

import importlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
KNOWN = os.path.join(HERE, "known_findings.txt")
SHARDS = 4
WORKER_TIMEOUT = {"quick": 840, "thorough": 860}


def worker_env(backend, scratch):
    env = dict(os.environ)
    env.update(
        PYTHONPATH="/repo:" + HERE,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        GPMP_BACKEND=backend,
        GPMP_LOG_LEVEL="ERROR",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        GPVERIF_SCRATCH=scratch,
    )
    env.pop("GPMP_DTYPE", None)
    return env


def load_known():
    """Mechanisms of known, unfixed findings: {(property, mechanism): text}."""
    known = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if not line.startswith("known: "):
                    continue
                fields = line[len("known: ") :].strip().split(" | ")
                prop = fields[0].split("property=")[1].strip()
                mech = fields[1].split("mechanism=")[1].strip()
                known[(prop, mech)] = fields[2].strip()
    return known


def run_workers(specs, scratch, tier):
    procs = []
    for k, spec in enumerate(specs):
        spec["out"] = os.path.join(scratch, f"out{k}.pkl")
        log = open(os.path.join(scratch, f"log{k}.txt"), "wb")
        p = subprocess.Popen(
            [PY, "-m", "gpverif.worker", json.dumps(spec)],
            cwd=scratch,
            env=worker_env(spec["backend"], scratch),
            stdin=subprocess.DEVNULL,
            stdout=log,
            stderr=subprocess.STDOUT,
        )
        procs.append((p, log, spec))
    deadline = time.time() + WORKER_TIMEOUT[tier]
    results, failures = [], []
    for k, (p, log, spec) in enumerate(procs):
        try:
            rc = p.wait(timeout=max(1.0, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        log.close()
        if rc == 0 and os.path.exists(spec["out"]):
            with open(spec["out"], "rb") as f:
                results.append((spec, pickle.load(f)))
        else:
            with open(os.path.join(scratch, f"log{k}.txt"), "rb") as f:
                tail = f.read()[-3000:].decode(errors="replace")
            failures.append(f"worker {spec['backend']}/{spec.get('shard')} ended {rc}:\n{tail}")
    return results, failures


def main(argv):
    if argv == ["--selftest"]:
        sys.path.insert(0, HERE)
        with open(os.path.join(HERE, "MANIFEST.json")) as f:
            man = json.load(f)
        for c in man["checks"]:
            assert os.path.exists(
                os.path.join(HERE, "gpverif", "checks", c["property"].lower() + ".py")
            )
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or "0") % (2**31)
    only = None
    if len(argv) == 3 and argv[1] == "--replay":
        with open(argv[2]) as f:
            only = json.load(f)
        tier, seed = only["tier"], only["seed"]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"gpverif-{prop}-")
    try:
        return decide(prop, tier, seed, only, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, only, scratch, t0):
    sys.path.insert(0, HERE)
    specs = []
    for backend in ("numpy", "torch"):
        base = dict(property=prop, backend=backend, tier=tier, seed=seed)
        if only:
            if only.get("backend") in (backend, "both"):
                specs.append(dict(base, scenario=only["scenario"], case=only["case"]))
        else:
            specs += [dict(base, shard=s, nshards=SHARDS) for s in range(SHARDS)]
    results, failures = run_workers(specs, scratch, tier)
    if failures:
        print("\n".join(failures), file=sys.stderr)
        if not results:
            return 2

    mon, states, digests, per, viol, vcount = {}, set(), set(), {}, [], {}
    samples, counters, cases, undecided = [], {}, 0, 0
    records = {"numpy": {}, "torch": {}}
    for spec, res in results:
        s = res["stats"]
        b = spec["backend"]
        cases += s["cases"]
        for k, n in s["monitors"].items():
            mon[k] = mon.get(k, 0) + n
        states.update(s["states"])
        digests.update(f"{b}:{d}" for d in s["digests"])
        for k, (c, e) in s["per_scenario"].items():
            a = per.setdefault(k, [0, 0])
            a[0] += c
            a[1] += e
        for k, n in s["counters"].items():
            counters[k] = counters.get(k, 0) + n
        viol += s["violations"]
        undecided += sum(s["undecided"].values())
        for k, n in s["viol_counts"].items():
            vcount[k] = vcount.get(k, 0) + n
        samples += s["samples"]
        for scen, case, name, value in res["records"]:
            records[b].setdefault((scen, case), []).append((name, value))

    # subprocess-free import of the check module: only its offline monitor and text
    os.environ.update(worker_env("numpy", scratch))
    sys.path.insert(0, "/repo")
    sys.dont_write_bytecode = True
    meta = None
    mpath = os.path.join(HERE, "gpverif", "checks", prop.lower() + ".py")
    if any(records.values()) or True:
        import warnings

        warnings.simplefilter("ignore")
        mod = importlib.import_module(f"gpverif.checks.{prop.lower()}")
        meta = mod.REG
    if meta.offline is not None:
        n, ov = meta.offline(records, dict(prop=prop, seed=seed, tier=tier))
        mon["offline/compared"] = n
        viol += ov

    # cases the oracle itself could not judge; more than a few would hide something
    if undecided <= max(1, cases // 500):
        viol = [v for v in viol if not v["mech"].endswith(":oracle")]

    known = load_known()
    unknown, seen_known = [], {}
    for v in viol:
        if (prop, v["mech"]) in known:
            seen_known.setdefault(v["mech"], known[(prop, v["mech"])])
        else:
            unknown.append(v)
    for mech, text in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {text}")

    # one reported violation per mechanism
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    shown = set()
    for v in unknown:
        if v["mech"] in shown:
            continue
        shown.add(v["mech"])
        path = os.path.join(rdir, f"{prop}-{len(shown)}.json")
        if not only:
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['backend']} {v['scenario']}[{v['case']}] {v['key']}: {v['message']}")

    for k in sorted(mon):
        print(f"  monitor {k}: {mon[k]} events")
    print(
        f"{prop} {tier} seed={seed}: {cases} cases, {sum(mon.values())} monitor events, "
        f"{len(digests)} distinct executions, {len(states)} abstract states, "
        f"{time.time() - t0:.1f} s"
    )
    if not only:
        ev = dict(
            property=prop,
            tier=tier,
            seed=seed,
            level=meta.level,
            coverage=dict(
                evaluations=cases,
                distinct_nontrivial=len(digests),
                rule=meta.rule
                + " A case counts when at least one monitor judged it; two cases are"
                " distinct when the values the monitors observed differ.",
                samples=samples[:12],
                monitor_events=mon,
                distinct_states=len(states),
                state_samples=sorted(states)[:20],
                counters=counters,
                undecided_cases=undecided,
                cases_per_scenario={k: v[0] for k, v in per.items()},
            ),
            assumptions=meta.assumptions,
            violations=len(unknown),
            wall_s=round(time.time() - t0, 2),
        )
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if unknown:
        return 1
    if failures:
        return 2
    idle = [k for k, v in per.items() if v[1] == 0]
    missing = [s.name for s in meta.scenarios if s.name not in per] if not only else []
    if idle or missing:
        print(f"scenarios whose monitors observed nothing: {idle + missing}", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
