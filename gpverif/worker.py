"""Run one shard of a property's cases on one backend."""

import importlib
import json
import os
import pickle
import random
import signal
import sys
import warnings

CPU_LIMIT_PER_CASE = float(os.environ.get("GPVERIF_CASE_CPU", "200"))


class CaseTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout(f"case still running after {CPU_LIMIT_PER_CASE:.0f} s of CPU time")


def main():
    spec = json.loads(sys.argv[1])
    backend = spec["backend"]
    assert os.environ["GPMP_BACKEND"] == backend
    # the harness must observe warnings, not die of them
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import gpmp

    if not os.path.realpath(gpmp.__file__).startswith("/repo/"):
        print(f"gpmp imported from {gpmp.__file__}", file=sys.stderr)
        return 3
    import gpmp.num as gnp

    if gnp._gpmp_backend_ != backend:
        print(f"backend is {gnp._gpmp_backend_}, wanted {backend}", file=sys.stderr)
        return 3
    from gpverif.core import Stats, run_case

    mod = importlib.import_module(f"gpverif.checks.{spec['property'].lower()}")
    reg = mod.REG
    stats = Stats()
    signal.signal(signal.SIGPROF, _on_alarm)
    todo = []
    for scen in reg.scenarios:
        if backend not in scen.backends:
            continue
        if spec.get("scenario"):
            if scen.name == spec["scenario"]:
                todo.append((scen, spec["case"]))
            continue
        for i in range(scen.count(spec["tier"])):
            todo.append((scen, i))
    if not spec.get("scenario"):
        todo = todo[spec["shard"] :: spec["nshards"]]
    for scen, i in todo:
        # any library-global stream a case touches starts from a known state
        s = (spec["seed"] * 1000003 + i * 7919 + len(scen.name)) % (2**31)
        np.random.seed(s)
        random.seed(s)
        if backend == "torch":
            import torch

            torch.manual_seed(s)
        gnp.set_seed(s)
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_PER_CASE)
        run_case(reg, scen, i, spec["seed"], spec["tier"], backend, stats)
        signal.setitimer(signal.ITIMER_PROF, 0)
    with open(spec["out"], "wb") as f:
        pickle.dump(dict(stats=stats.as_dict(), records=stats.records), f)
    return 0


if __name__ == "__main__":
    sys.exit(main())
