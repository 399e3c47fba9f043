#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--seed N] [--n N] [--workers N] [--run I]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot  # noqa

boot.ensure()

if __name__ == "__main__":
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("prop", nargs="?")
    p.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int)
    p.add_argument("--n", type=int)
    p.add_argument("--workers", type=int)
    p.add_argument("--run", type=int, help="execute a single run and print its event log")
    p.add_argument("--selftest", action="store_true", help="check that the framework itself works here")
    a = p.parse_args()
    if a.selftest:
        import numpy, scipy  # noqa
        from sim import core, faults, rigid, runner, sched  # noqa
        assert core.Rng("a", 1).random() == core.Rng("a", 1).random()
        print("framework ready, python %s, numpy %s" % (sys.version.split()[0], numpy.__version__))
        sys.exit(0)
    from sim import runner
    if a.run is not None:
        import json
        mod = runner.load(a.prop)
        if hasattr(mod, "prepare"):
            mod.prepare()
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
        case = runner.make_case(mod, a.prop, seed, a.run, a.tier)
        print(json.dumps(case, indent=1)[:6000])
        r = runner.execute(mod, case, keep_events=True)
        tr = r.pop("trace")
        for e in tr[-60:]:
            print("  ", e)
        print(json.dumps(r, indent=1))
        sys.exit(0)
    sys.exit(runner.check(a.prop, a.tier, seed=a.seed, workers=a.workers, n=a.n))
