"""C03: a simulation is a function of its setup: profiling, clocks, global random state, hash seeds, garbage and the
scheduling of other threads never influence what the bodies do."""
import gc
import json
import os
import subprocess
import sys

import numpy as np

from sim import boot
from sim import faults as F
from sim import rigid as R
from sim.core import Rng, check, digest

CASES = {"quick": 180, "thorough": 4000}
SIG_RULE = "distinct (environment variant, contacts present, hinges present, post-stabilisation on) combinations times final state digests"
SHRINK = ("variants",)
REAL = "rigid API and complete stepping pipeline, profiling, timers"
STUB = "clocks (time, perf_counter, datetime), global random generators, hash seed (in child processes)"
VARIANTS = ["profiling", "clock-frozen", "clock-jumpy", "clock-coarse", "rng", "gc", "printoptions", "hashseed", "profiling+jumpy"]


def gen(rng, tier):
    world = R.gen_world(rng.fork("w"), hinges=rng.chance(0.35), params={
        "max_iterations": rng.choice([5, 12]), "resolution": 8, "use_post_stabilization": rng.chance(0.4),
        "use_pre_stabilization": rng.chance(0.4), "use_bounce": rng.chance(0.4)})
    vs = [v for v in VARIANTS if v != "hashseed"]
    k = rng.choice([2, 3])
    variants = rng.sample(vs, k)
    if rng.chance(0.08 if tier == "quick" else 0.03):
        variants.append("hashseed")
    return {"world": world, "steps": rng.choice([2, 3, 5]), "variants": variants, "seed": rng.randrange(1 << 30)}


def trajectory(spec, steps, prof=False, shake=None):
    API, _ = R.mods()
    e = R.build(spec)
    out = []
    for i in range(steps):
        if shake is not None:
            shake(i)
        API.simulate(e, e.params.time_step, prof)
        out.append((R.snap(e), R.contacts(e)))
    return e, out


def run(case, ctx):
    spec, steps = case["world"], case["steps"]
    np.random.seed(1)
    e, base = trajectory(spec, steps)
    dbase = [digest(s) for s in base]
    ctx.event("base", dbase)
    ctx.sim_time += steps * e.params.time_step * (1 + len(case["variants"]))
    for j, v in enumerate(case["variants"]):
        rng = Rng("variant", case["seed"], j)
        if v == "hashseed":
            out = subprocess.run([boot.VENV_PY if os.path.exists(boot.VENV_PY) else sys.executable, "-B", "-W", "ignore",
                                  "-m", "sim.props.c03"], input=json.dumps({"world": spec, "steps": steps}),
                                 env=boot.env(hashseed=str(rng.randrange(1, 1 << 31))), cwd=boot.VERIF,
                                 capture_output=True, text=True, timeout=100)
            lines = [l for l in out.stdout.splitlines() if l.startswith("DIGESTS ")]
            if not lines:
                raise RuntimeError("child failed: " + out.stderr[-400:])
            got = json.loads(lines[0][8:])
            ctx.fault("hash-seed")
        elif v.startswith("clock") or v == "profiling+jumpy":
            clock = F.SimClock(rng, "jumpy" if "+" in v else v.split("-")[1])
            with F.clock_seam(clock):
                _, t = trajectory(spec, steps, prof="+" in v)
            got = [digest(s) for s in t]
            ctx.fault("clock:" + clock.mode)
        elif v == "rng":
            import random

            def shake(i):
                np.random.seed(rng.randrange(1 << 31))
                random.seed(rng.random())
            _, t = trajectory(spec, steps, shake=shake)
            got = [digest(s) for s in t]
            ctx.fault("random-state")
        elif v == "gc":
            junk = []

            def shake(i):
                junk.append([bytearray(rng.randrange(1, 5000)) for _ in range(50)])
                gc.collect()
            _, t = trajectory(spec, steps, shake=shake)
            got = [digest(s) for s in t]
            ctx.fault("memory-layout")
        elif v == "printoptions":
            old = np.get_printoptions()
            np.set_printoptions(precision=2, suppress=True, threshold=3)
            try:
                _, t = trajectory(spec, steps, prof=True)
            finally:
                np.set_printoptions(**old)
            got = [digest(s) for s in t]
            ctx.fault("print-options")
        else:
            _, t = trajectory(spec, steps, prof=True)
            got = [digest(s) for s in t]
        check(got == dbase, "environment-changes-result:" + v,
              lambda: "with variant %s the trajectory differs from step %d on" % (
                  v, next(i for i in range(steps) if got[i] != dbase[i])))
        ctx.sig(v, bool(e.contact_points), bool(e.hinges), e.params.use_post_stabilization, dbase[-1])
        ctx.event("variant", v)


if __name__ == "__main__":
    boot.ensure()
    req = json.load(sys.stdin)
    print("DIGESTS " + json.dumps([digest(s) for s in trajectory(req["world"], req["steps"])[1]]))
