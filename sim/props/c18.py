"""C18: names asked for are never given twice, whatever the clock and the random generator do and however threads interleave, and
they can be used: as names of shapes and bodies of an engine and of primitives of a USD file."""
import random
import re

import numpy as np

from sim import faults as F
from sim import rigid as R
from sim import sched
from sim.core import Rng, check

CASES = {"quick": 1600, "thorough": 40000}
SIG_RULE = "distinct (clock mode, threads, interleaving, failures) per run"
SHRINK = ("ops",)
REAL = "the name generator, the rigid body engine that is filled by name"
STUB = "wall clock (normal, frozen, coarse, jumping ahead and back), state of Python's random generator (re-seeded, restored), thread schedule, failing calls"
ASSUMPTIONS = "threads interleave at calls; base names consist of letters, digits and the separators the generator documents"
BASES = ["body", "brick_shape", "a", "A1", "my body", "v1.2", "left-arm", "c:d", "x_", "gear 1-2", "a_0", "a_0_1", "wall_" * 30, "wall_" * 15]


def gen(rng, tier):
    base = rng.choice(BASES)
    ops = []
    for _ in range(rng.choice([3, 5, 8])):
        k = rng.choice(["names", "names", "names", "reseed", "restore", "clock", "fault", "threads", "bodies"])
        op = {"op": k, "seed": rng.randrange(4), "base": base if rng.chance(0.8) else rng.choice(BASES), "n": rng.choice([1, 2, 5, 20])}
        if k == "clock":
            op["mode"] = rng.choice(["normal", "frozen", "coarse", "jumpy", "back"])
        if k == "fault":
            op["point"] = F.gen_point(rng)
        if k == "threads":
            op.update(n=rng.choice([2, 3, 4]), each=rng.choice([1, 2, 4]), gap=rng.choice([1, 2, 4]), sched=rng.randrange(1 << 30))
        ops.append(op)
    return {"mode": rng.choice(["normal", "frozen", "coarse", "jumpy"]), "ops": ops}


def run(case, ctx):
    API, _ = R.mods()
    clock = F.SimClock(Rng("clock", len(case["ops"])), case["mode"])
    t0 = clock.t
    seen = {}
    e = None
    faulter = F.Faulter()
    keep = random.getstate()
    random.seed(0)
    st = random.getstate()

    def note(name, op, i):
        check(isinstance(name, str) and name not in seen, "name-given-twice", lambda: "%r for base %r in operation %d, first given in operation %s (clock %s)" % (name, op["base"], i, seen.get(name), clock.mode))
        seen[name] = i
        check(re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", name), "name-not-usable-in-USD", lambda: repr(name))
        b = re.sub(r"[^A-Za-z0-9_]", "_", op["base"])
        check(b in name, "name-without-its-base", lambda: "%r does not contain %r" % (name, b))

    try:
        with F.clock_seam(clock):
            for i, op in enumerate(case["ops"]):
                k = op["op"]
                if k == "reseed":
                    random.seed(op["seed"])
                    np.random.seed(op["seed"])
                elif k == "restore":
                    random.setstate(st)
                elif k == "clock":
                    if op["mode"] == "back":
                        clock.t = t0
                        ctx.fault("clock-step-back")
                    else:
                        clock.mode = op["mode"]
                        ctx.fault("clock-" + op["mode"])
                elif k == "fault":
                    out = []
                    if faulter.run(lambda: out.append(API.generate_unique_name(op["base"])), op["point"]):
                        ctx.fault("call-failure")
                    for name in out:
                        note(name, op, i)
                elif k == "threads":
                    s = sched.Scheduler(Rng("sched", op["sched"]), mean_gap=op["gap"])
                    got = s.run([lambda: [API.generate_unique_name(op["base"]) for _ in range(op["each"])] for _ in range(op["n"])])
                    for r, x in got:
                        if x is not None:
                            raise x
                        for name in r:
                            note(name, op, i)
                    ctx.count("thread-switches", s.switches)
                    ctx.sig(clock.mode, op["n"], s.trace)
                elif k == "bodies":
                    e = e or API.create_engine()
                    before = set(e.bodies)
                    new = [API.generate_unique_name(op["base"]) for _ in range(op["n"])]
                    for name in new:
                        note(name, op, i)
                        API.create_rigid_body(e, name)
                    check(set(e.bodies) == before | set(new) and len(e.bodies) == len(before) + op["n"], "body-not-found-by-name", lambda: str(new))
                else:
                    for _ in range(op["n"]):
                        note(API.generate_unique_name(op["base"]), op, i)
                ctx.sig(clock.mode, k, op["n"], op["base"])
                ctx.event(k, len(seen))
    finally:
        random.setstate(keep)
    ctx.count("names", len(seen))
    ctx.sim_time += abs(clock.t - t0)
