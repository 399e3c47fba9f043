"""C06: a body declared fixed never moves, spins up or drifts, whatever hits it, hangs on it or fails around it."""
import numpy as np

from sim import faults as F
from sim import rigid as R
from sim.core import check, digest

CASES = {"quick": 300, "thorough": 9000}
SIG_RULE = "distinct (stabilisation/bounce switches, contacts on fixed bodies, hinges on fixed bodies, operation kinds)"
SHRINK = ("ops",)
REAL = "rigid API and complete stepping pipeline"
STUB = "the client (generated operation history), failing library calls"


def gen(rng, tier):
    world = R.gen_world(rng.fork("w"), n=rng.choice([2, 3, 4]), hinges=rng.chance(0.5), params={
        "resolution": 8, "max_iterations": rng.choice([4, 10]), "use_post_stabilization": rng.chance(0.6),
        "use_pre_stabilization": rng.chance(0.5), "use_bounce": rng.chance(0.5),
        "min_gap_value": rng.choice([0.001, 0.0001, 0.02])})
    for b in world["bodies"]:
        if rng.chance(0.45):
            b["fixed"] = True
        b["forces"] = [f["name"] for f in world["forces"]]
    ops = []
    for _ in range(rng.choice([3, 5, 8])):
        k = rng.choice(["step"] * 4 + ["toggle", "fault", "place", "multi"])
        op = {"op": k, "b": rng.randrange(4), "prof": rng.chance(0.3)}
        if k == "fault":
            op["point"] = F.gen_point(rng)
        if k == "place":
            op["r"] = rng.vec(-0.4, 0.4, 4)
        ops.append(op)
    return {"world": R.elsewhere(rng, world), "ops": ops}


def run(case, ctx):
    API, _ = R.mods()
    e = R.build(case["world"])
    names = list(e.bodies)
    faulter = F.Faulter()
    fixed = {b["name"]: bool(b.get("fixed")) for b in case["world"]["bodies"]}
    on_fixed = False
    for op in case["ops"]:
        k, n = op["op"], names[op["b"] % len(names)]
        before = R.snap(e)
        if k in ("step", "multi", "fault"):
            dt = e.params.time_step * (3 if k == "multi" else 1)
            if k == "fault":
                if faulter.run(lambda: API.simulate(e, dt, op["prof"]), op["point"]):
                    ctx.fault("call-failure")
            else:
                API.simulate(e, dt, op["prof"])
            after = R.snap(e)
            for m in names:
                check(API.is_fixed_body(e, m) == fixed[m], "type-changed", "%s changed its type by itself" % m)
                if fixed[m]:
                    check(all(np.array_equal(x, y) for x, y in zip(before[m], after[m])), "fixed-body-changed",
                          lambda: "%s: %s" % (m, R.diff_snap({m: before[m]}, {m: after[m]})))
            on_fixed = on_fixed or any(fixed[a] or fixed[b] for a, b, *_ in R.contacts(e))
            # bodies that are free must not be frozen by it
            for m in names:
                if not fixed[m] and k == "step":
                    moved = not np.array_equal(before[m][0], after[m][0]) or not np.array_equal(before[m][1], after[m][1])
                    speed = np.abs(after[m][2]).max() + np.abs(after[m][3]).max()
                    check(moved or speed < 1e-9, "free-body-frozen", "%s has velocity %s but did not move" % (m, after[m][2:]))
            ctx.sim_time += dt
        elif k == "toggle":
            fixed[n] = not fixed[n]
            API.set_body_type(e, n, "fixed" if fixed[n] else "free")
            check(R.same_snap(before, R.snap(e)), "type-change-moves", "changing the type of %s moved something" % n)
        elif k == "place":
            other = names[(op["b"] + 1) % len(names)]
            API.set_position(e, n, e.bodies[other].r + np.array(op["r"]))
        ctx.event(k, n, digest(R.snap(e)))
    p = e.params
    ctx.sig(p.use_bounce, p.use_pre_stabilization, p.use_post_stabilization, on_fixed,
            any(fixed[h["parent"]] or fixed[h["child"]] for h in case["world"]["hinges"]), sorted({o["op"] for o in case["ops"]}), len(names))
