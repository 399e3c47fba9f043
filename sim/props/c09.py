"""C09: contacts and joints never create energy: without bounce and stabilisation, no step leaves the bodies with more
kinetic energy than the external forces alone would have."""
import numpy as np

from sim import contactlaw as CL
from sim import faults as F
from sim import jointlaw as JL
from sim import rigid as R
from sim.core import check, digest

CASES = {"quick": 420, "thorough": 12000}
SIG_RULE = "distinct (contacts, hinges, bounce, energy lost class)"
SHRINK = ("ops",)
REAL = "rigid API and complete stepping pipeline"
STUB = "the client (generated operation history), failing library calls"
ASSUMPTIONS = ("worlds with contacts only or joints only (the simulator solves the two separately); contact problems the plain "
               "sweep contracts; fixed bodies at rest")


def gen(rng, tier):
    hinge = rng.chance(0.35)
    bounce = not hinge and rng.chance(0.3)
    params = {"resolution": 8, "max_iterations": 500, "absolute_tolerance": 1e-10, "relative_tolerance": 0.0,
              "too_small_merit_change": 0.0, "nu_reduce": 0.9, "use_bounce": bounce}
    if hinge:
        w = R.gen_world(rng.fork("w"), n=rng.choice([2, 3]), contact=False, params=params, fixed=True)
        names = [b["name"] for b in w["bodies"]]
        for s in w["shapes"]:
            s.update(kind="box", args=[round(rng.uniform(1.3, 1.7), 3) for _ in range(3)])
        for i, b in enumerate(w["bodies"]):
            b["r"] = [2.05 * i, b["r"][1] * 0.3, b["r"][2] * 0.3]
            b["q"] = [1.0, 0.0, 0.0, 0.0]
        for i in range(len(names) - 1):
            a, b = w["bodies"][i], w["bodies"][i + 1]
            o = [0.5 * (x + y) for x, y in zip(a["r"], b["r"])]
            w["hinges"].append({"name": "h%d" % i, "parent": a["name"], "child": b["name"], "origin": o, "axis": rng.unit()})
    else:
        w = R.gen_world(rng.fork("w"), n=rng.choice([2, 3]), params=params, fixed=True)
    for b in w["bodies"]:
        b["density"] = min(max(b["density"], 0.3), 10)
        if b.get("fixed"):
            b["v"], b["w"] = [0, 0, 0], [0, 0, 0]
        if bounce:
            b["forces"] = []
    if bounce:
        for m in w["materials"]:
            m[3] = [0.0, 0.0, 0.0]
            m[2] = min(m[2], 1.0)
        w["materials"] = [m for m in w["materials"]]
    ops = [{"op": "step"} if rng.chance(0.9) else {"op": "fault", "point": F.gen_point(rng)} for _ in range(rng.choice([2, 4, 6]))]
    if hinge:  # a client moves a body a little: the joints have drifted
        for k in range(len(ops), 0, -1):
            if rng.chance(0.3):
                ops.insert(k, {"op": "nudge", "b": rng.choice(w["bodies"])["name"], "rot": rng.vec(-0.15, 0.15, 3), "d": rng.vec(-0.05, 0.05, 3)})
    for op in ops:
        op["f"] = rng.choice([1, 1, 1, 0.5, 0.3])
    return {"world": w, "ops": ops}


def kinetic(rb, vel):
    return sum(0.5 * b.mass * float(np.dot(vel[n][0], vel[n][0])) + 0.5 * float(vel[n][1] @ b.I @ vel[n][1])
               for n, b in rb.items() if not b.fixed)


def run(case, ctx):
    API, _ = R.mods()
    e = R.build(case["world"])
    hm = JL.HingeModel()
    for h in case["world"]["hinges"]:
        hm.set(e, h["name"], h["parent"], h["child"], h["origin"], h["axis"], "world")
    faulter = F.Faulter()
    bounce = e.params.use_bounce
    for op in case["ops"]:
        dt = e.params.time_step * op.get("f", 1)
        if op["op"] == "nudge":
            b = e.bodies[op["b"]]
            API.set_position(e, op["b"], np.array(b.r) + np.array(op["d"]))
            API.set_orientation(e, op["b"], R.q_mul(np.concatenate([[1.0], op["rot"]]), np.array(b.q)))
            continue
        if op["op"] == "fault":
            if faulter.run(lambda: API.simulate(e, dt), op["point"]):
                ctx.fault("call-failure")
            continue
        rb = R.ref_bodies(e)
        pre = R.ref_predict(rb, dt)
        API.simulate(e, dt)
        s = R.snap(e)
        new = {n: (x[2], x[3]) for n, x in s.items()}
        ctx.sim_time += dt
        ctx.event("step", len(e.contact_points), digest(s))
        if e.hinges and e.contact_points:
            continue
        P = CL.StepProblem(rb, pre, e, dt, new)
        if not e.hinges and (P.K == 0 or P.tame(150, 1e-10) is None):
            continue
        if bounce and (P.mu.any() or len(set(P.e)) > 1 or any(np.abs(np.concatenate(b.accel())).max() > 1e-9 for b in rb.values())):
            continue
        k0, k1 = kinetic(rb, pre), kinetic(rb, new)
        if e.hinges and k1 > k0:
            # the joint solver works with a finite number of sweeps: decide only problems that are surely solved
            if JL.JointStep(hm.h, rb, pre, dt, e.params).tame() is None:
                ctx.count("joint-not-converged")
                continue
        check(k1 <= k0 * (1 + 1e-7) + 1e-9, "energy-created", lambda: "kinetic energy %.9g, %.9g without contacts and joints" % (k1, k0))
        ctx.sig(P.K, len(e.hinges), bounce, int(10 * (k0 - k1) / (k0 + 1e-12)))
        ctx.count("steps-decided")

