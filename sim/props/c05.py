"""C05: a body nothing touches moves as its forces say: the step is the documented semi-implicit one, whatever the
history of edits, and neighbours, other bodies' contacts and failures do not leak into it."""
import numpy as np

from sim import faults as F
from sim import rigid as R
from sim.core import check, digest

CASES = {"quick": 500, "thorough": 15000}
SIG_RULE = "distinct (operation kind sequence, force set, whether other bodies were in contact) histories"
SHRINK = ("ops",)
REAL = "rigid API and complete stepping pipeline"
STUB = "the client (generated operation history), failing library calls"
ASSUMPTIONS = "bodies that are part of a contact or hinge are excluded; they are decided by C07-C09 and C12"


def gen(rng, tier):
    mixed = rng.chance(0.4)
    world = R.gen_world(rng.fork("w"), contact=False, n=rng.choice([1, 2, 3]), hinges=False, params={"resolution": 8})
    if mixed:  # add a colliding pair far away
        world["bodies"] += [{"name": "x0", "shape": world["shapes"][0]["name"], "density": 1.0, "r": [0, 50, 0], "forces": []},
                            {"name": "x1", "shape": world["shapes"][0]["name"], "density": 2.0, "r": [0.1, 50.3, 0.05],
                             "q": rng.quat(), "v": [0, -1, 0], "w": rng.vec(), "forces": []}]
        if rng.chance(0.5):
            world["bodies"].insert(0, world["bodies"].pop())
    R.elsewhere(rng, world)
    ops = []
    for _ in range(rng.choice([3, 6, 12])):
        k = rng.choice(["step"] * 5 + ["vel", "spin", "pos", "ori", "mass", "type", "force", "grav", "frac", "fault"])
        op = {"op": k, "b": rng.randrange(8), "prof": rng.chance(0.2)}
        if k in ("vel", "spin"):
            op["x"] = rng.vec(-4, 4, 4)
        if k == "pos":
            op["x"] = rng.vec(-1, 1, 4)
        if k == "ori":
            op["x"] = [x * rng.choice([1, 3]) for x in rng.quat()]
        if k == "mass":
            op["x"] = round(rng.uniform(0.1, 20), 4) * world.get("M", 1.0) / world.get("L", 1.0) ** 3
        if k in ("grav", "force"):
            op["x"] = round(rng.uniform(0.1, 12), 4)
            op["up"] = rng.unit()
        if k == "fault":
            op["point"] = F.gen_point(rng)
        if k == "type":
            op["x"] = rng.choice(["fixed", "free", "FIXED", "Free"])
        if k == "frac":
            op["x"] = round(rng.uniform(0.05, 0.95), 4)
        ops.append(op)
    return {"world": world, "ops": ops}


def run(case, ctx):
    API, _ = R.mods()
    e = R.build(case["world"])
    model = R.Model(e, case["world"])
    names = list(e.bodies)
    free_names = [n for n in names if not n.startswith("x")]
    nf = 0
    faulter = F.Faulter()
    for op in case["ops"]:
        k = op["op"]
        n = free_names[op["b"] % len(free_names)]
        if k in ("step", "frac"):
            dt = e.params.time_step * (op["x"] if k == "frac" else 1.0)
            rb = R.ref_bodies(e, model)
            pre = R.ref_predict(rb, dt)
            want = R.ref_advance(rb, pre, dt)
            API.simulate(e, dt, op["prof"])
            touched = {x for c in R.contacts(e) for x in c[:2]}
            for m in names:
                if m in touched:
                    continue
                b = e.bodies[m]
                sc = 1 + float(np.abs(np.concatenate(pre[m])).max())
                if not sc < 1e6:  # damping that is too stiff for the time step blows up
                    continue
                check(np.abs(b.v - pre[m][0]).max() <= 1e-9 * sc, "wrong-linear-velocity",
                      lambda: "%s: v=%s expected %s" % (m, b.v, pre[m][0]))
                check(np.abs(b.w - pre[m][1]).max() <= 1e-8 * sc, "wrong-spin",
                      lambda: "%s: w=%s expected %s" % (m, b.w, pre[m][1]))
                check(np.abs(b.r - want[m][0]).max() <= 1e-9 * (sc + np.abs(want[m][0]).max()), "wrong-position",
                      lambda: "%s: r=%s expected %s" % (m, b.r, want[m][0]))
                check(R.same_rotation(b.q, want[m][1], 1e-9 * sc), "wrong-orientation",
                      lambda: "%s: q=%s expected %s" % (m, b.q, want[m][1]))
            for m in names:
                check(abs(np.linalg.norm(e.bodies[m].q) - 1) < 1e-9, "orientation-not-unit", m)
            ctx.sim_time += dt
            ctx.event("step", len(touched), digest(R.snap(e)))
            ctx.count("bodies-checked", len(names) - len(touched))
            continue
        if k == "fault":  # a failing step; what it leaves is decided by C01, the next steps start from there
            dt = e.params.time_step
            if faulter.run(lambda: API.simulate(e, dt, op["prof"]), op["point"]):
                ctx.fault("call-failure")
            continue
        others = {m: s for m, s in R.snap(e).items() if m != n}
        b0 = R.snap(e)[n]
        if k == "vel":
            API.set_velocity(e, n, np.array(op["x"]))
        elif k == "spin":
            API.set_spin(e, n, np.array(op["x"]))
        elif k == "pos":
            API.set_position(e, n, e.bodies[n].r + np.array(op["x"]) * 0.5 * case["world"].get("L", 1.0))
        elif k == "ori":
            API.set_orientation(e, n, np.array(op["x"]))
        elif k == "mass":
            API.set_mass_properties(e, n, op["x"])
            model.set_density(n, op["x"])
        elif k == "type":
            API.set_body_type(e, n, op["x"])
            model.b[n]["fixed"] = op["x"].lower() == "fixed"
        elif k == "force":
            nf += 1
            alpha, beta = op["x"] * case["world"].get("M", 1.0), 0.1 * op["x"] * case["world"].get("M", 1.0) * case["world"].get("L", 1.0) ** 2
            API.create_damping_force(e, "nd%d" % nf, alpha, beta)
            API.connect_force(e, n, "nd%d" % nf)
            model.forces["nd%d" % nf] = {"name": "nd%d" % nf, "type": "damping", "alpha": alpha, "beta": beta}
            model.connect(n, "nd%d" % nf)
        elif k == "grav":
            nf += 1
            API.create_gravity_force(e, "ng%d" % nf, op["x"], np.array(op["up"]))
            API.connect_force(e, n, "ng%d" % nf)
            model.forces["ng%d" % nf] = {"name": "ng%d" % nf, "type": "gravity", "g": op["x"], "up": op["up"]}
            model.connect(n, "ng%d" % nf)
        now = R.snap(e)
        check(digest({m: s for m, s in now.items() if m != n}) == digest(others), "edit-leaks",
              "editing %s (%s) changed another body" % (n, k))
        ctx.event(k, n)
    ctx.sig([o["op"] for o in case["ops"]], sorted(f.force_type for f in e.forces.values()), len(names))
