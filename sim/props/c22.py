"""C22: a soft body that is in no contact moves exactly as its elasticity, damping, tractions and gravity prescribe; prescribed
nodes and fixed bodies stay; whatever was declared, changed or failed before, and whatever happens to other bodies."""
import numpy as np

from sim import faults as F
from sim import soft as S
from sim.core import Rng, check, digest

CASES = {"quick": 400, "thorough": 12000}
SIG_RULE = "distinct (constitutive model, kind of edit before the step, held nodes, traction, damping, profiling, in contact elsewhere)"
SHRINK = ("ops",)
REAL = "soft body API, stepper, mechanics and constitutive models, collision detection and contact solvers"
STUB = "failures of library calls (raised by the injector), clocks, random hash offsets"
EDITS = ["velocity", "gravity", "elasticity", "viscosity", "density", "model", "material", "type", "dirichlet", "traction", "deform", "add", "fault", "none", "none"]


def gen(rng, tier):
    n = rng.choice([1, 2, 3])
    w = S.gen_world(rng.fork("w"), n=n, params={"resolution": 7, "max_iterations": 3}, small=rng.chance(0.5), apart=rng.choice([None, 0.3, 0.3]),
                    deformed=0.6, traction=0.35, fixed=0.15, units=0.3)
    L = w.get("L", 1.0)
    names = [m["name"] for m in w["materials"]]
    ops = []
    for i in range(rng.choice([4, 6, 8])):
        op = {"op": rng.choice(EDITS), "b": rng.randrange(n), "m": rng.choice(names), "frac": rng.choice([1.0, 1.0, 0.25, 0.61]), "prof": rng.chance(0.3), "L": L, "seed": rng.randrange(1 << 30)}
        if op["op"] == "fault":
            op["point"] = F.gen_point(rng)
        ops.append(op)
    return {"world": w, "ops": ops}


def edit(e, op, case, ctx, faulter):
    API, _ = S.mods()
    rng = Rng("edit", op["seed"])
    k = op["op"]
    names = sorted(e.bodies)
    n = names[op["b"] % len(names)]
    b = e.bodies[n]
    m, L = op["m"], op.get("L", 1.0)
    if k == "velocity":
        API.set_velocity(e, n, L * np.array(rng.vec(-2, 2)))
    elif k == "gravity":
        API.set_gravity(e, n, L * np.array(rng.vec(-9, 9)))
    elif k == "elasticity":
        API.set_elasticity(e, m, float(rng.choice([300, 5000, 30000])), rng.choice([0.0, 0.2, 0.45]))
    elif k == "viscosity":
        API.set_viscosity(e, m, float(rng.choice([0, 10, 200])) / L ** 2)
    elif k == "density":
        API.set_mass_density(e, m, float(rng.choice([200, 800, 2500])) / L ** 2)
    elif k == "model":
        API.set_constitutive_model(e, m, S.model(rng.choice(["COR", "SVK", "SNH"])))
    elif k == "material":
        API.set_material(e, n, m)
    elif k == "type":
        API.set_type(e, n, rng.choice(["fixed", "free", "Free"]))
    elif k == "dirichlet":
        API.create_dirichlet_conditions(e, n, S.phi_of(S.gen_phi(rng, b.x0, 0.3)))
    elif k == "traction":
        API.create_traction_conditions(e, n, S.phi_of(S.gen_phi(rng, b.x0, 0.8)), np.array(rng.vec(-400, 400)))
    elif k == "deform":
        d = np.array([[rng.uniform(-0.1, 0.1) for _ in range(3)] for _ in range(3)])
        d = {"q": rng.quat(), "S": d, "t": (L * np.array(rng.vec(-0.5, 0.5))).tolist(), "bend": (np.array(rng.vec(-0.1, 0.1)) / L).tolist()}
        if rng.chance(0.3):  # hardly deformed at all
            d["S"], d["bend"] = d["S"] * rng.choice([1e-4, 1e-5, 1e-6]), [0, 0, 0]
            if rng.chance(0.6):
                d["q"] = [1.0, 0, 0, 0]
            if rng.chance(0.4):
                d["S"] = np.diag(np.diag(d["S"]))
        API.set_spatial_coordinates(e, n, S.deform(API.get_material_coordinates(e, n), d))
    elif k == "add" and len(names) < 5:
        w = S.gen_world(rng, n=1, small=True, params={})
        S.place(w, L, np.zeros(3))
        s = w["bodies"][0]
        s["name"] = "z%d" % len(names)
        s["material"] = m
        s["mesh"]["at"] = [L * (6.0 + 3 * len(names)), 0.0, L * rng.uniform(-1, 1)]
        for key in ("dirichlet", "traction"):
            s.pop(key, None)
        if rng.chance(0.5):
            # left as created: the default material, gravity and type
            V, T = S.make_mesh(s["mesh"])
            API.create_soft_body(e, s["name"], V, T)
        else:
            S.add_body(e, s)
    elif k == "fault":
        if faulter.run(lambda: API.simulate(e, e.params.time_step, op["prof"]), op["point"]):
            ctx.fault("call-failure:" + op["point"]["exc"])


def run(case, ctx):
    F.seed_phi(1)
    e = S.build(case["world"])
    faulter = F.Faulter()
    for op in case["ops"]:
        if S.squashed(e):
            break
        edit(e, op, case, ctx, faulter)
        if S.squashed(e):
            break
        dt = e.params.time_step * op["frac"]
        ref = S.ref_bodies(e)
        pred = {n: r.predict(dt) for n, r in ref.items()}
        before = S.snap(e)
        S.step(e, dt, op["prof"])
        touched = {c.bodyA.name for c in e.contact_points} | {c.bodyB.name for c in e.contact_points}
        for n, r in ref.items():
            x0, u1, scale = pred[n]
            b = e.bodies[n]
            prescribed = dict(r.dir)
            for i in r.held:
                want = prescribed.get(i, before[n][0][i])
                check(np.array_equal(b.x[i], want), "held-node-moved", lambda: "%s node %d: %s instead of %s" % (n, i, b.x[i].tolist(), np.array(want).tolist()))
                check(not b.u[i].any(), "held-node-velocity", lambda: "%s node %d has velocity %s" % (n, i, b.u[i].tolist()))
            if n in touched:
                continue
            us = max(np.abs(u1).max(), np.abs(r.u).max(), scale, 1e-6 * case["world"].get("L", 1.0))
            du = np.abs(b.u - u1).max()
            l = float(np.min(r.vol)) ** (1 / 3)
            rnd = dt * r.E / (r.rho * l) * 1e-14 * float(np.abs(x0).max()) / l  # round-off of strains, amplified by the stiffness
            check(du <= 1e-9 * us + rnd, "velocity-not-as-prescribed", lambda: "%s (%s, after %s): velocity off by %.3g (scale %.3g), node %d: %s instead of %s" % (
                n, r.model, op["op"], du, us, int(np.abs(b.u - u1).max(axis=1).argmax()), b.u[np.abs(b.u - u1).max(axis=1).argmax()].tolist(), u1[np.abs(b.u - u1).max(axis=1).argmax()].tolist()))
            x1 = r.bc_x(x0 + dt * b.u)
            xs = np.abs(x1).max() + us * dt
            check(np.abs(b.x - x1).max() <= 1e-13 * xs + 1e-9 * us * dt + rnd * dt, "position-not-integrated", lambda: "%s: position off by %.3g" % (n, np.abs(b.x - x1).max()))
            ctx.sig(r.model, op["op"], len(r.held), len(r.trac) > 0, r.c > 0, op["prof"], bool(touched))
        ctx.sim_time += dt
        ctx.event(op["op"], sorted(touched), digest(S.snap(e)))
