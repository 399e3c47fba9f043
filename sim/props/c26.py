"""C26: the momentum budget of soft bodies: what contacts give to one body they take from another (none is created or lost),
elastic forces neither push nor spin a body as a whole, prescribed nodes and fixed bodies never leave their place, through any history."""
import numpy as np

from sim import faults as F
from sim import soft as S
from sim.core import Rng, check, digest

CASES = {"quick": 350, "thorough": 12000}
SIG_RULE = "distinct (groups in contact, scheme, broad phase, stabilisation, held nodes, model, steps)"
SHRINK = ("ops",)
REAL = "soft body API, stepper, mechanics, collision detection and all contact solver schemes"
STUB = "failures of library calls (raised by the injector), random hash offsets, clocks"
ASSUMPTIONS = ("linear momentum is judged over groups of bodies connected by contacts in which nothing is held; angular momentum over bodies that touch nothing")


def gen(rng, tier):
    exact = rng.chance(0.3)
    params = {"max_iterations": rng.choice([1, 3, 10, 40]), "resolution": 7, "use_post_stabilization": rng.chance(0.4), "bvh_chunk_size": 255}
    if exact:
        params.update(nu_increase=rng.choice([1.3, 3.0]), absolute_tolerance=1e-9, relative_tolerance=0.0)
    w = S.gen_world(rng.fork("w"), n=rng.choice([1, 2, 2, 3, 4]), params=params, small=rng.chance(0.8), tight=rng.chance(0.5), fixed=0.12, dirichlet=0.12,
                    traction=0.25, deformed=0.5, apart=rng.choice([None, None, None, None, 0.3]), units=0.2, far=0.2)
    if rng.chance(0.12):
        w = S.gen_ring(rng.fork("ring"), params)
    elif rng.chance(0.12):
        w = S.gen_fan(rng.fork("fan"), params)
    ops = []
    for _ in range(rng.choice([1, 2, 4])):
        k = "step" if rng.chance(0.85) else "fault"
        op = {"op": k, "seed": rng.randrange(1 << 30), "frac": rng.choice([1.0, 1.0, 0.3])}
        if k == "fault":
            op["point"] = F.gen_point(rng)
        ops.append(op)
        if rng.chance(0.35):
            ops.append({"op": rng.choice(["type", "velocity", "spin", "hold", "interaction"]), "seed": rng.randrange(1 << 30)})
    for op in ops:
        op["L"] = w.get("L", 1.0)
    return {"world": w, "ops": ops}


def edit(e, op):
    API, _ = S.mods()
    rng = Rng("op", op["seed"])
    n = rng.choice(sorted(e.bodies))
    b = e.bodies[n]
    k, L = op["op"], op.get("L", 1.0)
    if k == "type":
        API.set_type(e, n, rng.choice(["fixed", "free"]))
    elif k == "velocity":
        API.set_velocity(e, n, L * np.array(rng.vec(-2, 2)))
    elif k == "spin":
        w, c = np.array(rng.vec(-3, 3)), b.x.mean(axis=0)
        b.u = np.cross(w, b.x - c) + L * np.array(rng.vec(-1, 1))
    elif k == "hold":
        API.create_dirichlet_conditions(e, n, S.phi_of(S.gen_phi(rng, b.x0, 0.2)))
    elif k == "interaction":
        a, c = rng.choice(sorted(e.materials)), rng.choice(sorted(e.materials))
        if not e.surfaces_interactions.exist_interaction(a, c):
            API.create_surfaces_interaction(e, a, c, rng.choice([0.0, 0.3, 0.8]))


def groups(names, pairs):
    g = {n: {n} for n in names}
    for a, b in pairs:
        if g[a] is not g[b]:
            u = g[a] | g[b]
            for n in u:
                g[n] = u
    return sorted({tuple(sorted(s)) for s in g.values()})


def run(case, ctx):
    API, _ = S.mods()
    F.seed_phi(1)
    e = S.build(case["world"])
    faulter = F.Faulter()
    for i, op in enumerate(case["ops"]):
        if S.squashed(e):
            break
        dt = e.params.time_step * op.get("frac", 1.0)
        if op["op"] == "fault":
            if faulter.run(lambda: API.simulate(e, dt), op["point"]):
                ctx.fault("call-failure")
            continue
        if op["op"] != "step":
            edit(e, op)
            continue
        ref = S.ref_bodies(e)
        S.step(e, dt)
        ctx.sim_time += dt
        ctx.event("step", len(e.contact_points), digest(S.snap(e)))
        on = S.snap(e)
        where = "step %d" % i
        for n, r in ref.items():
            want = dict(r.dir)
            for j in r.held:
                check(not on[n][1][j].any(), "held-node-moves", lambda: "%s: held node %d of %s has velocity %s" % (where, j, n, on[n][1][j]))
                x = want.get(j, r.x[j])
                check(np.array_equal(on[n][0][j], x), "held-node-left", lambda: "%s: held node %d of %s is at %s instead of %s" % (where, j, n, on[n][0][j], x))
        pairs = [(c.bodyA.name, c.bodyB.name) for c in e.contact_points]
        gs = groups(sorted(e.bodies), pairs)
        touching = {n for p in pairs for n in p}
        judged = 0
        for g in gs:
            if any(ref[n].held for n in g):
                continue
            judged += 1
            d, s = np.zeros(3), 1e-12
            for n in g:
                r = ref[n]
                ext = r.traction(r.x) - r.cn[:, None] * r.u + r.mass[:, None] * r.g
                d += r.mass @ (on[n][1] - r.u) - dt * ext.sum(axis=0)
                s += float(np.abs(r.mass[:, None] * (np.abs(on[n][1]) + np.abs(r.u))).sum() + dt * np.abs(ext).sum() + dt * np.abs(r.elastic(r.x)).sum())
            check(np.abs(d).max() <= 1e-10 * s, "momentum-created", lambda: "%s (%s): the bodies %s gained the momentum %s from nowhere (scale %.3g)" % (
                where, e.params.proximal_solver, g, d, s))
            d = sum(ref[n].mass @ (on[n][0] - ref[n].x - dt * on[n][1]) for n in g)
            s2 = sum(float((ref[n].mass[:, None] * (np.abs(on[n][0]) + np.abs(ref[n].x))).sum()) for n in g)
            check(np.abs(d).max() <= 1e-11 * s2, "centre-of-mass-pushed", lambda: "%s: the centre of mass of %s did not move with its velocity: off by %s" % (where, g, d))
            if len(g) == 1 and g[0] not in touching:
                r, n = ref[g[0]], g[0]
                c = r.x.mean(axis=0)
                ext = r.traction(r.x) - r.cn[:, None] * r.u + r.mass[:, None] * r.g
                L = np.cross(r.x - c, r.mass[:, None] * (on[n][1] - r.u) - dt * ext).sum(axis=0)
                s *= float(np.abs(r.x - c).max())
                check(np.abs(L).max() <= 1e-10 * s, "spin-created", lambda: "%s: %s gained the angular momentum %s from its own elasticity (scale %.3g)" % (where, n, L, s))
                ctx.count("angular")
            if any(c.bodyA is c.bodyB for c in e.contact_points):
                ctx.count("self-contact")
                if any(c.bodyA is c.bodyB and c.idx_tetA != c.idx_tetB and set(c.bodyA.T[c.idx_tetA]) & set(c.bodyB.T[c.idx_tetB]) for c in e.contact_points):
                    ctx.count("self-contact-of-neighbours")
            if len(g) > 1:
                ctx.count("groups-in-contact")
        ctx.sig(tuple(len(g) for g in gs), judged, len(pairs), e.params.proximal_solver, e.params.use_spatial_hashing, e.params.use_post_stabilization,
                tuple(r.model for r in ref.values()))
