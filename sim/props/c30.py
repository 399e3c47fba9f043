"""C30: the parallel contact schemes give one result, whatever the schedule of their workers, and the blocks that run at the same
time never share what they write: contacts of one colour have no node (soft) or body (rigid) in common, and none is lost or
handled twice."""
import numpy as np

from sim import prange

prange.install()  # before the system's modules are imported

from sim import faults as F  # noqa: E402
from sim import rigid as R  # noqa: E402
from sim import soft as S  # noqa: E402
from sim.core import InvalidCase, Rng, check, digest  # noqa: E402

CASES = {"quick": 260, "thorough": 12000}
SIG_RULE = "distinct (scheme, contacts, interleaving of the workers) and (kind of contact set, contacts, colours)"
SHRINK = ("ops",)
REAL = "soft body pipeline with its parallel contact schemes, contact graph and both colourings, rigid body collision detection"
STUB = "numba's worker threads (seeded interleaving of loop iterations, statement by statement), injected failures, random colours, random hash offsets"
ASSUMPTIONS = "workers interleave at statements of the loop body; element updates in place are a read followed by a write"
PARALLEL = ["parallel_gauss_seidel", "parallel_gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid"]


def gen(rng, tier):
    u = rng.random()
    if u < 0.12:
        w = R.gen_world(rng.fork("r"), n=rng.choice([3, 4, 5]), hinges=False)
        return {"kind": "rigid", "world": w, "ops": [{"op": "synthetic", "n": rng.choice([2, 5, 12, 25]), "seed": rng.randrange(1 << 30)} for _ in range(2)] +
                [{"op": "step", "seed": rng.randrange(1 << 30)} for _ in range(2)]}
    params = {"proximal_solver": rng.choice(PARALLEL), "max_iterations": rng.choice([1, 2, 4, 8]), "resolution": 7}
    w = S.gen_world(rng.fork("w"), n=rng.choice([2, 3, 3, 4]), params=params, small=rng.chance(0.5), tight=rng.chance(0.7), fixed=0.15, dirichlet=0.1, deformed=0.3)
    if rng.chance(0.04):
        w = S.gen_ring(rng.fork("ring"), params)
    elif rng.chance(0.06):
        w = S.gen_fan(rng.fork("fan"), params)
    ops = []
    for _ in range(rng.choice([2, 3, 4])):
        op = {"op": rng.choice(["step", "step", "step", "prof", "fault", "synthetic"]), "seed": rng.randrange(1 << 30)}
        if op["op"] == "fault":
            op["point"] = F.gen_point(rng)
        if op["op"] == "synthetic":
            op["n"] = rng.choice([2, 4, 9, 20])
        ops.append(op)
    return {"kind": "soft", "world": w, "ops": ops}


def shared(kind, a, b):
    if kind == "rigid":
        return {id(a.bodyA), id(a.bodyB)} & {id(b.bodyA), id(b.bodyB)}
    return nodes(a) & nodes(b)


def nodes(c):
    return {(id(c.bodyA), int(i)) for i in c.bodyA.T[c.idx_tetA]} | {(id(c.bodyB), int(i)) for i in c.bodyB.T[c.idx_tetB]}


def colours(kind, cps, seed, ctx, where):
    import rainbow.simulators.proximal_contact.blocking as B
    typ = "rigid_body" if kind == "rigid" else "soft_body"
    n = len(cps)
    conflict = np.zeros((n, n), bool)
    sets = [({id(c.bodyA), id(c.bodyB)} if kind == "rigid" else nodes(c)) for c in cps]
    for i in range(n):
        for j in range(i):
            conflict[i, j] = conflict[j, i] = bool(sets[i] & sets[j])
    G = B.build_contact_graph(cps, typ)
    groups = [[int(b[0]) // 4 for b in g] for g in B.greedy_graph_coloring(G).values()]
    blocks = [tuple(int(x) for x in b) for g in B.greedy_graph_coloring(G).values() for b in g]
    check(all(a % 4 == 0 and b == a + 4 for a, b in blocks), "blocks-misaligned", lambda: "%s: %s" % (where, blocks))
    judge(groups, n, conflict, where + ", greedy colours", cps, ctx)
    if n <= 30:
        np.random.seed(seed % (1 << 31))
        judge([[int(k) for k in g] for g in B.random_graph_coloring(G, max_iter=Rng("iter", seed).choice([1, 3, 20])).values()], n, conflict, where + ", random colours", cps, ctx)
    ctx.sig(kind, n, len(groups))
    ctx.count("coloured-contacts", n)
    ctx.event("colours", groups)


def judge(groups, n, conflict, where, cps, ctx):
    flat = sorted(k for g in groups for k in g)
    check(flat == list(range(n)), "contact-lost-or-repeated", lambda: "%s: %d contacts, coloured: %s" % (where, n, flat))
    for g in groups:
        for a in range(len(g)):
            for b in range(a):
                check(not conflict[g[a], g[b]], "colour-shared-by-coupled-contacts", lambda: "%s: contacts %d and %d (%s-%s and %s-%s) have one colour" % (
                    where, g[a], g[b], cps[g[a]].bodyA.name, cps[g[a]].bodyB.name, cps[g[b]].bodyA.name, cps[g[b]].bodyB.name))


def synthetic(kind, e, n, rng):
    names = sorted(e.bodies)
    out = []
    N = np.array([0.0, 0.0, 1.0])
    for _ in range(n):
        a, b = (e.bodies[rng.choice(names)] for _ in range(2))
        if kind == "rigid":
            import rainbow.simulators.prox_rigid_bodies.types as T
            if a is b:
                continue
            out.append(T.ContactPoint(a, b, np.zeros(3), N, 0.0))
        else:
            import rainbow.simulators.prox_soft_bodies.types as T
            w = np.full(4, 0.25)
            out.append(T.ContactPoint(a, b, rng.randrange(len(a.T)), rng.randrange(len(b.T)), w, w, np.zeros(3), N, 0.0))
    return out


def run(case, ctx):
    if case["kind"] == "rigid":
        API, _ = R.mods()
        e = R.build(case["world"])
        dt = e.params.time_step
        for i, op in enumerate(case["ops"]):
            if op["op"] == "step":
                API.simulate(e, dt)
                colours("rigid", e.contact_points, op["seed"], ctx, "step %d" % i)
            else:
                colours("rigid", synthetic("rigid", e, op["n"], Rng("cps", op["seed"])), op["seed"], ctx, "contact set %d" % i)
        return
    API, _ = S.mods()
    F.seed_phi(1)
    e = S.build(case["world"])
    twin = S.build(case["world"])
    dt = e.params.time_step
    faulter = F.Faulter()
    for i, op in enumerate(case["ops"]):
        if S.squashed(e):
            raise InvalidCase()
        k = op["op"]
        if k == "synthetic":
            colours("soft", synthetic("soft", e, op["n"], Rng("cps", op["seed"])), op["seed"], ctx, "contact set %d" % i)
            continue
        rng = Rng("sched", op["seed"])
        start = S.snap(e)
        workers = rng.choice([2, 3, 4, 8])
        sched = prange.Schedule(rng, workers)
        if k == "fault":
            with prange.scheduled(sched):
                hit = faulter.run(lambda: API.simulate(e, dt), op["point"])
            if hit:
                ctx.fault("call-failure")
                check(S.same_snap(S.snap(e), start), "failed-step-changed-state", lambda: S.diff_snap(S.snap(e), start))
            S.load_state(e, start)
            sched = prange.Schedule(rng, workers)
        S.load_state(twin, start)
        S.step(twin, dt)
        with prange.scheduled(sched):
            S.step(e, dt, k == "prof")
        ctx.sim_time += dt
        got, want = S.snap(e), S.snap(twin)
        n = len(e.contact_points)
        ctx.event("step", n, sched.switches, sched.trace, digest(got))
        check(S.same_snap(got, want), "depends-on-the-schedule", lambda: "step %d (%s, %d contacts, %d workers, %d switches): %s" % (
            i, e.params.proximal_solver, n, workers, sched.switches, S.diff_snap(got, want)))
        if n:
            colours("soft", e.contact_points, op["seed"], ctx, "step %d" % i)
        if sched.switches:
            ctx.sig(e.params.proximal_solver, n, sched.trace)
            ctx.count("worker-switches", sched.switches)
            ctx.count("scheduled-loops", sched.loops)
            ctx.fault("worker-preempted")
