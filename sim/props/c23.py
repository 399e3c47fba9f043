"""C23: soft body contacts obey their law under every solver scheme: they only push, friction stays in the cone of the two
materials and opposes sliding, no contact approaches afterwards, separating contacts do nothing, held nodes are not moved."""
import numpy as np

from sim import faults as F
from sim import soft as S
from sim.core import Rng, check, digest

CASES = {"quick": 700, "thorough": 12000}
SIG_RULE = "distinct (number of contacts, scheme, contracting, friction present, held nodes in contact, self contact, directly invertible)"
SHRINK = ("ops",)
REAL = "soft body API, stepper, collision detection and all four contact solver schemes"
STUB = "failures of library calls (raised by the injector), random hash offsets"
ASSUMPTIONS = ("complementarity is required of steps whose contact problem is contracted monotonically by plain sweeps of the scheme in use (decided by "
               "an independent solver on the same contact points); admissibility of the impulses always, except for the friction of a truncated Jacobi solve, which is "
               "bounded by the normal impulse of the sweep before")
EXACT = {"max_iterations": 250, "absolute_tolerance": 1e-8, "relative_tolerance": 0.0, "too_small_merit_change": 1e9, "nu_increase": 1.01, "nu_reduce": 0.7}
KINDS = {"gauss_seidel": ["gs"], "parallel_gauss_seidel": ["gs", "reversed"], "parallel_jacobi": ["jacobi"], "parallel_jacboi_hybrid": ["jacobi-hybrid"]}


def gen(rng, tier):
    exact = rng.chance(0.75)
    params = dict(EXACT if exact else {"max_iterations": rng.choice([1, 3, 20])}, resolution=7, use_post_stabilization=False, bvh_chunk_size=255)
    if not exact and rng.chance(0.5):
        params.update(absolute_tolerance=1e-9, relative_tolerance=0.0, nu_increase=rng.choice([1.3, 3.0]), too_small_merit_change=1e9)  # drives the iteration into divergence
    w = S.gen_world(rng.fork("w"), n=rng.choice([2, 2, 2, 3]), params=params, small=rng.chance(0.85), tight=rng.chance(0.6), fixed=0.2, dirichlet=0.2,
                    deformed=0.3, units=0.2, far=0.2)
    if rng.chance(0.03):
        w = S.gen_ring(rng.fork("ring"), params)
    elif rng.chance(0.05):
        w = S.gen_fan(rng.fork("fan"), params)
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        op = {"op": "step" if rng.chance(0.85) else "fault", "seed": rng.randrange(1 << 30), "L": w.get("L", 1.0)}
        if op["op"] == "fault":
            op["point"] = F.gen_point(rng)
        ops.append(op)
        if rng.chance(0.3):
            ops.append({"op": rng.choice(["type", "velocity", "interaction", "material"]), "L": w.get("L", 1.0), "seed": rng.randrange(1 << 30)})
    return {"world": w, "ops": ops, "exact": exact}


def check_step(P, ctx, e, exact, where):
    scheme = e.params.proximal_solver
    check(P.held_moved == 0.0, "held-node-pushed", lambda: "%s: contacts changed the velocity of a fixed body or a prescribed node by %.3g" % (where, P.held_moved))
    contracting = exact and P.contracts(e.params, KINDS[scheme])
    if contracting or scheme != "parallel_jacobi":
        ar = P.admissible_residual()
        if ar is not None:
            check(ar <= 1e-7, "inadmissible-impulse", lambda: "%s (%s): no pushes within the friction cones explain the velocity change (relative residual %.3g, %d contacts)" % (where, scheme, ar, P.K))
    else:
        keep = P.mu.copy()
        P.mu[:] = np.where(keep > 0, 1e4, 0.0)
        ar = P.admissible_residual()
        P.mu[:] = keep
        if ar is not None:
            check(ar <= 1e-5, "inadmissible-impulse", lambda: "%s (%s): not even with unlimited friction do pushes explain the velocity change (%.3g)" % (where, scheme, ar))
    inv = False
    if contracting:
        tol = max(1e-6 * P.vs, 10 * e.params.absolute_tolerance * P.mobility())  # the solver stops at impulse changes of that size
        wn = P.wn()
        k = int(np.argmin(wn))
        check(wn[k] >= -tol, "contact-approaches", lambda: "%s (%s): contact %d of %d still approaches at %.6g (before %.6g)" % (where, scheme, k, P.K, wn[k], P.v_pre[k, 0]))
        lr = P.law_residual(tol)
        if lr is not None:
            check(lr <= 1e-6, "law-violated", lambda: "%s (%s): the velocity change is not one the contact law allows (relative residual %.3g, %d contacts)" % (where, scheme, lr, P.K))
        lam = P.impulses()
        sc = 0.0 if lam is None else float(np.abs(lam).max())
        if lam is not None and sc > 1e-4 * P.vs * P.small_mass():
            inv = True
            for k in range(P.K):
                ln, lf = lam[k, 0], lam[k, 1:]
                check(ln >= -1e-6 * sc, "adhesive", "contact %d pulls with %.6g" % (k, ln))
                if wn[k] > 10 * tol:
                    check(np.abs(lam[k]).max() <= 1e-5 * sc, "separating-contact-acts", "contact %d separates at %.6g but has impulse %s" % (k, wn[k], lam[k]))
                nf = np.linalg.norm(lf)
                check(nf <= P.mu[k] * max(ln, 0) + 1e-5 * sc, "outside-cone", "contact %d: friction %.6g, cone %.6g" % (k, nf, P.mu[k] * ln))
                s = np.linalg.norm(P.v_new[k, 1:])
                if s > 100 * tol and ln > 1e-3 * sc:
                    check(nf >= P.mu[k] * ln - 1e-4 * sc, "weak-friction", "contact %d slides at %.6g with friction %.6g below the cone %.6g" % (k, s, nf, P.mu[k] * ln))
                    check(lf @ P.v_new[k, 1:] <= 1e-6 * sc * s, "friction-drives", "friction of contact %d accelerates the sliding" % k)
    ctx.sig(P.K, scheme, bool(contracting), bool((P.mu > 0).any()), inv)
    ctx.count("contracting-steps" if contracting else "other-steps")
    if contracting and np.abs(P.du).max() > 1e-9 * P.vs:
        ctx.count("contracting-steps-with-impulses:" + scheme)
    ctx.count("directly-inverted", int(inv))
    ctx.count("contacts", P.K)


def run(case, ctx):
    API, _ = S.mods()
    F.seed_phi(1)
    e = S.build(case["world"])
    faulter = F.Faulter()
    dt = e.params.time_step
    for i, op in enumerate(case["ops"]):
        if S.squashed(e):
            break
        rng = Rng("op", op["seed"])
        names = sorted(e.bodies)
        n = rng.choice(names)
        k = op["op"]
        if k == "type":
            API.set_type(e, n, rng.choice(["fixed", "free"]))
        elif k == "velocity":
            API.set_velocity(e, n, op.get("L", 1.0) * np.array(rng.vec(-2, 2)))
        elif k == "material":
            API.set_material(e, n, rng.choice(sorted(e.materials)))
        elif k == "interaction":
            a, b = rng.choice(sorted(e.materials)), rng.choice(sorted(e.materials))
            if not e.surfaces_interactions.exist_interaction(a, b):
                API.create_surfaces_interaction(e, a, b, rng.choice([0.0, 0.3, 0.8, 2.5]))
        elif k == "fault":
            if faulter.run(lambda: API.simulate(e, dt), op["point"]):
                ctx.fault("call-failure")
        if k != "step":
            continue
        ref = S.ref_bodies(e)
        pred = {n: r.predict(dt)[1] for n, r in ref.items()}
        S.step(e, dt)
        ctx.sim_time += dt
        ctx.event("step", len(e.contact_points), digest(S.snap(e)))
        if e.contact_points:
            P = S.SoftProblem(ref, pred, e, {n: b.u for n, b in e.bodies.items()})
            check_step(P, ctx, e, case["exact"], "step %d" % i)
