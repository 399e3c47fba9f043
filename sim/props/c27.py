"""C27: soft body post-stabilisation only corrects positions: velocities stay exactly as they are without it, fixed bodies and
prescribed nodes stay, nodes are only pushed apart along the normals of contacts that overlap too deeply, and far enough."""
import numpy as np

from sim import faults as F
from sim import soft as S
from sim.core import Rng, check, digest

CASES = {"quick": 350, "thorough": 12000}
SIG_RULE = "distinct (scheme, number of contacts, deep contacts, contracting, held nodes, profiling)"
SHRINK = ("ops",)
REAL = "soft body API, stepper, collision detection and all contact solver schemes"
STUB = "failures of library calls (raised by the injector), random hash offsets"
ASSUMPTIONS = ("complementarity of the correction is required where plain sweeps of the scheme in use contract; that nodes are only pushed apart along contact "
               "normals is required of every step")
EXACT = {"max_iterations": 250, "absolute_tolerance": 1e-6, "relative_tolerance": 0.0, "too_small_merit_change": 1e9, "nu_increase": 1.01, "nu_reduce": 0.7}
KINDS = {"gauss_seidel": ["gs"], "parallel_gauss_seidel": ["gs", "reversed"], "parallel_jacobi": ["jacobi"], "parallel_jacboi_hybrid": ["jacobi-hybrid"]}


def gen(rng, tier):
    exact = rng.chance(0.75)
    params = dict(EXACT if exact else {"max_iterations": rng.choice([1, 3, 20])}, resolution=7, use_post_stabilization=True, bvh_chunk_size=255,
                  min_gap_value=rng.choice([0.001, 0.001, 0.02, 0.1]), envelope=rng.choice([0.01, 0.05, 0.1]))
    w = S.gen_world(rng.fork("w"), n=rng.choice([2, 2, 2, 2, 3]), params=params, small=True, tight=rng.chance(0.5), fixed=0.2, dirichlet=0.2,
                    deformed=0.3, units=0.2, far=0.2)
    if w["params"]["proximal_solver"] == "parallel_gauss_seidel":  # colours its contacts anew in every sweep
        w["params"]["max_iterations"] = min(80, w["params"]["max_iterations"])
        w["bodies"] = w["bodies"][:2]
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        op = {"op": "step" if rng.chance(0.85) else "fault", "seed": rng.randrange(1 << 30), "prof": rng.chance(0.3)}
        if op["op"] == "fault":
            op["point"] = F.gen_point(rng)
        ops.append(op)
        if rng.chance(0.35):
            ops.append({"op": rng.choice(["type", "velocity", "place", "hold"]), "seed": rng.randrange(1 << 30), "prof": False})
    for op in ops:
        op["L"] = w.get("L", 1.0)
    return {"world": w, "ops": ops, "exact": exact}


def judge(case, ctx, e, ref, on, off, where):
    dt = e.params.time_step
    for n in on:
        check(np.array_equal(on[n][1], off[n][1]), "velocity-changed", lambda: "%s: post-stabilisation changed velocities: %s" % (where, S.diff_snap({n: on[n]}, {n: off[n]})))
    cps = S.contacts(e)
    deep = [k for k, c in enumerate(cps) if c[8] < -e.params.min_gap_value]
    if not deep:
        check(S.same_snap(on, off), "moved-without-penetration", lambda: "%s: %s" % (where, S.diff_snap(on, off)))
        return
    for n, r in ref.items():
        for i in r.held:
            check(np.array_equal(on[n][0][i], off[n][0][i]), "held-node-moved", lambda: "%s: node %d of %s moved by %s" % (where, i, n, on[n][0][i] - off[n][0][i]))
    zero = {n: np.zeros_like(on[n][0]) for n in on}
    P = S.SoftProblem(ref, zero, e, {n: on[n][0] - off[n][0] for n in on})
    P.mu[:] = 0.0
    size = float(np.abs(P.du).max())
    scale = max(float(np.abs(on[n][0]).max()) for n in on)
    if size > 1e-7 * scale:
        ar = P.admissible_residual(0.0)
        if ar is not None:
            check(ar <= 1e-6, "correction-not-along-normals", lambda: "%s (%s): no pushes along the contact normals explain the correction (relative residual %.3g, %d contacts)" % (
                where, e.params.proximal_solver, ar, P.K))
    g = np.where([c[8] < -e.params.min_gap_value for c in cps], [c[8] for c in cps], 0.0)
    Jn = P.J()[0::4]
    # the contact problem of the correction: starts at the gaps, only normals act
    b = np.zeros(4 * P.K)
    b[0::4] = g
    contracting = case["exact"] and contracts(P, b, e.params, KINDS[e.params.proximal_solver])
    if contracting:
        y = Jn @ P.du + g
        sc = float(np.abs(g).max())
        A = np.einsum("ij,j,ij->i", Jn, np.diag(P.W), Jn)
        open_ = y < -1e-3 * sc
        open_ &= A > 0  # a contact between nodes that are all held can not be corrected
        check(not open_.any(), "penetration-not-corrected", lambda: "%s (%s): contact %d (gap %.6g) is left with %.6g" % (
            where, e.params.proximal_solver, int(np.argmax(open_)), g[np.argmax(open_)], y[np.argmax(open_)]))
        if size > 1e-7 * scale:
            keep, P.v_new[:, 0] = P.v_new[:, 0].copy(), y
            lr = P.law_residual(1e-3 * sc)
            P.v_new[:, 0] = keep
            if lr is not None:
                check(lr <= 1e-4, "overcorrected", lambda: "%s (%s): pushed at contacts that end up open (residual %.3g)" % (where, e.params.proximal_solver, lr))
    ctx.sig(e.params.proximal_solver, P.K, len(deep), bool(contracting), any(r.held for r in ref.values()))
    ctx.count("contracting-corrections" if contracting else "other-corrections")


def contracts(P, b, params, kinds):
    """Does the plain scheme solve the problem of the correction with steps that shrink steadily?  Decided on a model of the scheme; only then the correction must be complete."""
    A = P._J @ P.W @ P._J.T
    d = np.diag(A).copy()
    live = d[0::4] > 0
    d[d == 0] = 1.0
    for kind in kinds:
        r, x, sol, last, done = 0.1 / d, np.zeros(4 * P.K), np.zeros(4 * P.K), np.inf, False
        order = range(P.K) if kind != "reversed" else range(P.K - 1, -1, -1)
        for it in range(params.max_iterations - 5):
            z0 = x - r * (A @ x + b)
            for k in order:
                i = 4 * k
                x[i] = max(0.0, z0[i] if kind.startswith("jacobi") else x[i] - r[i] * (A[i] @ x + b[i]))
            m = np.abs(x - sol).max()
            if m < params.absolute_tolerance:
                done = True
                break
            if m > 0.9999 * last:
                return False  # steps grow: the solver will reject iterates and may give up early
            r = r * params.nu_increase
            last, sol = m, x.copy()
        y = (A @ sol + b)[0::4]
        if not done or (y[live] < -1e-5 * np.abs(b).max()).any() or ((sol[0::4] > 0) & live & (np.abs(y) > 1e-5 * np.abs(b).max())).any():
            return False
    return True


def run(case, ctx):
    API, _ = S.mods()
    F.seed_phi(1)
    e = S.build(case["world"])
    twin = S.build(dict(case["world"], params=dict(case["world"]["params"], use_post_stabilization=False)))
    faulter = F.Faulter()
    dt = e.params.time_step
    for i, op in enumerate(case["ops"]):
        if S.squashed(e) or len(S.contacts(e)) > 80:
            break
        names = sorted(e.bodies)
        k, L = op["op"], op.get("L", 1.0)
        if k in ("type", "velocity", "place", "hold"):
            for x in (e, twin):
                rng = Rng("op", op["seed"])
                n = rng.choice(names)
                if k == "type":
                    API.set_type(x, n, rng.choice(["fixed", "free"]))
                elif k == "velocity":
                    API.set_velocity(x, n, L * np.array(rng.vec(-2, 2)))
                elif k == "place":
                    API.set_spatial_coordinates(x, n, x.bodies[n].x + L * np.array(rng.vec(-0.1, 0.1)))
                else:
                    API.create_dirichlet_conditions(x, n, S.phi_of(S.gen_phi(rng, x.bodies[n].x0, 0.2)))
            continue
        if k == "fault":
            if faulter.run(lambda: API.simulate(e, dt, op["prof"]), op["point"]):
                ctx.fault("call-failure")
            continue
        ref = S.ref_bodies(e)
        S.load_state(twin, S.snap(e))
        S.step(e, dt, op["prof"])
        S.step(twin, dt)
        ctx.sim_time += dt
        on, off = S.snap(e), S.snap(twin)
        ctx.event("step", len(e.contact_points), digest(on))
        judge(case, ctx, e, ref, on, off, "step %d" % i)
