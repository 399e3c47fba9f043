"""C11: stabilisation only corrects positions: velocities and bodies without deep contacts stay exactly as they are without
it, bodies are only pushed apart along contact normals, and repeated steps remove interpenetration."""
import numpy as np

from sim import contactlaw as CL
from sim import faults as F
from sim import rigid as R
from sim.core import check, digest

CASES = {"quick": 220, "thorough": 9000}
SIG_RULE = "distinct (family, number of contacts, deep contacts, tame, fixed body present)"
SHRINK = ("ops",)
REAL = "rigid API and complete stepping pipeline with the real solver and collision detection"
STUB = "the client (generated operation history), failing library calls"
ASSUMPTIONS = ("complementarity of the correction is required where the plain sweep contracts; removal of penetration is required of "
               "pairs of shallowly overlapping resting boxes and spheres")


def gen(rng, tier):
    fam = rng.choice(["pile", "pile", "pile", "settle"])
    params = {"resolution": 8, "max_iterations": 400, "absolute_tolerance": 1e-11, "relative_tolerance": 0.0,
              "too_small_merit_change": 0.0, "nu_reduce": 0.9, "use_post_stabilization": True,
              "use_pre_stabilization": rng.chance(0.25), "use_bounce": rng.chance(0.25)}
    if fam == "settle":
        params.update(resolution=16, envelope=0.05, use_pre_stabilization=False)
        s = [{"name": "s0", "kind": "box", "args": [1.0, 1.0, 1.0]},
             {"name": "s1", "kind": "sphere", "args": [0.6], "slices": 6, "segments": 6}]
        depth = round(rng.uniform(0.01, 0.08), 4)
        ax = rng.randrange(3)
        r = [0.05, -0.04, 0.03]
        r[ax] = 1.0 - depth
        w = {"params": params, "materials": [], "forces": [], "shapes": s, "hinges": [], "bodies": [
            {"name": "b0", "shape": "s0", "density": 1.0, "r": [0.0, 0.0, 0.0], "fixed": rng.chance(0.5), "q": [1, 0, 0, 0]},
            {"name": "b1", "shape": "s0", "density": round(rng.uniform(0.3, 5), 3), "r": r, "q": [1, 0, 0, 0]}]}
        if rng.chance(0.5):
            w["bodies"].reverse()
        ops = [{"op": "step"}] * rng.choice([12, 16])
        if rng.chance(0.4):      # at rest: the correction of the velocities alone
            fam = "settle-pre"
            params.update(use_pre_stabilization=True, use_post_stabilization=False, use_bounce=rng.chance(0.5))
    else:
        w = R.gen_world(rng.fork("w"), n=rng.choice([2, 2, 3]), params=params, fixed=True, hinges=rng.chance(0.3))
        for b in w["bodies"]:
            b["density"] = min(b["density"], 10)
        ops = [{"op": "step"} if rng.chance(0.88) else {"op": "fault", "point": F.gen_point(rng)} for _ in range(rng.choice([2, 4]))]
    if fam in ("pile",):
        for op in ops:
            op["f"] = rng.choice([1, 1, 1, 0.5, 0.3])
    R.elsewhere(rng, w)
    return {"world": w, "ops": ops, "fam": fam}


def correction(on, off):
    """Displacement and rotation vector that lead from the pose ``off`` to ``on`` (one explicit step of size one)."""
    d = R.q_mul(on[1], off[1] * np.array([1, -1, -1, -1]))
    return on[0] - off[0], 2.0 * d[1:] / d[0]


def sweep_lcp(A, g, iters=300, tol=1e-12):
    x, last = np.zeros(len(g)), np.inf
    d = np.where(np.diag(A) == 0, 1.0, np.diag(A))
    for it in range(iters):
        old = x.copy()
        for k in range(len(g)):
            x[k] = max(0.0, x[k] - (A[k] @ x + g[k]) / d[k])
        m = np.abs(x - old).max()
        if m < tol:
            return it
        if m > last * 0.98:
            return None
        last = m
    return None


def run(case, ctx):
    API, _ = R.mods()
    e = R.build(case["world"])
    if case["fam"] == "settle-pre":
        return at_rest(API, e, case, ctx)
    twin = R.build(dict(case["world"], params=dict(case["world"]["params"], use_post_stabilization=False)))
    faulter = F.Faulter()
    depths = []
    for op in case["ops"]:
        dt = e.params.time_step * op.get("f", 1)
        if op["op"] == "fault":
            if faulter.run(lambda: API.simulate(e, dt), op["point"]):
                ctx.fault("call-failure")
            continue
        before = R.snap(e)
        rb = R.ref_bodies(e)
        R.load_state(twin, before)
        API.simulate(e, dt)
        API.simulate(twin, dt)
        on, off = R.snap(e), R.snap(twin)
        cps = R.contacts(e)
        ctx.sim_time += dt
        ctx.event("step", len(cps), digest(on))
        for n in on:
            check(np.array_equal(on[n][2], off[n][2]) and np.array_equal(on[n][3], off[n][3]), "velocity-changed",
                  lambda: "post-stabilisation changed the velocity of %s: %s" % (n, R.diff_snap({n: on[n]}, {n: off[n]})))
        p = e.params
        deep = [k for k, c in enumerate(cps) if c[4] < -p.min_gap_value]
        if not deep:
            check(R.same_snap(on, off), "moved-without-penetration", lambda: R.diff_snap(on, off))
            depths.append(0.0)
            continue
        depths.append(max(-cps[k][4] for k in deep))
        vel = {n: correction(on[n], off[n]) for n in on}
        zero = {n: (np.zeros(3), np.zeros(3)) for n in on}
        P = CL.StepProblem(rb, zero, e, dt, vel, contact_list=cps)
        P.mu[:] = 0.0
        size = np.abs(P.du).max() if len(P.du) else 0.0
        for n in on:
            if rb[n].fixed:
                check(np.array_equal(on[n][0], off[n][0]) and np.array_equal(on[n][1], off[n][1]), "fixed-body-corrected", n)
        ar = P.admissible_residual(1e-13)
        if ar is not None and size > 1e-9:
            check(ar <= 1e-6, "correction-not-along-normals", lambda: "no pushes along the contact normals explain the correction "
                  "(relative residual %.3g, %d contacts)" % (ar, P.K))
        g = np.array([c[4] if c[4] < -p.min_gap_value else 0.0 for c in cps])
        Jn = P.J()[0::4]
        A = Jn @ P.W @ Jn.T
        tame = sweep_lcp(A, g)
        if tame is not None:
            y = Jn @ P.du + g
            sc = np.abs(g).max()
            check(y.min() >= -1e-5 * sc, "penetration-not-corrected", lambda: "contact %d (gap %.6g) is left with %.6g" % (
                int(np.argmin(y)), g[int(np.argmin(y))], y.min()))
            act = y <= 1e-5 * sc
            if size > 1e-9:
                lr = CL.explain(P.Js, P.idx, P.Mih, P.Mh @ P.du, np.where(act, -1.0, 1.0), np.zeros((P.K, 3)), P.mu, 0.0, 1e-13)
                if lr is not None:
                    check(lr <= 1e-5, "overcorrected", "pushed at contacts that end up open (residual %.3g)" % lr)
        ctx.sig(case["fam"], P.K, len(deep), tame, any(b.fixed for b in rb.values()))
        ctx.count("tame" if tame is not None else "not-tame")
    if case["fam"] == "settle" and len(depths) >= 10:
        p = e.params
        lim = max(2 * p.min_gap_value, 0.25 * depths[0])
        check(depths[-1] <= lim, "penetration-stays", lambda: "penetration by step: %s" % [round(d, 5) for d in depths])
        ctx.count("settled")


def at_rest(API, e, case, ctx):
    """Bodies that overlap at rest are set in motion and moved apart by the pre-stabilisation, however slowly they approach."""
    p, depths = e.params, []
    for n in range(len(case["ops"])):
        API.simulate(e, p.time_step)
        depths.append(max([0.0] + [-c[4] for c in R.contacts(e)]))
        ctx.sim_time += p.time_step
        ctx.event("step", digest(R.snap(e)))
        if n == 0:
            v = max(np.abs(b[2]).max() for b in R.snap(e).values())
            check(depths[0] <= p.min_gap_value or v > 0, "penetration-stays", lambda: "nothing moves although %g of overlap are to be corrected" % depths[0])
    lim = max(2 * p.min_gap_value, 0.8 * depths[0])      # the correction per step is limited
    check(depths[-1] <= lim or len(depths) < 10, "penetration-stays", lambda: "penetration by step: %s" % [round(d, 5) for d in depths])
    ctx.sig(case["fam"], len(depths), round(depths[0], 2), p.use_bounce)
    ctx.count("settled")
