"""C08: contacts obey their law: they only push, friction stays within its cone and opposes sliding, contact points with
impulses do not approach afterwards (Newton's restitution and the configured stabilisation bias included), and separating
contacts do nothing."""
import math

import numpy as np

from sim import contactlaw as CL
from sim import faults as F
from sim import rigid as R
from sim.core import check, digest

CASES = {"quick": 460, "thorough": 12000}
SIG_RULE = "distinct (number of contacts, tame, friction present, restitution present, bias active, directly invertible)"
SHRINK = ("ops",)
REAL = "rigid API and complete stepping pipeline with the real solver and collision detection"
STUB = "the client (generated operation history), failing library calls"
ASSUMPTIONS = ("complementarity is required of steps whose contact problem is contracted monotonically by the plain sweep "
               "(decided by an independent solver on the same contact points); admissibility of the impulses always")


def gen(rng, tier):
    fam = rng.choice(["pile", "pile", "drop", "drop", "slide", "conveyor"])
    params = {"resolution": 8, "max_iterations": 400, "absolute_tolerance": 1e-10, "relative_tolerance": 0.0,
              "too_small_merit_change": 0.0, "nu_reduce": 0.9, "use_pre_stabilization": rng.chance(0.3),
              "use_bounce": rng.chance(0.45)}
    if rng.chance(0.25):  # as shipped: only admissibility is required
        params = {"resolution": 8, "max_iterations": 50, "use_pre_stabilization": rng.chance(0.3), "use_bounce": rng.chance(0.4)}
    w = R.gen_world(rng.fork("w"), n=rng.choice([2, 2, 3]), params=params, fixed=True)
    for b in w["bodies"]:
        b["density"] = min(b["density"], 10)
    if fam != "pile":
        ball = {"name": "ball", "kind": rng.choice(["sphere", "tetra", "cone", "ellipsoid", "box"]), "args": [0.6, 0.7, 0.8]}
        if ball["kind"] == "sphere":
            ball["args"] = [0.6]
            ball["slices"], ball["segments"] = 5, 4
        ground = {"name": "gr", "kind": "box", "args": [4.0, 1.0, 4.0]}
        w["shapes"] = [ground, ball]
        nb = rng.choice([1, 1, 2])
        tilt = R.q_axis_angle([0, 0, 1], rng.uniform(-0.5, 0.5)).tolist() if fam == "slide" else [1.0, 0, 0, 0]
        mats = sorted({x for m in w["materials"] for x in m[:2]} | {"default"})
        w["bodies"] = [{"name": "ground", "shape": "gr", "r": [0.0, 0.0, 0.0], "q": tilt, "fixed": True,
                        "density": 1.0, "material": rng.choice(mats), "forces": []}]
        if fam == "conveyor":
            w["bodies"][0]["v"] = rng.vec(-2, 2, 3)
            w["bodies"][0]["w"] = [0, round(rng.uniform(-1, 1), 3), 0]
        for i in range(nb):
            h = round(rng.uniform(0.8, 1.15), 4)
            w["bodies"].append({"name": "b%d" % i, "shape": "ball", "density": round(rng.uniform(0.3, 8), 3),
                                "r": [round(-0.9 + 1.8 * i, 3), h, 0.0], "q": rng.quat(),
                                "v": [round(rng.uniform(-3, 3), 4), round(rng.uniform(-3, 0.5), 4), round(rng.uniform(-3, 3), 4)],
                                "w": rng.vec(-4, 4, 4), "material": rng.choice(mats), "forces": [f["name"] for f in w["forces"]]})
        if rng.chance(0.3):
            w["bodies"].append(w["bodies"].pop(0))
    ops = [{"op": "step"} if rng.chance(0.88) else {"op": "fault", "point": F.gen_point(rng)} for _ in range(rng.choice([2, 4, 6]))]
    for op in ops:
        op["f"] = rng.choice([1, 1, 1, 0.5, 0.3])
    if rng.chance(0.12):  # everything rests, deep in each other
        for b in w["bodies"]:
            b["v"], b["w"] = [0.0] * 3, [0.0] * 3
    R.elsewhere(rng, w)
    return {"world": w, "ops": ops, "exact": params["max_iterations"] == 400}


def check_step(P, ctx, exact):
    ar = P.admissible_residual()
    if ar is not None:
        check(ar <= 1e-7, "inadmissible-impulse", lambda: "no non-adhesive contact impulses within the friction cones explain "
              "the velocity change (relative residual %.3g; %d contacts)" % (ar, P.K))
    tame = P.tame(120, 1e-10) if exact and not P.borderline else None
    inv = False
    if tame is not None:
        tol = 1e-6 * P.vs
        wn = P.wn()
        k = int(np.argmin(wn))
        check(wn[k] >= -tol, "contact-approaches", lambda: "contact %d of %d still approaches: law velocity %.6g (restitution %g, "
              "bias %g, normal velocity before %.6g after %.6g)" % (k, P.K, wn[k], P.e[k], P.bias[k], P.v_old[k, 0], P.v_new[k, 0]))
        lr = P.law_residual(tol)
        if lr is not None:
            check(lr <= 1e-6, "law-violated", lambda: "the velocity change is not one the contact law allows (relative "
                  "residual %.3g, %d contacts)" % (lr, P.K))
        lam = P.impulses()
        sc = 0.0 if lam is None else float(np.abs(lam).max())
        if lam is not None and sc > 1e-5 * P.vs * P.small_mass():
            inv = True
            for k in range(P.K):
                ln, lf = lam[k, 0], lam[k, 1:]
                check(ln >= -1e-6 * sc, "adhesive", "contact %d pulls with %.6g" % (k, ln))
                if wn[k] > 10 * tol:
                    check(np.abs(lam[k]).max() <= 1e-5 * sc, "separating-contact-acts", "contact %d separates at %.6g but has impulse %s" % (k, wn[k], lam[k]))
                nf = np.linalg.norm(lf)
                check(nf <= P.mu[k] * max(ln, 0) + 1e-5 * sc, "outside-cone", "contact %d: friction %.6g, cone %.6g" % (k, nf, P.mu[k] * ln))
                s = np.linalg.norm(P.v_new[k, 1:])
                if s > 100 * tol and ln > 1e-4 * sc:
                    check(nf >= P.mu[k] * ln - 1e-4 * sc, "weak-friction", "contact %d slides at %.6g with friction %.6g below the cone %.6g" % (k, s, nf, P.mu[k] * ln))
                    check(lf @ P.v_new[k, 1:] <= 1e-6 * sc * s, "friction-drives", "friction of contact %d accelerates the sliding" % k)
    ctx.sig(P.K, tame, bool((P.mu > 0).any()), bool((P.e > 0).any()), bool((P.bias != 0).any()), inv)
    ctx.count("tame-steps" if tame is not None else "other-steps")
    ctx.count("directly-inverted", int(inv))
    ctx.count("contacts", P.K)


def run(case, ctx):
    API, _ = R.mods()
    e = R.build(case["world"])
    faulter = F.Faulter()
    for op in case["ops"]:
        dt = e.params.time_step * op.get("f", 1)
        if op["op"] == "fault":
            if faulter.run(lambda: API.simulate(e, dt), op["point"]):
                ctx.fault("call-failure")
            continue
        rb = R.ref_bodies(e)
        pre = R.ref_predict(rb, dt)
        API.simulate(e, dt)
        s = R.snap(e)
        P = CL.StepProblem(rb, pre, e, dt, {n: (x[2], x[3]) for n, x in s.items()})
        ctx.sim_time += dt
        ctx.event("step", P.K, digest(s))
        if P.K:
            check_step(P, ctx, case["exact"])
        else:
            for n, b in rb.items():
                check(np.abs(s[n][2] - pre[n][0]).max() <= 1e-9 * P.vs, "impulse-without-contact", n)
