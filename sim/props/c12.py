"""C12: hinges hold: the joint equations declared by the client (anchors together, axes aligned, free spin about the axis) are
met by every converged step, positional drift contracts at the configured rate, and joints act through joint impulses only."""
import numpy as np

from sim import faults as F
from sim import jointlaw as JL
from sim import rigid as R
from sim.core import check, digest

CASES = {"quick": 300, "thorough": 12000}
SIG_RULE = "distinct (hinges, topology, stabilisation, fixed bodies, sweeps of the reference, modes)"
SHRINK = ("ops",)
REAL = "rigid API (hinges in all frames) and complete stepping pipeline with the real solver"
STUB = "the client (generated operation history), failing library calls"
ASSUMPTIONS = ("the joint equations are required to hold where an independent implementation of the documented sweep with backed-off "
               "r-factors solves them in half of the allowed iterations, and no contacts are present")


def gen(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    w = R.gen_world(rng.fork("w"), n=n, contact=False, fixed=False, params={
        "resolution": 8, "max_iterations": 400, "absolute_tolerance": 1e-11, "relative_tolerance": 0.0,
        "too_small_merit_change": 0.0, "nu_reduce": 0.9, "use_pre_stabilization": rng.chance(0.6),
        "use_post_stabilization": rng.chance(0.3), "gap_reduction": rng.choice([0.1, 0.2, 0.5]), "use_bounce": rng.chance(0.2)})
    gap = rng.choice([2.0, 2.4, 3.6])
    if rng.chance(0.7):
        gap = 2.0
        for s in w["shapes"]:
            s.update(kind="box", args=[round(rng.uniform(1.3, 1.7), 3) for _ in range(3)])
        for b in w["bodies"]:
            b["q"] = [1.0, 0.0, 0.0, 0.0]
            b["w"] = [0.3 * x for x in b["w"]]
    for i, b in enumerate(w["bodies"]):
        b["r"] = [round(gap * i + rng.uniform(-0.2, 0.2), 4)] + [round(rng.uniform(-0.5, 0.5), 4) for _ in range(2)]
        b["density"] = min(max(b["density"], 0.3), 10)
    if rng.chance(0.5):
        b = rng.choice(w["bodies"])
        b.update(fixed=True)
        if rng.chance(0.7):
            b.update(v=[0.0] * 3, w=[0.0] * 3)
    pairs = [(i, i + 1) for i in range(n - 1)]
    if n >= 3 and rng.chance(0.25):
        pairs = [(0, i) for i in range(1, n)]
    hs = []
    for k, (a, b) in enumerate(pairs):
        if rng.chance(0.5):
            a, b = b, a
        hs.append(gen_hinge(rng, "h%d" % k, w, a, b))
    ops = [{"op": "hinge", "h": h} for h in hs]
    for _ in range(rng.choice([4, 8, 12])):
        k = rng.random()
        body = "b%d" % rng.randrange(n)
        if k < 0.6:
            ops.append({"op": "step", "prof": rng.chance(0.2)})
        elif k < 0.7:
            ops.append({"op": "fault", "point": F.gen_point(rng)})
        elif k < 0.78:
            ops.append({"op": "nudge", "b": body, "d": rng.vec(-0.03, 0.03, 4), "rot": rng.vec(-0.03, 0.03, 4)})
        elif k < 0.84:
            ops.append({"op": "kick", "b": body, "v": rng.vec(-2, 2, 3), "w": rng.vec(-2, 2, 3)})
        elif k < 0.90:
            a, b = rng.choice(pairs)
            i = pairs.index((a, b))
            ops.append({"op": "rehinge", "h": gen_hinge(rng, "h%d" % i, w, *((a, b) if rng.chance(0.5) else (b, a)))})
        elif k < 0.95:
            ops.append({"op": "type", "b": body, "fixed": rng.chance(0.5)})
        else:
            ops.append({"op": "stab", "on": rng.chance(0.5), "gr": rng.choice([0.1, 0.3, 0.8])})
    for op in ops:
        if op["op"] == "step":
            op["f"] = rng.choice([1, 1, 1, 0.5, 0.3])
    if rng.chance(0.2):
        L = rng.choice([0.03, 1.0, 30.0])
        shift = np.round(np.array(rng.unit()) * rng.choice([0.0, 8.0, 60.0]), 3)
        R.place(w, L, shift)
        for op in ops:
            h = op.get("h")
            if h:
                h["origin"] = [float(x) for x in L * (np.array(h["origin"]) + (shift if h["mode"] == "world" else 0))]
            for k in ("d", "v"):
                if k in op:
                    op[k] = [L * x for x in op[k]]
    return {"world": w, "ops": ops}


def gen_hinge(rng, name, w, a, b):
    ra, rb = w["bodies"][a]["r"], w["bodies"][b]["r"]
    mode = rng.choice(["world", "world", "body", "model"])
    if mode == "world":
        o = [round(0.5 * (x + y) + rng.uniform(-0.3, 0.3), 4) for x, y in zip(ra, rb)]
    else:
        o = rng.vec(-1.0, 1.0, 4)
    return {"name": name, "parent": "b%d" % a, "child": "b%d" % b, "origin": o, "axis": [round(x, 4) for x in rng.unit()] if rng.chance(0.8) else
            rng.choice([[1.0, 0.0, 0.0], [0.0, 0.0, -1.0], [0.0, 2.0, 0.0]]), "mode": mode}


def run(case, ctx):
    API, _ = R.mods()
    e = R.build(dict(case["world"], hinges=[]))
    hm = JL.HingeModel()
    model = R.Model(e, case["world"])
    faulter = F.Faulter()
    for op in case["ops"]:
        k = op["op"]
        if k in ("hinge", "rehinge"):
            h = op["h"]
            if k == "hinge":
                API.create_hinge(e, h["name"])
            elif h["name"] not in e.hinges:
                continue
            o, a = np.array(h["origin"], float), np.array(h["axis"], float)
            API.set_hinge(e, h["name"], h["parent"], h["child"], o, a, h["mode"])
            o += 99.0
            a *= -3.0
            hm.set(e, h["name"], h["parent"], h["child"], h["origin"], h["axis"], h["mode"])
            ctx.event(k, h["name"])
        elif k == "nudge":
            b = e.bodies[op["b"]]
            API.set_position(e, op["b"], np.array(b.r) + np.array(op["d"]))
            API.set_orientation(e, op["b"], R.q_mul(np.concatenate([[1.0], op["rot"]]), np.array(b.q)))
        elif k == "kick":
            API.set_velocity(e, op["b"], np.array(op["v"], float))
            API.set_spin(e, op["b"], np.array(op["w"], float))
        elif k == "type":
            API.set_body_type(e, op["b"], "fixed" if op["fixed"] else "free")
            model.b[op["b"]]["fixed"] = op["fixed"]
        elif k == "stab":
            e.params.use_pre_stabilization, e.params.gap_reduction = op["on"], op["gr"]
        elif k == "fault":
            if e.hinges and faulter.run(lambda: API.simulate(e, e.params.time_step), op["point"]):
                ctx.fault("call-failure")
        else:
            step(e, hm, model, ctx, op)


def step(e, hm, model, ctx, op):
    API, _ = R.mods()
    dt = e.params.time_step * op.get("f", 1)
    rb = R.ref_bodies(e, model)
    pre = R.ref_predict(rb, dt)
    API.simulate(e, dt, op["prof"])
    s = R.snap(e)
    ctx.sim_time += dt
    ctx.event("step", digest(s))
    if e.contact_points or not hm.h:
        return
    vel = {n: (x[2], x[3]) for n, x in s.items()}
    P = JL.JointStep(hm.h, rb, pre, dt, e.params)
    res, expl, size = P.residual(vel)
    sc = max(np.abs(P.u0).max(), np.abs(P.err).max() * P.rate, 1e-3)
    check(expl <= 1e-7 * size + 1e-9, "not-joint-impulses", lambda: "the velocity change of the step is not one that joint impulses "
          "can cause (residual %.3g of %.3g)" % (expl, size))
    tame = P.tame()
    ctx.count("tame" if tame is not None else "not-tame")
    if tame is None:
        return
    check(res <= 1e-4 * sc, "joint-equations", lambda: "hinge equations are off by %.4g (scale %.4g): %s" % (
        res, sc, dict(zip(P.ids, np.round((P.J @ np.concatenate([np.concatenate(vel[n]) for n in P.names]) + P.rate * P.err).reshape(-1, 5), 6).tolist()))))
    after = R.ref_bodies(e, model)
    gr = e.params.gap_reduction if e.params.use_pre_stabilization else 0.0
    for name, h in hm.h.items():
        d0, u0 = JL.errors(h, rb)
        d1, u1 = JL.errors(h, after)
        wp, wc = np.linalg.norm(vel[h[0]][1]), np.linalg.norm(vel[h[1]][1])
        if rb[h[0]].fixed:
            wp = 0.0
        if rb[h[1]].fixed:
            wc = 0.0
        if (rb[h[0]].fixed and np.abs(np.concatenate(vel[h[0]])).max() > 0) or (rb[h[1]].fixed and np.abs(np.concatenate(vel[h[1]])).max() > 0):
            continue  # a fixed body with a velocity moves nowhere but drags its joint
        slack = dt * dt * (wp * wp * np.linalg.norm(h[2]) + wc * wc * np.linalg.norm(h[3])) + 1e-4 * sc * dt + 1e-12
        check(np.linalg.norm(d1) <= (1 - gr) * np.linalg.norm(d0) + slack, "anchors-drift", lambda: "%s: anchors %.6g apart before and %.6g "
              "after the step (gap reduction %g, allowed %.3g more)" % (name, np.linalg.norm(d0), np.linalg.norm(d1), gr, slack))
        slack = 2 * dt * dt * (wp + wc) ** 2 + 1e-4 * sc * dt + 1e-9
        if np.linalg.norm(u0) < 0.3:
            check(np.linalg.norm(u1) <= (1 - gr) * np.linalg.norm(u0) + 0.2 * gr * np.linalg.norm(u0) ** 2 + slack, "axes-drift", lambda: "%s: axes off by %.6g before "
                  "and %.6g after the step (gap reduction %g)" % (name, np.linalg.norm(u0), np.linalg.norm(u1), gr))
        ctx.count("joints-decided")
    ctx.sig(len(hm.h), sorted((h[0], h[1]) for h in hm.h.values()), gr, sorted(b.fixed for b in rb.values()), tame)
