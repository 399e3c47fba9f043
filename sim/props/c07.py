"""C07: contacts, joints and stabilisation are internal: they never change the momentum of a group of free bodies."""
import numpy as np

from sim import faults as F
from sim import rigid as R
from sim.core import check, digest

CASES = {"quick": 420, "thorough": 12000}
SIG_RULE = "distinct (number of bodies in the group, contacts, hinges, switches)"
SHRINK = ("ops",)
REAL = "rigid API and complete stepping pipeline"
STUB = "the client (generated operation history), failing library calls"


def gen(rng, tier):
    world = R.gen_world(rng.fork("w"), n=rng.choice([2, 3, 4]), hinges=rng.chance(0.5), fixed=rng.chance(0.3), params={
        "resolution": 8, "max_iterations": rng.choice([2, 6, 20]), "use_post_stabilization": rng.chance(0.4),
        "use_pre_stabilization": rng.chance(0.5), "use_bounce": rng.chance(0.5)})
    ops = [{"op": "step", "prof": rng.chance(0.2), "reanchor": rng.chance(0.7)} if rng.chance(0.8) else {"op": "fault", "point": F.gen_point(rng), "prof": False}
           for _ in range(rng.choice([2, 4, 8]))]
    for op in ops:
        op["f"] = rng.choice([1, 1, 1, 0.5, 0.3])
    return {"world": R.elsewhere(rng, world), "ops": ops}


def groups(names, links):
    parent = {n: n for n in names}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    for a, b in links:
        parent[find(a)] = find(b)
    out = {}
    for n in names:
        out.setdefault(find(n), []).append(n)
    return list(out.values())


def run(case, ctx):
    API, _ = R.mods()
    e = R.build(case["world"])
    names = list(e.bodies)
    faulter = F.Faulter()
    for op in case["ops"]:
        dt = e.params.time_step * op.get("f", 1)
        if op.get("reanchor"):  # the client re-attaches its joints where the bodies are now
            for h in case["world"]["hinges"]:
                API.set_hinge(e, h["name"], h["parent"], h["child"], e.bodies[h["parent"]].r + 0.3 * case["world"].get("L", 1.0),
                              np.array(h["axis"]), "world")
        rb = R.ref_bodies(e)
        if op["op"] == "fault":
            if faulter.run(lambda: API.simulate(e, dt), op["point"]):
                ctx.fault("call-failure")
            continue
        pre = R.ref_predict(rb, dt)
        API.simulate(e, dt, op["prof"])
        after = R.snap(e)
        links = [(a, b) for a, b, *_ in R.contacts(e)]
        # anchors of each hinge before the step, to bound the torque of a hinge whose two sides have drifted apart
        drift = {}
        for h in case["world"]["hinges"]:
            links.append((h["parent"], h["child"]))
            hh = e.hinges[h["name"]]
            P, C = rb[h["parent"]], rb[h["child"]]
            d = np.linalg.norm(P.r + P.R @ np.array(hh.arm_p) - C.r - C.R @ np.array(hh.arm_c))
            for x in (h["parent"], h["child"]):
                drift[x] = max(drift.get(x, 0.0), d)
        for g in groups(names, links):
            if len(g) < 2 or any(rb[n].fixed for n in g):
                continue
            c = sum(rb[n].mass * rb[n].r for n in g) / sum(rb[n].mass for n in g)
            dP, dL, sP, sL, sI = np.zeros(3), np.zeros(3), 0.0, 0.0, 0.0
            post_p = np.zeros(3)
            for n in g:
                b = rb[n]
                dp = b.mass * (after[n][2] - pre[n][0])
                dl = b.I @ (after[n][3] - pre[n][1])
                dP += dp
                dL += np.cross(b.r - c, dp) + dl
                sP += np.linalg.norm(dp) + b.mass * np.linalg.norm(pre[n][0]) * 1e-3
                sL += np.linalg.norm(np.cross(b.r - c, dp)) + np.linalg.norm(dl)
                sI += np.linalg.norm(dp)
                # positional corrections are internal as well
                post_p += b.mass * (after[n][0] - b.r - dt * after[n][2])
            check(np.linalg.norm(dP) <= 1e-9 * sP + 1e-12, "momentum-changed",
                  lambda: "group %s: contacts and joints changed the momentum by %s" % (g, dP))
            check(np.linalg.norm(post_p) <= 1e-8 * sum(rb[n].mass for n in g) * (1 + max(np.abs(after[n][0]).max() for n in g)),
                  "centre-of-mass-displaced", lambda: "group %s: positions were corrected by a net %s" % (g, post_p))
            dmax = max([drift.get(n, 0.0) for n in g])
            nl = sum(1 for a, b in links if a in g)
            if dmax > 1e-9 and nl > 1:
                ctx.count("angular-skipped-drifted-joint")
                continue
            check(np.linalg.norm(dL) <= 1e-8 * (sL + sP) + 1.01 * sI * dmax + 1e-12, "angular-momentum-changed",
                  lambda: "group %s: contacts and joints changed the angular momentum by %s (scale %g)" % (g, dL, sL))
            if sL > 0:
                ctx.count("groups-checked")
        ctx.sig(len(names), len(links), len(e.hinges), e.params.use_bounce, e.params.use_pre_stabilization,
                e.params.use_post_stabilization)
        ctx.sim_time += dt
        ctx.event("step", len(links), digest(after))
