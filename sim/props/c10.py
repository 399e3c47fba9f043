"""C10: contact detection: every reported contact is geometrically true in the pose the step started from, and triangles
that clearly touch another body are never missed, whatever happened before."""
import numpy as np

from sim import faults as F
from sim import geom as G
from sim import rigid as R
from sim.core import Rng, check, digest

CASES = {"quick": 420, "thorough": 9000}
SIG_RULE = "distinct (operation kinds, contact counts per step, K, chunk size) histories"
SHRINK = ("ops",)
REAL = "rigid API, bounding volume hierarchies, signed distance grids, complete stepping pipeline"
STUB = "the client (generated operation history), failing library calls"
ASSUMPTIONS = ("convex shapes; which point of a triangle is reported is the optimiser's choice and not judged, only that it is a "
               "true point; triangles only partly within the envelope may be missed by the optimiser")


def gen(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    world = R.gen_world(rng.fork("w"), n=n, params={"resolution": rng.choice([8, 12, 16]), "envelope": rng.choice([0.05, 0.1, 0.2, 0.3]), "max_iterations": 4,
                                                    "use_post_stabilization": rng.chance(0.3)}, spread=rng.choice([0.4, 0.75, 1.2]))
    ops = []
    u = rng.random()
    lattice = u < 0.2
    if lattice:
        # bodies whose frames agree exactly: corners touch several bodies at the very same place
        cell = lambda x: round(4 * x) / 4  # noqa
        for s in world["shapes"]:
            s.pop("rot", None)
            s.pop("offset", None)
            if s["kind"] == "box":
                s["args"] = [1.0, 1.0, 1.0]
        for b in world["bodies"]:
            b["q"], b["r"] = [1.0, 0.0, 0.0, 0.0], [cell(x) for x in b["r"]]
    elif u < 0.55:
        # far away from the origin
        d = [x * rng.choice([100.0, 20000.0, 20000.0]) for x in rng.vec(-1, 1, 3)]
        for b in world["bodies"]:
            b["r"] = [x + y for x, y in zip(b["r"], d)]
    else:
        R.elsewhere(rng.fork("L"), world, units=0.4, far=0.0)
    L = world.get("L", 1.0)
    for _ in range(rng.choice([2, 4, 7])):
        k = rng.choice(["step"] * 4 + ["place", "place", "turn", "far", "type", "fault", "reshape", "envelope", "add", "rechunk", "rechunk", "permute", "permute"])
        op = {"op": k, "b": rng.randrange(8), "o": rng.randrange(8), "x": [L * x for x in rng.vec(-0.9, 0.9, 4)], "q": rng.quat(),
              "u": round(rng.random(), 5)}
        if lattice:
            op["x"], op["q"] = [cell(x) for x in op["x"]], [1.0, 0.0, 0.0, 0.0]
        if k == "fault":
            op["point"] = F.gen_point(rng)
        ops.append(op)
        if k != "step" and rng.chance(0.7):
            ops.append({"op": "step"})
    return {"world": world, "ops": ops}


class Pose:
    def __init__(self, b):
        self.name = b.name
        self.r, self.R = np.array(b.r, float), R.q_mat(b.q)
        self.V, self.T = np.array(b.shape.mesh.V, float), np.array(b.shape.mesh.T)
        g = b.shape.grid
        self.f = G.Field(g.min_coord, g.max_coord, (g.I, g.J, g.K), g.values)
        self.W = self.V @ self.R.T + self.r
        self.size = np.abs(self.V).max()

    def local(self, P):
        return (P - self.r) @ self.R


def check_field(b, rng_u):
    """The nodal values are the signed distances of the mesh (sampled nodes)."""
    p = Pose(b)
    n = p.f.n
    lin = (np.arange(40) * 7919 + int(rng_u * 1e6)) % int(np.prod(n))
    idx = np.stack(np.unravel_index(lin, tuple(n)), axis=1)
    P = p.f.lo + idx * p.f.h
    d = G.signed_distance(P, p.V, p.T)
    v = p.f.v[idx[:, 0], idx[:, 1], idx[:, 2]]
    L = np.ptp(p.V, axis=0).max()
    bad = np.abs(np.abs(d) - np.abs(v)) > 1e-6 * (L + np.abs(d))
    sgn = (np.abs(d) > 1e-6 * L) & (np.sign(d) != np.sign(v))
    check(not (bad | sgn).any(), "distance-field-wrong", lambda: "%s: node values %s, distances %s" % (
        b.shape.name, v[bad | sgn][:4], d[bad | sgn][:4]))
    lo, hi = p.V.min(axis=0), p.V.max(axis=0)
    check(np.all(p.f.lo < lo) and np.all(p.f.hi > hi), "distance-field-too-small", b.shape.name)


def judge(e, poses, order, env, ctx):
    """``poses``: what the bodies looked like when the step began."""
    per_pair, points = {}, {}
    for c in R.contacts(e):
        o, t, p, n, g = c
        check(o != t and o in poses and t in poses, "contact-bodies", "%s-%s" % (o, t))
        O, Tb = poses[o], poses[t]
        check(abs(np.linalg.norm(n) - 1) < 1e-9, "normal-not-unit", n)
        d2 = G.tri_closest(p[None], Tb.W[Tb.T[:, 0]], Tb.W[Tb.T[:, 1]], Tb.W[Tb.T[:, 2]])[0]
        on = np.flatnonzero(d2 < (1e-7 * Tb.size + 1e-13 * np.abs(Tb.W).max()) ** 2)
        check(len(on), "contact-not-on-body", lambda: "%s-%s: the point is %g away from the surface of %s" % (o, t, d2.min() ** 0.5, t))
        x = O.local(p)
        tol = 1e-9 * (O.size + np.abs(p).max())
        check(np.all(x >= O.f.lo - tol) and np.all(x <= O.f.hi + tol), "contact-outside-field", "%s-%s" % (o, t))
        v, _ = O.f.value_grad(x)
        check(abs(v - g) < 1e-8 * (O.size + np.abs(p).max()), "wrong-gap", lambda: "%s-%s: gap %.9g, distance field %.9g" % (o, t, g, v))
        check(g <= env * (1 + 1e-7), "contact-beyond-envelope", "%s-%s: gap %g, envelope %g" % (o, t, g, env))
        nl = n @ O.R
        gs = O.f.gradients(x)
        check(any(np.linalg.norm(k) < 1e-9 or np.abs(nl - k / np.linalg.norm(k)).max() < 1e-6 for k in gs), "wrong-normal",
              lambda: "%s-%s: normal %s, gradient %s" % (o, t, nl, gs[0] / np.linalg.norm(gs[0])))
        per_pair.setdefault((o, t), []).append(list(on))
        points.setdefault((o, t), []).append(p)
    for k, cands in per_pair.items():
        i = G.injective(cands)
        check(i is None, "duplicate-contact", lambda: "%s-%s: %d contacts on too few triangles" % (k[0], k[1], len(cands)))
    # completeness

    def reported(A, B, t):
        # two bodies may touch at one point that both have a triangle at: it is reported once, from either side
        if any(t in c for c in per_pair.get((B.name, A.name), [])):
            return True
        back = points.get((A.name, B.name))
        if back is None:
            return False
        T = A.W[A.T[[t]]]
        return G.tri_closest(np.array(back), T[:, 0], T[:, 1], T[:, 2]).min() < (1e-7 * A.size + 1e-13 * np.abs(A.W).max()) ** 2

    must = found = deep = 0
    bary6 = np.array([[i, j, 6 - i - j] for i in range(7) for j in range(7 - i)]) / 6.0
    boxes = e.params.K == 3 and e.params.contact_optimization_max_iterations >= 8
    bary = np.array([[i, j, 4 - i - j] for i in range(5) for j in range(5 - i)]) / 4.0
    for a in range(len(order)):
        for b in range(len(order)):
            if a == b:
                continue
            A, B = poses[order[a]], poses[order[b]]
            lo, hi = B.W.min(0) - 2 * env, B.W.max(0) + 2 * env
            if np.any(A.W.max(0) < lo) or np.any(A.W.min(0) > hi):
                check((B.name, A.name) not in per_pair and (A.name, B.name) not in per_pair, "contact-of-distant-bodies", "%s %s" % (A.name, B.name))
                continue
            X = B.local(A.W)
            d = G.signed_distance(X, B.V, B.T)
            margin = 0.2 * np.max(B.f.h)
            cand = [t for t in range(len(A.T)) if np.all(d[A.T[t]] <= env) and np.any(np.abs(d[A.T[t]]) <= 0.95 * env)]
            deepest = -B.f.v.min()
            for t in cand[:12]:
                S = bary @ X[A.T[t]]
                ds = G.signed_distance(S, B.V, B.T)
                if ds.min() < -0.6 * deepest:
                    continue
                out = np.any(S < B.f.lo, axis=1) | np.any(S > B.f.hi, axis=1)
                if max(u if x else B.f.value_grad(p)[0] for p, u, x in zip(S, ds, out)) > env - margin:
                    continue
                must += 1
                check(reported(A, B, t), "contact-missed", lambda: "triangle %d of %s lies within the envelope of %s (vertices %s) but gave no contact" % (
                    t, A.name, B.name, d[A.T[t]]))
                found += 1
            # triangles of which a part is deep within the envelope: how much of the depth the optimiser may overlook shrinks with its iterations
            if boxes:
                AT, BT = A.W[A.T], B.W[B.T]
                alo, ahi, blo, bhi = AT.min(axis=1), AT.max(axis=1), BT.min(axis=1), BT.max(axis=1)
                near = np.all((alo[:, None] - 2 * env < bhi[None] - 1e-7) & (blo[None] - 2 * env < ahi[:, None] - 1e-7), axis=2).any(axis=1)
                for t in np.flatnonzero(near)[:40]:
                    S = bary6 @ X[A.T[t]]
                    if np.any(S < B.f.lo) or np.any(S > B.f.hi):
                        continue
                    v = np.array([B.f.value_grad(p)[0] for p in S])
                    if v.min() > env - 0.15 * np.ptp(S, axis=0).max() or v.min() < 0.65 * B.f.v.min():
                        continue
                    deep += 1
                    check(reported(A, B, t), "deep-contact-missed", lambda: "triangle %d of %s reaches deep into the envelope of %s (%.4g to %.4g) but gave no contact" % (
                        t, A.name, B.name, v.min(), v.max()))
    ctx.count("contacts-judged", sum(len(x) for x in per_pair.values()))
    ctx.count("triangles-required", must)
    ctx.count("deep-triangles-required", deep)
    return per_pair


def contact_set(e):
    return sorted({(min(o, t), max(o, t), digest(p)) for o, t, p, n, g in R.contacts(e)})


def permuted(e, world, op, ctx):
    """Who was created first, who is fixed and what else is around has no influence on where two bodies touch."""
    API, _ = R.mods()
    s0 = R.snap(e)
    names = list(e.bodies)
    rng = Rng("permute", op["u"])
    order = names[:]
    rng.shuffle(order)
    spec = dict(world, materials=[], forces=[], hinges=[], bodies=[
        {"name": n, "shape": e.bodies[n].shape.name, "r": [0, 0, 0], "fixed": rng.chance(0.5)} for n in order],
        params=dict(world["params"]))
    twin = R.build(spec)
    twin.params.envelope = e.params.envelope
    R.load_state(twin, s0)
    API.simulate(e, e.params.time_step)
    API.simulate(twin, e.params.time_step)
    R.load_state(e, s0)
    a, b = contact_set(e), contact_set(twin)
    check(a == b, "contacts-depend-on-order", lambda: "%d contact places in a world of the bodies %s, %d in one of the same bodies "
          "created in another order and with other types (%s)" % (len(a), names, len(b), [(x["name"], x["fixed"]) for x in spec["bodies"]]))
    ctx.count("permuted-worlds")


def run(case, ctx):
    API, _ = R.mods()
    e = R.build(case["world"])
    faulter = F.Faulter()
    hist = []
    env = e.params.envelope
    for i, s in enumerate({b.shape.name: b for b in e.bodies.values()}.values()):
        check_field(s, 0.137 * (i + 1))
    for op in case["ops"]:
        k = op["op"]
        names = list(e.bodies)
        if k == "step":
            poses = {n: Pose(b) for n, b in e.bodies.items()}
            dt = e.params.time_step
            API.simulate(e, dt)
            pp = judge(e, poses, names, env, ctx)
            hist.append(sorted(len(v) for v in pp.values()))
            ctx.sim_time += dt
            ctx.event("step", digest(R.contacts(e)))
            continue
        n, o = names[op["b"] % len(names)], names[op["o"] % len(names)]
        if k == "place":
            API.set_position(e, n, e.bodies[o].r + np.array(op["x"]))
        elif k == "far":
            API.set_position(e, n, np.array(op["x"]) * 20)
        elif k == "turn":
            API.set_orientation(e, n, np.array(op["q"]))
        elif k == "type":
            API.set_body_type(e, n, "fixed" if op["u"] < 0.5 else "free")
        elif k == "reshape":
            shapes = sorted(e.shapes)
            API.connect_shape(e, n, shapes[int(op["u"] * len(shapes))])
            API.set_mass_properties(e, n, 1.0)
        elif k == "envelope":
            env = e.params.envelope = env * (0.5 + 0.5 * op["u"])
        elif k == "add":
            if len(names) < 6:
                shapes = sorted(e.shapes)
                R.add_body(e, {"name": "n%d" % len(names), "shape": shapes[int(op["u"] * len(shapes))],
                               "r": list(e.bodies[o].r + np.array(op["x"])), "q": op["q"]})
        elif k == "rechunk":
            # the size of the subtrees of the bounding volume hierarchies is a matter of speed only
            s0 = R.snap(e)
            API.simulate(e, e.params.time_step)
            c0 = sorted(digest(c) for c in R.contacts(e))
            R.load_state(e, s0)
            e.params.bvh_chunk_size = [1, 3, 5, 7, 9, 15, 63, 255][int(op["u"] * 8)]
            for m in names[: 1 + op["b"] % len(names)]:
                API.connect_shape(e, m, e.bodies[m].shape.name)
            API.simulate(e, e.params.time_step)
            c1 = sorted(digest(c) for c in R.contacts(e))
            R.load_state(e, s0)
            check(c0 == c1, "contacts-depend-on-chunking", lambda: "%d contacts, %d with chunk size %d" % (
                len(c0), len(c1), e.params.bvh_chunk_size))
        elif k == "permute":
            permuted(e, case["world"], op, ctx)
        elif k == "fault":
            if faulter.run(lambda: API.simulate(e, e.params.time_step), op["point"]):
                ctx.fault("call-failure")
        ctx.event(k, n)
    ctx.sig([o["op"] for o in case["ops"]], hist, e.params.K, e.params.bvh_chunk_size)
