"""C24: contact detection between soft bodies: every reported contact is geometrically true in the pose the step started from,
geometry within the envelope is never missed by either broad phase, self collisions are found, whatever happened before."""
import numpy as np
from scipy.spatial import ConvexHull

from sim import faults as F
from sim import geom as G
from sim import rigid as R
from sim import soft as S
from sim.core import Rng, check, digest

CASES = {"quick": 170, "thorough": 8000}
SIG_RULE = "distinct (operation, broad phase, K, number of contacts, self contacts, deformed) steps"
SHRINK = ("ops",)
REAL = "soft body API, bounding volume hierarchies, spatial hashing, signed distance grids, complete stepping pipeline"
STUB = "the client (generated operation history), failing library calls, the random offsets of the hash function"
ASSUMPTIONS = ("which point of a triangle is reported is the optimiser's choice and not judged, only that it is a true point; "
               "triangles that barely reach into the envelope may be missed by the optimiser; self collisions are looked for with spatial hashing only (as documented)")
OPS = ["step", "step", "step", "place", "place", "deform", "far", "type", "fault", "envelope", "table", "mode", "add", "offsets", "twin", "twin", "shift", "touch"]


def gen(rng, tier):
    if rng.chance(0.25):
        # a long beam, rolled up so that its ends pass through each other
        n = rng.choice([6, 8])
        th = rng.choice([0.5, 0.6])
        w = {"params": S.gen_params(rng), "materials": [S.gen_material(rng, "m0")], "interactions": [],
             "bodies": [{"name": "s0", "mesh": {"kind": "kuhn", "n": [n, 1, 1], "scale": [1.0, th, th]}, "material": "m0", "g": [0, 0, 0], "v": [0, 0, 0]}]}
        w["params"]["use_spatial_hashing"] = True
        w["roll"] = {"turns": round(rng.uniform(0.97, 1.12), 4), "rise": round(rng.uniform(0.15, 0.6), 4), "side": round(rng.uniform(-0.3, 0.3), 4), "q": rng.quat()}
        if rng.chance(0.4):
            w["bodies"].append(S.gen_world(rng, n=1, small=True)["bodies"][0])
            w["bodies"][1].update(name="s1", material="m0")
            for k in ("dirichlet", "traction"):
                w["bodies"][1].pop(k, None)
    else:
        w = S.gen_world(rng.fork("w"), n=rng.choice([2, 2, 3]), small=rng.chance(0.6), deformed=0.6, traction=0.1, dirichlet=0.15, tight=rng.chance(0.5), far=0.3)
    if rng.chance(0.08):
        w = S.gen_fan(rng.fork("fan"), {})
        if rng.chance(0.4):
            o = S.gen_world(rng, n=1, small=True)["bodies"][0]
            o.update(name="s1", material="m0")
            for k in ("dirichlet", "traction"):
                o.pop(k, None)
            w["bodies"].append(o)
    if "roll" not in w and "wind" not in w["bodies"][0] and rng.chance(0.6):
        # a small body on the surface of another one: all of its triangles are within the envelope
        V, T = S.make_mesh(w["bodies"][0]["mesh"])
        k = rng.choice([0.1, 0.15, 0.25])
        m = {"kind": rng.choice(["tet", "kuhn"]), "n": [1, 1, 1], "scale": [k, k, k * rng.choice([1, 0.7])], "rot": rng.quat()}
        t = T[rng.randrange(len(T))]
        f = V[[int(v) for v in rng.sample(list(t), 3)]]
        c = np.array([rng.random() for _ in range(3)])
        m["at"] = [float(round(x, 5)) for x in (c / c.sum()) @ f + np.array(rng.vec(-0.03, 0.03))]
        w["bodies"].append({"name": "p", "mesh": m, "material": w["bodies"][0]["material"], "g": [0, 0, 0], "v": rng.vec(-1, 1), "fixed": rng.chance(0.2)})
    p = w["params"]
    p.update(envelope=rng.choice([p["envelope"], 0.05, 0.1, 0.2]), max_iterations=3, resolution=rng.choice([7, 10]), contact_optimization_max_iterations=rng.choice([8, 20]), use_post_stabilization=rng.chance(0.1))
    ops = [{"op": "step"}]
    for _ in range(rng.choice([2, 4, 6])):
        k = rng.choice(OPS)
        op = {"op": k, "b": rng.randrange(8), "o": rng.randrange(8), "x": rng.vec(-0.6, 0.6, 4), "q": rng.quat(), "u": round(rng.random(), 5), "seed": rng.randrange(1 << 30)}
        if k == "fault":
            op["point"] = F.gen_point(rng)
        ops.append(op)
        if k not in ("step", "twin", "shift") and rng.chance(0.7):
            ops.append({"op": "step"})
    return {"world": w, "ops": ops}


def roll(X, r):
    c = X.mean(axis=0)
    Y = X - c
    L = Y[:, 0].max() - Y[:, 0].min()
    u = (Y[:, 0] - Y[:, 0].min()) / L
    th = 2 * np.pi * r["turns"] * u
    rad = L / (2 * np.pi * r["turns"]) + r["rise"] * u + Y[:, 1]
    Z = np.column_stack([rad * np.sin(th), rad * np.cos(th), Y[:, 2] + r["side"] * u])
    return Z @ R.q_mat(r["q"]).T + c


class Pose:
    def __init__(self, b):
        self.name, self.idx = b.name, b.idx
        self.X, self.x, self.T = np.array(b.x0), np.array(b.x), np.array(b.T)
        self.tris = np.array(b.surface)
        self.own = np.array([o[0] for o in b.owners])
        self.W = self.x[self.tris]
        self.lo, self.hi = self.W.min(axis=1), self.W.max(axis=1)
        D = self.X[self.T[:, 1:]] - self.X[self.T[:, :1]]
        self.bulky = np.abs(np.linalg.det(D)).sum() / 6 > 0.9 * ConvexHull(self.X).volume  # (almost) convex where it is at rest
        g = b.grid
        self.f = G.Field(g.min_coord, g.max_coord, (g.I, g.J, g.K), g.values)

    def bary(self, k, p):
        P = self.x[self.T[k]]
        w = np.linalg.solve((P[1:] - P[0]).T, np.asarray(p) - P[0])
        return np.concatenate([[1 - w.sum()], w])

    def rest(self, k, P):
        """Material positions of the world points P, seen by tetrahedron k."""
        return np.array([self.bary(k, p) @ self.X[self.T[k]] for p in P])

    def grad_to_world(self, k, g):
        D, D0 = self.x[self.T[k][1:]] - self.x[self.T[k][0]], self.X[self.T[k][1:]] - self.X[self.T[k][0]]
        return np.linalg.solve(D, D0 @ g)  # F^-T g with F = D^T D0^-T


def check_surface(b):
    """The surface is the faces that belong to one element only, each known to be owned by that element; the distance field
    knows the distance to it."""
    T = np.array(b.T)
    faces = {}
    for k, t in enumerate(T):
        for i in range(4):
            faces.setdefault(tuple(sorted(np.delete(t, i))), []).append(k)
    want = {f: o[0] for f, o in faces.items() if len(o) == 1}
    got = {tuple(sorted(int(v) for v in s)): int(o[0]) for s, o in zip(b.surface, b.owners)}
    check(got == want, "wrong-surface", lambda: "%s: %d faces, %d expected" % (b.name, len(got), len(want)))
    p = Pose(b)
    n = p.f.n
    lin = (np.arange(40) * 7919 + 13) % int(np.prod(n))
    idx = np.stack(np.unravel_index(lin, tuple(n)), axis=1)
    P = p.f.lo + idx * p.f.h
    d = G.signed_distance(P, p.X, oriented(p))
    v = p.f.v[idx[:, 0], idx[:, 1], idx[:, 2]]
    bad = (np.abs(np.abs(d) - np.abs(v)) > 1e-6 * (1 + np.abs(d))) | ((np.abs(d) > 1e-6) & (np.sign(d) != np.sign(v)))
    check(not bad.any(), "distance-field-wrong", lambda: "%s: node values %s, distances %s" % (b.name, v[bad][:4], d[bad][:4]))
    lo, hi = p.X.min(axis=0), p.X.max(axis=0)
    check(np.all(p.f.lo < lo) and np.all(p.f.hi > hi), "distance-field-too-small", b.name)


def oriented(p):
    """Surface triangles, turned outwards."""
    out = []
    for t, k in zip(p.tris, p.own):
        q = p.X[list(set(p.T[k]) - set(t))[0]]
        a, b, c = p.X[t]
        out.append(t if np.dot(np.cross(b - a, c - a), q - a) < 0 else t[::-1])
    return np.array(out)


def crossing(A, B):
    """+1: the triangles surely cross, -1: surely not, 0: too close to call."""
    best = -1
    sc = max(np.abs(A - A[0]).max(), np.abs(B - B[0]).max())
    for X, Y in ((A, B), (B, A)):
        n = np.cross(Y[1] - Y[0], Y[2] - Y[0])
        nn = np.linalg.norm(n)
        if nn < 1e-9 * sc * sc:
            return 0
        n = n / nn
        h = (X - Y[0]) @ n
        for i in range(3):
            p, q, a, b = X[i], X[(i + 1) % 3], h[i], h[(i + 1) % 3]
            m1 = min(max(a, b), -min(a, b)) / sc  # > 0 when the ends lie on different sides
            if m1 < -1e-7:
                continue
            if abs(a - b) < 1e-9 * sc:
                best = max(best, 0)
                continue
            x = p + (q - p) * a / (a - b)
            s = min(n @ np.cross(Y[(j + 1) % 3] - Y[j], x - Y[j]) / (np.linalg.norm(Y[(j + 1) % 3] - Y[j]) * sc) for j in range(3))
            m = min(m1, s)
            if m > 1e-7:
                return 1
            if m > -1e-7:
                best = max(best, 0)
    return best


def boxes_meet(A, i, B, j, env, slack):
    return np.all(A.lo[i] - 2 * env <= B.hi[j] + slack) and np.all(B.lo[j] - 2 * env <= A.hi[i] + slack)


def pairs(A, B, env, slack):
    """Triangle pairs whose boxes, blown up by the envelope, meet."""
    m = np.all((A.lo[:, None] - 2 * env <= B.hi[None] + slack) & (B.lo[None] - 2 * env <= A.hi[:, None] + slack), axis=2)
    return m


class Judge:
    def __init__(self, e, poses, ctx):
        self.e, self.poses, self.ctx = e, poses, ctx
        self.env = e.params.envelope
        self.hash = bool(e.params.use_spatial_hashing)
        self.boxes = self.hash or e.params.K == 3  # other bounding volumes are not boxes

    def self_pairs(self, P):
        """{(i, j): verdict} of the pairs of triangles of one body without common nodes that may pass through each other."""
        out = {}
        m = pairs(P, P, self.env, 1e-9)
        for i, j in zip(*np.nonzero(np.triu(m, 1))):
            if set(P.tris[i]) & set(P.tris[j]):
                continue
            v = crossing(P.W[i], P.W[j])
            if v >= 0:
                out[(i, j)] = v
        return out

    def run(self):
        e, env, ctx = self.e, self.env, self.ctx
        cs = S.contacts(e)
        selfp = {}
        seen = set()
        by_pair = {}
        for (a, b, ta, tb, wa, wb, p, n, g) in cs:
            A, B = self.poses[a], self.poses[b]
            what = "%s-%s" % (a, b)
            sc = 1 + np.abs(p).max()
            check(abs(np.linalg.norm(n) - 1) < 1e-9, "normal-not-unit", n)
            check(0 <= ta < len(A.T) and 0 <= tb < len(B.T), "no-such-element", what)
            check(ta in A.own and tb in B.own, "element-not-on-surface", what)
            for P, k, w in ((A, ta, wa), (B, tb, wb)):
                check(abs(w.sum() - 1) < 1e-9 * (1 + np.abs(w).max()), "weights-do-not-sum-to-one", what)
                q = w @ P.x[P.T[k]]
                check(np.abs(q - p).max() < 1e-9 * sc * (1 + np.abs(w).max()), "weights-do-not-reproduce-point", lambda: "%s: %s, the weights in element %d of %s give %s" % (what, p, k, P.name, q))
            # on a triangle of B that belongs to the element
            tol = 1e-7 * sc
            cand = [i for i in np.flatnonzero(B.own == tb) if G.tri_closest(p[None], *[B.W[i][None, v] for v in range(3)])[0, 0] < tol ** 2]
            check(cand, "contact-not-on-body", lambda: "%s: the point is not on a surface triangle of element %d of %s" % (what, tb, b))
            X = wa @ A.X[A.T[ta]]
            tl = 1e-9 * (sc + np.abs(X).max()) * (1 + np.abs(wa).max())
            check(np.all(X >= A.f.lo - tl) and np.all(X <= A.f.hi + tl), "contact-outside-field", what)
            v, _ = A.f.value_grad(X)
            check(abs(v - g) < 1e-8 * sc * (1 + np.abs(wa).max()), "wrong-gap", lambda: "%s: gap %.9g, distance field %.9g" % (what, g, v))
            check(g <= env + 1e-9, "contact-beyond-envelope", lambda: "%s: gap %g, envelope %g" % (what, g, env))
            ok = False
            for gr in A.f.gradients(X):
                m = A.grad_to_world(ta, gr)
                ok = ok or np.linalg.norm(m) < 1e-9 or np.abs(n - m / np.linalg.norm(m)).max() < 1e-6
            check(ok, "wrong-normal", lambda: "%s: normal %s, expected %s" % (what, n, m / np.linalg.norm(m)))
            key = (a, b, digest(p))
            check(key not in seen, "duplicate-contact", what)
            seen.add(key)
            # explained by a pair of triangles that are close
            own = np.flatnonzero(A.own == ta)
            if a == b:
                check(self.hash, "self-contact-without-hashing", what)
                if a not in selfp:
                    selfp[a] = self.self_pairs(A)
                check(any((min(i, j), max(i, j)) in selfp[a] for i in cand for j in own), "self-contact-of-separate-triangles",
                      lambda: "%s: triangle %s, element %d: they do not cross, or share a node" % (a, cand, ta))
            else:
                check(not self.boxes or any(boxes_meet(B, i, A, j, env, 1e-9 * sc) for i in cand for j in own), "contact-of-distant-triangles", what)
            by_pair.setdefault((a, b), []).append((p, ta, tb, g))
        must = self.complete(by_pair, selfp)
        ctx.count("contacts-judged", len(cs))
        ctx.count("triangles-required", must)
        ctx.count("self-contacts", sum(c[0] == c[1] for c in cs))
        return by_pair

    def reference(self, A, P, goal, its, key):
        """Does the textbook optimiser (conditional gradients, step 2/(i+2)), started anywhere, get into the envelope?  The kinks
        of the interpolated distance can hold it up for longer than the iterations it is given."""
        rng = Rng("fw", *key)
        for corner in list(range(3)) * 3:
            Q = P + np.array([rng.vec(-1, 1) for _ in range(3)]) * 1e-7 * np.abs(P - P[0]).max()
            x = Q[corner]
            for i in range(its):
                if np.any(x < A.f.lo) or np.any(x > A.f.hi):
                    return False
                s = Q[np.argmin((Q - x) @ A.f.value_grad(x)[1])]
                better = (s - x) @ A.f.value_grad(x)[1] < 0
                x = x + 2 / (i + 2) * (s - x)
                if not better:
                    break
            if A.f.value_grad(x)[0] > goal:
                return False
        return True

    def complete(self, by_pair, selfp):
        env, must = self.env, 0
        bary = np.array([[i, j, 6 - i - j] for i in range(7) for j in range(7 - i)]) / 6.0
        names = list(self.poses)
        for a in names:
            for b in names:
                A, B = self.poses[a], self.poses[b]  # A owns the field, B the triangle
                cs = by_pair.get((a, b), [])
                if not A.bulky:  # the optimiser may end in another dent of the distance field
                    self.ctx.count("not-convex")
                    continue
                if a == b:
                    if not self.hash:
                        continue
                    todo = [q for q, v in (selfp.get(a) or self.self_pairs(A)).items() if v > 0]
                    todo = todo + [(j, i) for i, j in todo]
                else:
                    m = pairs(B, A, env, -1e-7)
                    if not m.any():
                        check(not self.boxes or not cs or pairs(B, A, env, 1e-7).any(), "contact-of-distant-bodies", "%s %s" % (a, b))
                        continue
                    todo = list(zip(*np.nonzero(m)))
                    if not self.boxes:
                        todo = [(i, j) for i, j in todo if crossing(B.W[i], A.W[j]) > 0]
                judged = {}
                for i, j in todo:
                    k = A.own[j]
                    if (i, k) in judged or len(judged) > 150:
                        continue
                    judged[i, k] = True
                    Q = bary @ A.rest(k, B.W[i])
                    ing = np.all(Q >= A.f.lo, axis=1) & np.all(Q <= A.f.hi, axis=1)
                    if not ing.all():
                        continue
                    v = np.array([A.f.value_grad(q)[0] for q in Q])
                    size = np.ptp(Q, axis=0).max()
                    its = self.e.params.contact_optimization_max_iterations
                    # how much of the depth of a triangle the optimiser may overlook (its error shrinks with its iterations)
                    margin = 0.05 if its >= 20 else 0.15
                    if v.min() > env - margin * size or v.min() < 0.65 * A.f.v.min():
                        continue
                    must += 1
                    hit = [c for c in cs if G.tri_closest(c[0][None], *[B.W[i][None, x] for x in range(3)])[0, 0] < 1e-12]
                    if not hit and not self.reference(A, A.rest(k, B.W[i]), env - 0.01 * size, its, (i, int(k))):
                        self.ctx.count("hard-for-the-optimiser")
                        continue
                    check(hit, "contact-missed", lambda: "triangle %d of %s reaches deep into the envelope of %s as seen by element %d (distances %.4g to %.4g) but gave no contact" % (
                        i, b, a, k, v.min(), v.max()))
        return must


def places(e, selfs=True):
    return sorted({(c[0], c[1], digest(c[6])) for c in S.contacts(e) if selfs or c[0] != c[1]})


def rebuild(specs, w, e, d=None, **over):
    """The same bodies in a new engine with other parameters (which have to be set before bodies are created)."""
    bodies = []
    for b in specs:
        b = {k: v for k, v in b.items() if k not in ("deform", "traction", "wind")}
        if d is not None:
            b["mesh"] = dict(b["mesh"], at=[float(x) for x in np.array(b["mesh"].get("at", [0, 0, 0])) + d])
        bodies.append(b)
    params = {k: v for k, v in vars(e.params).items() if k != "time_stamp"}
    t = S.build(dict(w, bodies=bodies, params=dict(params, **over)))
    S.load_state(t, {n: (x + (0 if d is None else d), u) for n, (x, u) in S.snap(e).items()})
    for n, b in e.bodies.items():
        t.bodies[n].is_fixed = b.is_fixed
    return t


def twin(case, e, specs, op, ctx):
    """The broad phases are interchangeable, and so are their parameters."""
    if e.params.K != 3:
        return
    rng = Rng("twin", op["seed"])
    seen = []
    for hashing in (False, True):
        t = rebuild(specs, case["world"], e, use_spatial_hashing=hashing)
        if hashing:
            t.hash_grid.set_hash_table_size(rng.choice([1, 7, 53, 1000]))
            t.hash_grid.set_cell_size(t.hash_grid.cell_size * rng.choice([0.6, 1.0, 3.0]))
        S.step(t, t.params.time_step)
        seen.append(places(t, False))
    check(seen[0] == seen[1], "broad-phases-disagree", lambda: "bounding volumes lead to %d contacts, spatial hashing to %d (%d in common)" % (
        len(seen[0]), len(seen[1]), len(set(seen[0]) & set(seen[1]))))
    ctx.count("broad-phase-comparisons")
    ctx.count("compared-contacts", len(seen[0]))


def shifted(case, e, specs, op, ctx):
    """Bodies created elsewhere in the world touch each other just the same."""
    if any(len(b.dirichlet_conditions) for b in e.bodies.values()):
        return
    d = np.array(op["x"]) * 40
    f = rebuild(specs, case["world"], e)
    t = rebuild(specs, case["world"], e, d)
    S.step(f, f.params.time_step)
    S.step(t, t.params.time_step)
    na, nb = {}, {}
    for n, x in ((na, f), (nb, t)):
        for c in S.contacts(x):
            q = tuple(sorted((c[0], c[1])))
            n[q] = n.get(q, 0) + 1
    for q in set(na) | set(nb):
        x, y = na.get(q, 0), nb.get(q, 0)
        check(min(x, y) * 5 >= max(x, y) - 10, "contacts-depend-on-place", lambda: "%d contacts between %s, %d when the same bodies are created at a distance of %s" % (x, q, y, d.tolist()))
    ctx.count("shifted-worlds")


def run(case, ctx):
    API, _ = S.mods()
    F.seed_phi(1)
    w = case["world"]
    e = S.build({k: v for k, v in w.items() if k != "roll"})
    if "roll" in w:
        API.set_spatial_coordinates(e, "s0", roll(API.get_material_coordinates(e, "s0"), w["roll"]))
    faulter = F.Faulter()
    specs = list(w["bodies"])
    for b in e.bodies.values():
        check_surface(b)
    for op in case["ops"]:
        k = op["op"]
        names = list(e.bodies)
        if S.squashed(e):
            break
        if k == "step":
            # prescribed nodes are at their place from the start of a step
            if any(not np.array_equal(b.x[int(d.idx)], d.value) for b in e.bodies.values() for d in b.dirichlet_conditions):
                S.step(e, e.params.time_step)
                continue
            poses = {n: Pose(b) for n, b in e.bodies.items()}
            S.step(e, e.params.time_step)
            bp = Judge(e, poses, ctx).run()
            ctx.sim_time += e.params.time_step
            ctx.event("step", digest(S.contacts(e)))
            ctx.sig(op["op"], e.params.use_spatial_hashing, e.params.K, sorted(len(v) for v in bp.values())[:3], any(a == b for a, b in bp))
            continue
        n, o = names[op["b"] % len(names)], names[op["o"] % len(names)]
        b = e.bodies[n]
        if k == "place":
            x = b.x + (e.bodies[o].x.mean(axis=0) - b.x.mean(axis=0)) + np.array(op["x"]) if n != o else b.x + np.array(op["x"])
            API.set_spatial_coordinates(e, n, x)
        elif k == "touch" and n != o:
            # move next to the other body along a direction, to within or without the envelope
            d = np.array(op["x"]) / max(np.linalg.norm(op["x"]), 1e-3)
            h = S.support(e.bodies[o].x, d) + S.support(b.x, -d)
            API.set_spatial_coordinates(e, n, b.x + d * (h + e.params.envelope * (4 * op["u"] - 2)))
        elif k == "far":
            API.set_spatial_coordinates(e, n, b.x + np.array(op["x"]) * 30)
        elif k == "deform":
            Sm = (np.array(Rng("d", op["seed"]).vec(-0.15, 0.15, 4) * 3)[:9]).reshape(3, 3)
            API.set_spatial_coordinates(e, n, S.deform(b.x0 + (b.x.mean(axis=0) - b.x0.mean(axis=0)), {"q": op["q"], "S": Sm, "t": [0, 0, 0], "bend": (np.array(op["x"]) * 0.2).tolist()}))
        elif k == "type":
            API.set_type(e, n, "fixed" if op["u"] < 0.5 else "free")
        elif k == "envelope":
            e.params.envelope = [0.005, 0.02, 0.05, 0.15][int(op["u"] * 4)]
        elif k == "table":
            if op["u"] < 0.5:
                e.hash_grid.set_hash_table_size([1, 3, 50, 400, 2000][int(op["u"] * 10)])
            else:
                e.hash_grid.increment_hash_table_size(17)
        elif k == "mode":
            e = rebuild(specs, w, e, use_spatial_hashing=not e.params.use_spatial_hashing)
        elif k == "offsets":
            F.seed_phi(op["seed"])
        elif k == "add" and len(names) < 5:
            s = S.gen_world(Rng("add", op["seed"]), n=1, small=True)["bodies"][0]
            s.update(name="n%d" % len(names), material=case["world"]["materials"][0]["name"])
            for key in ("dirichlet", "traction"):
                s.pop(key, None)
            s["mesh"]["at"] = [float(x) for x in e.bodies[o].x.mean(axis=0) + 1.5 * np.array(op["x"])]
            S.add_body(e, s)
            specs.append(s)
            check_surface(e.bodies[s["name"]])
        elif k == "twin":
            twin(case, e, specs, op, ctx)
        elif k == "shift":
            shifted(case, e, specs, op, ctx)
        elif k == "fault":
            if faulter.run(lambda: API.simulate(e, e.params.time_step), op["point"]):
                ctx.fault("call-failure")
        ctx.event(k, n)
