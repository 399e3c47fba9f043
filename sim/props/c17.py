"""C17: scene generators build what they declare: exactly the named bodies, with the declared number, size, place, material, density and
type, stones that do not overlap, the same scene in any frame and for the same random numbers, without touching the rest of the world."""
import logging
import os
import random
import shutil
import tempfile

import numpy as np

from sim import boot
from sim import faults as F
from sim import rigid as R
from sim.core import Rng, check, digest

CASES = {"quick": 210, "thorough": 20000}
CHUNK = 3
SIG_RULE = "distinct (generator, counts of stones, position in the history, outcome)"
SHRINK = ("ops",)
REAL = "scene generators, rigid body API, mesh generators, mesh files of the repository"
STUB = "random numbers (seeded), the clock (normal, frozen, coarse or jumping), failing library calls (raised by the injector), a working directory without data files"
ASSUMPTIONS = "sizes are such that the building exists (pillars of a temple not narrower in depth than their round base, inner radius below outer radius, height above the arch or dome), overlap is looked for between convex stones, rings and gears"
KINDS = ["ground", "arch", "pillar", "tower", "dome", "lattice", "box_stack", "cube_hinge_chain", "pillar", "pillar", "arch", "arch", "dome", "tower", "tower", "colosseum", "pantheon", "temple", "temple", "box_stack", "lattice", "chainmail", "chainmail", "gear_train", "gear_train", "cube_hinge_chain", "cube_hinge_chain", "sandbox", "sandbox", "funnel", "glasses",
         "jack_lattice", "scene"]


def gen_call(rng, kind=None):
    k = kind or rng.choice(KINDS)
    if not kind and rng.chance(0.015):
        k = rng.choice(["rock_slide", "poles"])     # slow to build
    u = lambda a, b: round(rng.uniform(a, b), 3)
    many = rng.choice([3, 6]) if rng.chance(0.12) else 1
    n = lambda a, b: rng.randint(a, b * many if b > 2 else b)
    a = {}
    if k in ("ground", "pillar", "arch", "dome", "tower", "colosseum", "pantheon", "lattice", "jack_lattice"):
        a.update(r=rng.vec(-5, 5, 3), q=[rng.uniform(-1, 1) for _ in range(4)] if rng.chance(0.8) else [1.0, 0, 0, 0])
    if k == "pillar":
        a.update(width=u(0.5, 2), height=u(2, 6), depth=u(0.5, 2), stones=n(1, 4))
    elif k == "arch":
        w = u(1, 4)
        a.update(width=w, height=w / 2 + u(0.5, 3), depth=u(0.2, 1), pier_stones=n(1, 4), arch_stones=rng.choice([3, 5, 7, 9]) + (12 if many > 1 else 0))
    elif k == "dome":
        a.update(inner_radius=u(2, 4), layers=n(1, 4), segments=n(3, 9))
        a["outer_radius"] = a["inner_radius"] + u(0.2, 1)
    elif k in ("tower", "colosseum", "pantheon"):
        a.update(inner_radius=u(2, 4))
        a["outer_radius"] = a["inner_radius"] + u(0.3, 1)
        if k == "tower":
            a.update(height=u(1, 6), layers=n(1, 4), segments=n(3, 9), use_cubes=rng.chance(0.3))
        elif k == "colosseum":
            a.update(levels=n(1, 2), arches=n(5, 8))
            a["height"] = a["levels"] * u(4, 7)
        else:
            a.update(height=a["outer_radius"] + u(1, 4), layers=n(1, 3), segments=n(4, 8))
        if rng.chance(0.3):
            a["safety_factor"] = rng.choice([0.9, 0.75])
    elif k == "temple":
        w = u(0.6, 1.5)    # the pillars are round: their base needs 0.9 of the width also along the depth
        a.update(I_pillars=rng.choice([4, 4, 6]), K_pillars=rng.choice([4, 4, 7]), pillar_width=w, pillar_height=u(2, 4), pillar_depth=round(w * u(0.9, 1.6), 4), pillar_stones=n(1, 2))
    elif k == "box_stack":
        a.update(box_width=u(0.3, 2), box_height=u(0.3, 2), box_depth=u(0.3, 2), K_boxes=n(1, 6))
    elif k == "cube_hinge_chain":
        a.update(cube_edge_length=u(0.5, 10), K_cubes=rng.choice([1, 2, 3, 4, 6, 12]))
    elif k in ("lattice", "jack_lattice", "sandbox", "funnel", "glasses"):
        w, h, d = u(2, 8), u(2, 8), u(2, 8)
        I, J, K = n(1, 3), n(1, 3), n(1, 2)
        if many > 1:
            J = rng.randint(1, 2)
        if k in ("lattice", "jack_lattice"):
            a.update(width=w, height=h, depth=d, I=I, J=J, K=K, use_random_orientation=rng.chance(0.5))
            if k == "lattice" and rng.chance(0.4):
                a["q_body"] = rng.quat()
        elif k == "sandbox":
            flat = rng.randrange(4)
            w, h, d = [round(x / 3, 3) if i == flat else x for i, x in enumerate((w, h, d))]
            a.update(box_width=w, box_height=h, box_depth=d, I_grains=I, J_grains=J, K_grains=K)
        else:
            p = "funnel" if k == "funnel" else "glass"
            a.update({p + "_height": u(2, 6), p + "_radius": u(2, 6), "grid_width": w, "grid_height": h, "grid_depth": d, "I": I, "J": J, "K": K, "use_random_orientation": rng.chance(0.5)})
    elif k == "chainmail":
        a.update(major_radius=u(1.5, 3), columns=n(1, 3), rows=n(1, 2), stretch=u(0, 1.2), pinned=rng.chance(0.7))
        a["minor_radius"] = a["major_radius"] * u(0.1, 0.24)
    elif k == "rock_slide":
        a.update(pile_width=u(2, 8), pile_height=u(2, 8), pile_depth=u(2, 8), I_rocks=n(1, 3), J_rocks=n(1, 2), K_rocks=n(1, 2))
    elif k == "poles":
        a.update(pole_height=u(1, 3), pole_radius=u(0.05, 0.2), I_poles=n(1, 4), K_poles=n(1, 4), grid_width=u(2, 8), grid_height=u(2, 8), grid_depth=u(2, 8), I_grid=n(1, 3), J_grid=n(1, 2), K_grid=n(1, 3))
    elif k == "gear_train":
        a.update(N=rng.choice([1, 2, 3, 4, 4, 6]))
    if k != "scene":
        L = rng.choice([1e-3, 0.02, 40.0]) if rng.chance(0.3) and k not in ("gear_train", "rock_slide", "ground") else 1.0
        if L != 1.0:
            for x, v in a.items():
                if x == "r":
                    a[x] = [c * L for c in v]
                elif isinstance(v, float) and x not in ("stretch", "safety_factor"):
                    a[x] = v * L
        return {"k": k, "a": a, "L": L, "density": u(0.2, 30), "material": rng.choice(["default", "stone", "wood"])}
    if k == "scene":
        return {"k": k, "a": {}, "name": rng.choice(["pillar", "arch", "box_stack", "cube_hinge_chain", "dome", "tower", "pantheon", "pillar", "temple", "gear_train", "glasses", "poles"]), "density": 1.0, "material": "default"}


def gen(rng, tier):
    ops = []
    for i in range(rng.choice([1, 2, 2, 3])):
        op = {"op": "build" if i == 0 else rng.choice(["build", "build", "build", "fault", "no-data", "invalid"]), "call": gen_call(rng), "seed": rng.randrange(1 << 30)}
        if i == 0 and rng.chance(0.2):
            op["call"] = gen_call(rng, "scene")
        if op["op"] == "fault":
            op["point"] = F.gen_point(rng)
        if op["op"] == "no-data":
            while op["call"]["k"] not in ("funnel", "glasses", "jack_lattice"):
                op["call"] = gen_call(rng)
        ops.append(op)
    return {"ops": ops, "clock": rng.choice(["normal", "frozen", "coarse", "jumpy"])}


def seed_all(s):
    random.seed(s)
    np.random.seed(s % (1 << 32))


def args_of(call, API, e, frame):
    a = dict(call["a"])
    if "q" in a:
        a["r"], a["q"] = (np.array(a["r"], float), R.q_unit(np.array(a["q"], float))) if frame else (np.zeros(3), np.array([1.0, 0, 0, 0]))
    return a


def build(P, API, e, call, frame=True):
    k = call["k"]
    if k == "scene":
        from rainbow.simulators.prox_rigid_bodies.scenes.create_scene import create_scene
        return create_scene(e, call["name"])
    a = args_of(call, API, e, frame)
    if "q_body" in a:
        a["q_body"] = np.array(a["q_body"])
    if k == "lattice":
        V = call.get("L", 1.0) * np.array([[0, 0, 0], [0.3, 0, 0], [0, 0.2, 0], [0, 0, 0.4]])
        T = np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])
        names = []
        for i in range(2):
            n = "lattice%d_%d" % (len(e.shapes), i)
            API.create_shape(e, n, API.create_mesh(V * (i + 1), T))
            names.append(n)
        a["shape_names"] = names
    return getattr(P, "create_" + k)(e, density=call["density"], material_name=call["material"], **a)


def world(b):
    return b.shape.mesh.V @ R.q_mat(b.q).T + b.r


def state(e, names):
    return {n: (np.array(b.r), np.array(b.q), np.array(b.v), np.array(b.w), b.mass, np.array(b.inertia), b.idx, b.shape.name if b.shape else None, b.is_fixed, b.material, sorted(f.name for f in b.forces))
            for n, b in e.bodies.items() if n in names}


def volume(V, T):
    P = V[T]
    return np.einsum("ij,ij->i", P[:, 0], np.cross(P[:, 1], P[:, 2])).sum() / 6


def halfspaces(V, T):
    P = V[T]
    n = np.cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0])
    L = np.linalg.norm(n, axis=1)
    ok = L > 1e-9 * L.max()
    n = n[ok] / L[ok, None]
    return n, np.einsum("ij,ij->i", n, P[ok, 0])


def inside(V, hs):
    n, d = hs
    return -(V @ n.T - d).max(1)    # > 0: depth of the point


def no_overlap(bodies, where, tol=1e-6):
    """Convex bodies do not overlap: no vertex, edge or face centre of one lies inside another."""
    W = [world(b) for b in bodies]
    H, S, ok = [], [], []
    for b, V in zip(bodies, W):
        T = np.asarray(b.shape.mesh.T)
        hs = halfspaces(V, T)
        P = V[T]
        H.append(hs)
        S.append(np.vstack([V, P.mean(1), (P[:, 0] + P[:, 1]) / 2, (P[:, 1] + P[:, 2]) / 2, (P[:, 2] + P[:, 0]) / 2, V.mean(0)[None]]))
        ok.append(inside(V, hs).min() >= -1e-6 * np.ptp(V) and np.abs(inside(V, hs)).max() <= 1e-6 * np.ptp(V) if len(V) < 200 else False)
    lo, hi = np.array([v.min(0) for v in W]), np.array([v.max(0) for v in W])
    for i in range(len(W)):
        for j in range(i + 1, len(W)):
            sc = max(np.ptp(W[i], axis=0).max(), np.ptp(W[j], axis=0).max())
            if not (ok[i] and ok[j]) or (np.minimum(hi[i], hi[j]) - np.maximum(lo[i], lo[j])).min() <= tol * sc:
                continue
            d = max(inside(S[j], H[i]).max(), inside(S[i], H[j]).max())
            check(d <= tol * sc, "stones-overlap", lambda: "%s: %s and %s overlap by %.4g" % (where, bodies[i].name, bodies[j].name, d))
    return int(sum(ok))


UNIT = [1.0]    # the length unit of the scene under test


def near(a, b, tol=1e-7):
    return np.abs(np.asarray(a, float) - np.asarray(b, float)).max() <= tol * (UNIT[0] + np.abs(np.asarray(b, float)).max())


def bounds(call, new, where):
    """What the generator documents about number, size and place, in the frame of the building."""
    k, a = call["k"], call["a"]
    if k == "scene":
        return
    V = np.vstack([world(b) for b in new])
    if "q" in a:
        Rm = R.q_mat(R.q_unit(np.array(a["q"], float)))
        V = (V - np.array(a["r"])) @ Rm
    lo, hi = V.min(0), V.max(0)
    fixed = [b for b in new if b.is_fixed]
    n = len(new)
    bad = lambda what, want: check(False, what, "%s: %s: %d bodies within %s .. %s, declared %s" % (where, call, n, lo, hi, want))
    if k == "ground":
        near([lo, hi], [[-50, -1, -50], [50, 0, 50]]) or bad("size", "the top at the origin")
        n == 1 == len(fixed) or bad("count", "one fixed body")
    elif k == "pillar":
        n == 4 + a["stones"] or bad("count", 4 + a["stones"])
        w = max(0.9 * a["width"], a["depth"])
        near([lo[:2], hi[:2]], [[-a["width"] / 2, 0], [a["width"] / 2, a["height"]]]) and abs(hi[2] - lo[2] - w) <= 0.02 * w or bad("size", (a["width"], a["height"], w))
    elif k == "arch":
        n == 2 * a["pier_stones"] + a["arch_stones"] or bad("count", "")
        top = a["height"] - a["width"] / 2 * (1 - np.cos(np.pi / a["arch_stones"] / 2))
        near([lo, hi], [[-a["width"] / 2, 0, -a["depth"] / 2], [a["width"] / 2, top, a["depth"] / 2]]) or bad("size", (a["width"], top, a["depth"]))
    elif k == "dome":
        n == a["layers"] * a["segments"] or bad("count", a["layers"] * a["segments"])
        d = np.linalg.norm(V, axis=1)
        near([d.min(), d.max(), lo[1]], [a["inner_radius"], a["outer_radius"], 0]) or bad("size", (d.min(), d.max()))
        near(hi[1], a["outer_radius"] * np.sin(np.pi / 2 * a["layers"] / (a["layers"] + 1))) or bad("size", "the height of the layers")
    elif k in ("tower", "pantheon", "colosseum"):
        d = np.hypot(V[:, 0], V[:, 2])
        s = a.get("segments", a.get("arches"))
        ro, ri = a["outer_radius"], a["inner_radius"]
        if k == "tower":
            n == a["layers"] * s or bad("count", a["layers"] * s)
            near([lo[1], hi[1]], [0, a["height"]]) or bad("size", "height")
            # the stones are narrowed by the safety factor, and those of a layer stand over the joints of the layer below
            half = np.tan(np.pi / s) * a.get("safety_factor", 0.99)
            near(d.max(), np.hypot(ro, half * (ri if a["use_cubes"] else ro))) or bad("size", "stones of %s of the full width" % a.get("safety_factor", 0.99))
            at = [np.sort(np.arctan2(P[:, 2], P[:, 0]) % (2 * np.pi / s)) for P in V.reshape(n, -1, 3).mean(1).reshape(a["layers"], s, 3)]
            for l in range(a["layers"] - 1):
                turn = (at[l + 1][0] - at[l][0]) % (2 * np.pi / s)
                abs(turn - np.pi / s) < 1e-6 or bad("place", "layer %d of a tower is turned by half a stone" % (l + 1))
        if k == "pantheon":
            n == 2 * a["layers"] * s or bad("count", 2 * a["layers"] * s)
            near(lo[1], 0) and a["height"] - ro < hi[1] <= a["height"] + 1e-9 * UNIT[0] or bad("size", "height")
        if k == "colosseum":
            n == a["levels"] * s * 20 or bad("count", a["levels"] * s * 20)
            near([lo[1], hi[1]], [0, a["height"]]) or bad("size", "height")
        d.max() <= ro / np.cos(np.pi / s) + 1e-7 * UNIT[0] and d.max() >= ro - 1e-7 * UNIT[0] or bad("size", "outer radius")
        k == "pantheon" or d.min() >= ri - 1e-7 * UNIT[0] and d.min() <= ri / np.cos(np.pi / s) + 1e-7 * UNIT[0] or bad("size", "inner radius")
    elif k == "temple":
        pw, pd, ph, Ip, Kp = a["pillar_width"], a["pillar_depth"], a["pillar_height"], a["I_pillars"], a["K_pillars"]
        ext = np.array([((2 * Ip - 1) + 6) * pw / 2, ((2 * Kp - 1) + 6) * pd / 2])
        near([lo[[0, 2]], hi[[0, 2]]], [-ext, ext]) and near(lo[1], 0) or bad("size", "stairs of %s" % ext)
        # every pillar: plates of its width and depth under and on top of stones one above the other
        W = [world(b) for b in new]
        plates = [i for i in range(n) if near(np.ptp(W[i], axis=0)[[0, 2]], [pw, pd]) and np.ptp(W[i], axis=0)[1] < 0.09 * ph]
        ground = min((W[i].min(0)[1] for i in plates), default=0)
        feet = [i for i in plates if W[i].min(0)[1] <= ground + 0.11 * ph]    # those inside stand one step higher
        inner = len(range(3, Kp - 3, 3)) * (Ip - 2)
        len(feet) == 2 * Ip + 2 * (Kp - 2) + inner or bad("count", "%d pillars, found %d" % (2 * Ip + 2 * (Kp - 2) + inner, len(feet)))
        for i in feet:
            c = (W[i].min(0) + W[i].max(0)) / 2
            over = [j for j in range(n) if near(((W[j].min(0) + W[j].max(0)) / 2)[[0, 2]], c[[0, 2]], 0.02) and W[j].min(0)[1] >= W[i].min(0)[1] - 1e-6 * UNIT[0] and W[j].max(0)[1] <= ground + ph * (1 + 1e-6)]
            len(over) == 4 + a["pillar_stones"] or bad("count", "a pillar of %d stones, found %d" % (4 + a["pillar_stones"], len(over)))
        X = np.array([(w.min(0) + w.max(0)) / 2 for w in W])
        for ax in (0, 2) if Kp > 4 else (0,):
            Y = X * np.where(np.arange(3) == ax, -1, 1)
            np.abs(Y[:, None] - X[None]).max(2).min(1).max() <= 1e-6 * (UNIT[0] + np.abs(X).max()) or bad("place", "a symmetric building")
    elif k == "box_stack":
        n == a["K_boxes"] or bad("count", a["K_boxes"])
        near([lo[1], hi[1]], [0, n * a["box_height"]]) or bad("size", "height")
    elif k == "cube_hinge_chain":
        n == a["K_cubes"] or bad("count", a["K_cubes"])
        D = np.sqrt(2) * a["cube_edge_length"]
        L = n * D + (n - 1) * 0.05 * D
        near([lo[0], hi[0], lo[2], hi[2]], [-L / 2, L / 2, -a["cube_edge_length"] / 2, a["cube_edge_length"] / 2]) or bad("size", L)
        fixed == [new[0]] or bad("fixed", "the first cube")
    elif k in ("lattice", "jack_lattice", "sandbox", "funnel", "glasses"):
        dims = [a.get(x) for x in ({"lattice": ("width", "height", "depth"), "jack_lattice": ("width", "height", "depth"), "sandbox": ("box_width", "box_height", "box_depth")}.get(k) or ("grid_width", "grid_height", "grid_depth"))]
        num = [a.get(x, a.get(x + "_grains")) for x in "IJK"]
        extra = {"sandbox": 5, "funnel": 1, "glasses": 1}.get(k, 0)
        n == np.prod(num) + extra or bad("count", np.prod(num) + extra)
        len(fixed) == extra and all(b.is_fixed for b in new[n - extra:]) or bad("fixed", extra)
        if "q" in a:
            r0 = np.zeros(3)
        else:
            r0 = np.array([-dims[0] / 2, {"sandbox": 1.6 * dims[1], "funnel": 3 * a.get("funnel_height", 0), "glasses": 1.25 * a.get("glass_height", 0)}[k], -dims[2] / 2])
        got = np.array([b.r for b in new[:n - extra]])
        if "q" in a:
            got = (got - np.array(a["r"])) @ Rm
        want = np.array([[(i + 0.5) * dims[0] / num[0], (j + 0.5) * dims[1] / num[1], (l + 0.5) * dims[2] / num[2]] for i in range(num[0]) for j in range(num[1]) for l in range(num[2])]) + r0
        if not a.get("use_random_orientation", True):
            want_q = R.q_mat(np.array(a["q_body"])) if "q_body" in a else R.q_mat(R.q_axis_angle([1, 0, 0], -np.pi / 2)) if k == "glasses" else np.eye(3)
            if "q" in a:
                want_q = Rm @ want_q
            for b in new[:n - extra]:
                turned = R.q_mat(b.q)
                check(near(turned, want_q), "orientation", lambda: "%s: %s is turned by %s" % (where, b.name, turned))
        if k == "lattice" and n > 1:
            check(len({b.shape.name for b in new}) == 2, "shapes-unused", where)
        near(got, want) or bad("place", "a lattice from %s by %s" % (r0, dims))
        if k == "sandbox":
            Wf = np.vstack([world(b) for b in fixed])
            t = 0.1 * dims[1]
            near([Wf.min(0), Wf.max(0)], [[-dims[0] / 2 - t, 0, -dims[2] / 2 - t], [dims[0] / 2 + t, dims[1] + t, dims[2] / 2 + t]]) or bad("size", "a box of %s" % dims)
            cell = 0.9 * min(dims[i] / num[i] for i in range(3))
            for b in new[:n - extra]:
                W = world(b)
                D = np.linalg.norm(W[:, None] - W[None], axis=2).max()
                cell * (1 - 1e-9) <= D <= cell * 1.7321 or bad("size", "grains of %s, %s is %s across" % (cell, b.name, D))
            # the inside of the box is free
            for b in fixed:
                W = world(b)
                c = (np.maximum(W.min(0), [-dims[0] / 2, t, -dims[2] / 2]) - np.minimum(W.max(0), [dims[0] / 2, dims[1] + t, dims[2] / 2])).max()
                c >= -1e-9 * UNIT[0] or bad("size", "the inside of the box is not free")
        if k in ("funnel", "glasses"):
            Wf = world(fixed[0])
            h, rad = a.get("funnel_height", a.get("glass_height")), a.get("funnel_radius", a.get("glass_radius"))
            near(np.ptp(Wf, axis=0), [2 * rad, h, 2 * rad]) or bad("size", "extent %s" % np.ptp(Wf, axis=0))
    elif k == "chainmail":
        c, r = a["columns"], a["rows"]
        n == (c + 1) * (r + 1) + (r + 1) * c + r * (c + 1) or bad("count", "")
        X = np.array([b.r for b in new])
        rad = np.linalg.norm(X - (X.min(0) + X.max(0)) / 2, axis=1)
        corner = sorted(np.argsort(-rad, kind="stable")[:4])
        want = [new[i] for i in corner] if a["pinned"] else []
        fixed == want or bad("fixed", "the corners" if a["pinned"] else "none")
        M, m = a["major_radius"], a["minor_radius"]
        delta = 2 * M + (2 * M - 4 * m) * min(1, a["stretch"])
        near(np.ptp(X, axis=0), [c * delta, 0, r * delta]) or bad("size", delta)
        near((X.min(0) + X.max(0)) / 2, 0) or bad("place", "centred")
        if (2 * M - 4 * m) * min(1, a["stretch"]) > 3.0 * m and a["stretch"] < 0.95:
            ax = np.array([R.q_mat(b.q)[:, 2] for b in new])
            # the axis of a ring in its body frame is the direction of least extent
            ax = np.array([R.q_mat(b.q)[:, int(np.argmin(np.ptp(b.shape.mesh.V, axis=0)))] for b in new])
            th = np.linspace(0, 2 * np.pi, 73)[:-1]
            for i in range(n):
                e1 = np.cross(ax[i], [0.3, 0.5, 0.8])
                e1 /= np.linalg.norm(e1)
                C = X[i] + M * (np.cos(th)[:, None] * e1 + np.sin(th)[:, None] * np.cross(ax[i], e1))
                for j in range(n):
                    if i != j:
                        hgt = (C - X[j]) @ ax[j]
                        rr = np.linalg.norm(C - X[j] - hgt[:, None] * ax[j], axis=1)
                        dist = np.hypot(rr - M, hgt).min()
                        check(dist >= 2 * m * 0.97, "rings-overlap", lambda: "%s: rings %d and %d come within %.4g, tubes are %.4g thick" % (where, i, j, dist, 2 * m))
    elif k == "rock_slide":
        n == 21 + a["I_rocks"] * a["J_rocks"] * a["K_rocks"] or bad("count", "")
        fixed == new[:1] or bad("fixed", "the mountains")
        near(world(new[0]), new[0].shape.mesh.V @ R.q_mat(new[0].shape.q).T + new[0].shape.r) or bad("place", "the mountains where the file has them")
    elif k == "poles":
        g = a["I_grid"] * a["J_grid"] * a["K_grid"]
        n == g + a["I_poles"] * a["K_poles"] or bad("count", "")
        fixed == new[g:] or bad("fixed", "the poles")
        Wp = np.array([[world(b).min(0)[1], world(b).max(0)[1]] for b in fixed])
        Wp2 = np.array([[world(b)[:, [0, 2]].min(0), world(b)[:, [0, 2]].max(0)] for b in fixed])
        P2 = np.array([b.r[[0, 2]] for b in fixed])
        np.abs(Wp2).max(axis=(0, 1))[0] <= a["grid_width"] / 2 + 1e-6 * UNIT[0] and np.abs(Wp2).max(axis=(0, 1))[1] <= a["grid_depth"] / 2 + 1e-6 * UNIT[0] or bad("place", "poles within the grid")
        (len({tuple(np.round(p / UNIT[0], 6)) for p in P2}) == len(P2)) or bad("place", "poles at different places")
        near(Wp, np.tile([0, a["pole_height"]], (len(Wp), 1))) or bad("size", "poles standing at 0")
    elif k == "gear_train":
        n == a["N"] + 1 or bad("count", a["N"] + 1)
        fixed == new[-1:] or bad("fixed", "the ground")
        X, Z, tip, H = [], [], [], []
        for b in new[:-1]:
            W = world(b)
            d = np.hypot(W[:, 0] - b.r[0], W[:, 2] - b.r[2])
            X.append((b.r[0], b.r[2]))
            Z.append(round(2 * (d.max() - 1)))
            A = np.arctan2(W[:, 2] - b.r[2], W[:, 0] - b.r[0])[d > d.max() - 1e-3]
            tip.append(np.angle(np.exp(1j * Z[-1] * A).mean()))     # Z times the direction of a tooth
            H.append((W[:, 1].min(), W[:, 1].max()))
        for i in range(a["N"] - 1):
            D = np.hypot(X[i + 1][0] - X[i][0], X[i + 1][1] - X[i][1])
            near(D, (Z[i] + Z[i + 1]) / 2, 1e-3) or bad("place", "gears of %d and %d teeth at distance %s" % (Z[i], Z[i + 1], D))
            # where the gears touch a tooth of one is between two teeth of the other
            w = np.arctan2(X[i + 1][1] - X[i][1], X[i + 1][0] - X[i][0])
            s = np.exp(1j * (Z[i] * w - tip[i] + Z[i + 1] * (w + np.pi) - tip[i + 1]))
            s.real < -0.9 or bad("mesh", "the teeth of gears %d and %d (of %d and %d teeth) are on each other: %.3f" % (i, i + 1, Z[i], Z[i + 1], s.real))
            min(H[i][1], H[i + 1][1]) - max(H[i][0], H[i + 1][0]) > 1e-6 or bad("mesh", "gears %d and %d are at different heights: %s, %s" % (i, i + 1, H[i], H[i + 1]))
        for i in range(a["N"]):
            for j in range(i + 2, a["N"]):
                min(H[i][1], H[j][1]) - max(H[i][0], H[j][0]) < 1e-6 or bad("mesh", "gears %d and %d are at the same height: %s, %s" % (i, j, H[i], H[j]))


def hinges(call, e, new, old, where):
    """Chains and gears turn about the axes they have to turn about."""
    k = call["k"]
    hs = [h for n, h in e.hinges.items() if n not in old]
    if k == "scene":
        k = call["name"]
    if k == "cube_hinge_chain":
        pairs = [(new[i], new[i + 1]) for i in range(len(new) - 1)]
        axis = [0, 0, 1]
    elif k == "gear_train":
        pairs = [(new[-1], b) for b in new[:-1]]
        axis = [0, 1, 0]
    else:
        pairs, axis = [], None
    check(len(hs) == len(pairs), "joints", lambda: "%s: %d hinges, %d declared" % (where, len(hs), len(pairs)))
    for (p, c) in pairs:
        h = next((h for h in hs if h.parent is p and h.child is c), None)
        check(h is not None, "joints", lambda: "%s: no hinge between %s and %s" % (where, p.name, c.name))
        O = []
        for b, so in ((p, h.socket_p), (c, h.socket_c)):
            Rb = R.q_mat(b.q)
            ax = Rb @ R.q_mat(so.q)[:, 2]
            check(np.abs(np.abs(ax @ np.array(axis, float)) - 1) <= 1e-7, "joint-axis", lambda: "%s: the hinge of %s and %s turns about %s" % (where, p.name, c.name, ax))
            O.append(Rb @ so.r + b.r)
        check(near(O[0], O[1]), "joint-origin", lambda: "%s: %s and %s" % (where, O[0], O[1]))
        if k == "cube_hinge_chain":
            check(near(O[0], (p.r + c.r) / 2), "joint-origin", where)
        else:
            check(near(O[0][[0, 2]], c.r[[0, 2]]), "joint-origin", lambda: "%s: the gear at %s turns about %s" % (where, c.r, O[0]))


def judge(e, call, names, before, hbefore, where, ctx):
    new = [b for n, b in e.bodies.items() if n not in before]
    k = call["k"]
    if k not in ("ground", "scene"):
        check(isinstance(names, list) and all(isinstance(n, str) for n in names), "names-not-a-list-of-names", lambda: "%s returns %s" % (where, str(names)[:300]))
        check(sorted(names) == sorted(b.name for b in new) and len(set(names)) == len(names), "names", lambda: "%s: returned %d names for %d new bodies" % (where, len(names), len(new)))
        new = [e.bodies[n] for n in names]
    check(len(new) > 0, "count", where)
    for b in new:
        check(b.material == call["material"], "material", lambda: "%s: %s has %s, declared %s" % (where, b.name, b.material, call["material"]))
        check(abs(np.linalg.norm(b.q) - 1) <= 1e-9 and not np.any(b.v) and not np.any(b.w), "state", lambda: "%s: %s" % (where, b.name))
        kk = call.get("name", k)
        if kk in ("rock_slide", "poles", "funnel", "glasses") and not b.is_fixed or kk in ("rock_slide", "funnel", "glasses"):
            continue        # meshes read from files need not be closed
        vol = volume(b.shape.mesh.V, b.shape.mesh.T)
        check(abs(b.mass - call["density"] * vol) <= 1e-6 * abs(call["density"] * vol) and b.mass > 0, "mass", lambda: "%s: %s has mass %s, density %s and volume %s declared" % (where, b.name, b.mass, call["density"], vol))
    if k in ("pillar", "arch", "dome", "tower", "colosseum", "pantheon", "temple", "temple", "box_stack", "lattice"):
        check(not any(b.is_fixed for b in new), "type", lambda: "%s: %s is fixed" % (where, [b.name for b in new if b.is_fixed]))
    hinges(call, e, new, hbefore, where)
    bounds(call, new, where)
    if k in ("pillar", "arch", "dome", "tower", "colosseum", "pantheon", "temple", "temple", "box_stack", "cube_hinge_chain") or k == "scene" and call["name"] not in ("gear_train", "glasses", "poles"):
        ctx.count("convex stones", no_overlap(new, where))
    if k == "scene":
        for b in new:
            check({"earth", "air"} <= {f.name for f in b.forces}, "forces", lambda: "%s: %s feels %s" % (where, b.name, [f.name for f in b.forces]))
            f = sum(fc.compute(b, b.r, b.q, b.v, b.w)[0] for fc in b.forces)     # at rest only the weight is felt
            check(f[1] < 0 and near(f / b.mass, [0, -9.81, 0]), "forces", lambda: "%s: %s at rest, of mass %s, is pulled by %s" % (where, b.name, b.mass, f))
        if call["name"] not in ("gear_train", "cube_hinge_chain"):
            floor = [b for b in new if b.is_fixed and near(world(b).max(0)[1], 0)]
            check(len(floor) == 1, "ground", lambda: "%s: the ground is %s" % (where, [b.name for b in floor]))
            for b in new:
                check(b is floor[0] or world(b)[:, 1].min() >= -1e-6, "ground", lambda: "%s: %s reaches into the ground, to %s" % (where, b.name, world(b)[:, 1].min()))


def run(case, ctx):
    with F.clock_seam(F.SimClock(Rng("c17-clock", len(case["ops"])), case["clock"])):
        simulate(case, ctx)


def simulate(case, ctx):
    import rainbow.simulators.prox_rigid_bodies.scenes as P
    API, MESH = R.mods()
    logging.getLogger("rainbow").addHandler(logging.NullHandler())

    def engine():
        e = API.create_engine()
        e.params.resolution = 5
        API.create_surfaces_interaction(e, "stone", "wood", 0.1, [0.5, 0.5, 0.5])
        return e
    cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix="c17-")
    try:
        os.chdir(boot.REPO)
        e = engine()
        scenes = 0
        for n, op in enumerate(case["ops"]):
            call, k = op["call"], op["op"]
            UNIT[0] = call.get("L", 1.0)
            where = "operation %d (%s %s)" % (n, k, call["k"] if call["k"] != "scene" else "scene " + call["name"])
            if call["k"] == "scene":
                scenes += 1
                if scenes > 1 or k != "build":
                    continue        # one scene per engine: its forces have fixed names
            before, hbefore = set(e.bodies), set(e.hinges)
            old = state(e, before)
            seed_all(op["seed"])
            out = "ok"
            if k == "build":
                names = build(P, API, e, call)
                judge(e, call, names, before, hbefore, where, ctx)
                # the same random numbers give the same scene, the frame moves it as a whole
                e2 = engine()
                seed_all(op["seed"])
                build(P, API, e2, call, frame=False)
                A, B = [b for x, b in e.bodies.items() if x not in before], list(e2.bodies.values())
                check(len(A) == len(B), "not-reproducible", where)
                if "q" in call["a"]:
                    Rm, r = R.q_mat(R.q_unit(np.array(call["a"]["q"], float))), np.array(call["a"]["r"])
                else:
                    Rm, r = np.eye(3), np.zeros(3)
                for x, y in zip(A, B):
                    check(near(world(x), world(y) @ Rm.T + r), "frame" if "q" in call["a"] else "not-reproducible", lambda: "%s: %s is at %s, expected at %s" % (where, x.name, x.r, Rm @ y.r + r))
            elif k == "no-data":
                os.chdir(tmp)
                try:
                    build(P, API, e, call)
                    out = "built"
                except Exception:
                    pass
                finally:
                    os.chdir(boot.REPO)
                check(out == "ok", "missing-data-ignored", where)
                ctx.fault("missing-data")
            elif k == "invalid" and call["k"] == "arch":
                bad = dict(call, a=dict(call["a"], arch_stones=2))
                try:
                    build(P, API, e, bad)
                    out = "built"
                except RuntimeWarning:
                    pass
                check(out == "ok" and set(e.bodies) == before, "invalid-accepted", where)
            elif k == "fault":
                rec = F.CallInjector()
                with rec:
                    build(P, API, engine(), call)
                inj = F.CallInjector(at=rec.pick(op["point"]["mode"], op["point"]["u"], op["point"]["v"]), exc=F.make_exc(op["point"]["exc"]))
                try:
                    with inj:
                        build(P, API, e, call)
                except (Exception, KeyboardInterrupt):
                    if inj.fired is None:
                        raise
                    ctx.fault("call-failure:" + op["point"]["exc"])
                mid, hmid = set(e.bodies), set(e.hinges)
                seed_all(op["seed"])
                if call["k"] != "scene":
                    judge(e, call, build(P, API, e, call), mid, hmid, where + ", tried again", ctx)
            now = state(e, before)
            if call["k"] == "scene":       # a scene connects its forces to every body
                old, now = ({x: s[:-1] for x, s in d.items()} for d in (old, now))
            check(digest(now) == digest(old), "changed-other-bodies", where)
            ctx.event(k, call["k"], len(e.bodies), len(e.hinges), digest([s[:6] for s in state(e, set(e.bodies)).values()]))
            ctx.sig(k, call["k"], len(e.bodies) - len(before), n, call["a"].get("layers", 0))
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
