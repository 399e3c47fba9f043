"""C13: the rigid body API against a model of what the client declared: valid calls do exactly what they say, invalid calls are
rejected and change nothing, failing calls are all-or-nothing and can be retried, and arrays are never shared with the client."""
import numpy as np

from sim import faults as F
from sim import jointlaw as JL
from sim import rigid as R
from sim.core import Rng, check, digest

CASES = {"quick": 2400, "thorough": 60000}
SIG_RULE = "distinct histories of (operation, outcome)"
SHRINK = ("ops",)
REAL = "the complete rigid body API, shapes, mass properties, distance fields, hinges, materials, steps"
STUB = "the client (generated operation history), failing library calls"
KINDS = (["body"] * 4 + ["shape"] * 3 + ["connect_shape"] * 4 + ["gravity", "damping"] + ["connect_force"] * 2 + ["position"] * 4 + ["orientation"] * 4 +
         ["velocity", "spin"] * 2 + ["mass"] * 3 + ["type"] * 2 + ["material"] * 2 + ["interaction"] * 3 + ["hinge", "set_hinge", "set_hinge"] +
         ["simulate"] * 3)


def gen(rng, tier):
    shapes = {"s%d" % i: R.gen_shape(rng.fork("s", i), "s%d" % i, offset=0.7) for i in range(3)}
    for s in shapes.values():
        if rng.chance(0.2):  # another unit of length
            L = rng.choice([0.001, 0.01, 30.0])
            s["args"] = [L * x for x in s["args"]]
            if "offset" in s:
                s["offset"] = [L * x for x in s["offset"]]
    ops = []
    for i in range(2):  # a sensible start, so that most histories get somewhere
        ops += [{"k": "shape", "n": "s%d" % i, "tf": True}, {"k": "body", "n": "b%d" % i}, {"k": "connect_shape", "n": "b%d" % i, "o": "s%d" % i},
                {"k": "mass", "n": "b%d" % i, "x": 1.5}, {"k": "position", "n": "b%d" % i, "v": [6.0 * i, 0, 0], "mf": False}]
    if rng.chance(0.3):
        rng.shuffle(ops)
    for _ in range(rng.choice([8, 16, 30])):
        k = rng.choice(KINDS)
        bad = rng.chance(0.12)
        op = {"k": k, "n": None}
        b, s = "b%d" % rng.randrange(4), "s%d" % rng.randrange(3)
        if k == "body":
            op.update(n=b)
        elif k == "shape":
            op.update(n=s, tf=rng.chance(0.85))
        elif k == "connect_shape":
            op.update(n=b, o=s)
        elif k == "gravity":
            op.update(n=rng.choice(["g0", "g1", "d0"]), x=rng.choice([-1.0, 0.0]) if bad else 9.8, v=rng.vec(-1, 1, 3))
        elif k == "damping":
            op.update(n=rng.choice(["d0", "d1", "g0"]), x=-0.1 if bad else 0.2, y=0.0 if rng.chance(0.1) else 0.1)
        elif k == "connect_force":
            op.update(n=b, o=rng.choice(["g0", "g1", "d0", "d1"]))
        elif k in ("position", "orientation"):
            op.update(n=b, v=rng.vec(-5, 5, 3) if k == "position" else [round(x * rng.choice([1, 1, 2.5]), 5) for x in rng.quat()], mf=rng.chance(0.5))
        elif k in ("velocity", "spin"):
            op.update(n=b, v=rng.vec(-2, 2, 3))
        elif k == "mass":
            op.update(n=b, x=round(rng.uniform(0.1, 20), 3))
        elif k == "type":
            op.update(n=b, o=rng.choice(["fixed", "Fixed", "FIXED", "free", "Free", "FREE"]) if not bad else rng.choice(["fIxed", "", "static"]))
        elif k == "material":
            op.update(n=b, o=rng.choice(["m0", "m1", "m2", "default"]))
        elif k == "interaction":
            op.update(n=rng.choice(["m0", "m1", "m2", "default"]), o=rng.choice(["m0", "m1", "m2", "default"]), x=-0.1 if bad else round(rng.random(), 3),
                      v=[round(rng.random(), 3) for _ in range(3)])
            if rng.chance(0.1):
                op["v"][rng.randrange(3)] = -0.5
        elif k == "hinge":
            op.update(n="h%d" % rng.randrange(2))
        elif k == "set_hinge":
            op.update(n="h%d" % rng.randrange(2), p=b, c="b%d" % rng.randrange(4), v=rng.vec(-2, 2, 3), a=[round(x, 4) for x in rng.unit()],
                      mode=rng.choice(["world", "body", "model"]) if not bad else "world frame")
        elif k == "simulate":
            op.update(x=0.0 if bad else rng.choice([0.01, 0.005]))
        if rng.chance(0.3):
            op["fault"] = F.gen_point(rng)
        ops.append(op)
    if rng.chance(0.5):      # names that are parts of, or nearly equal to, other names
        alike = {"b0": "b", "b1": "b0", "b2": "B", "b3": "b ", "m0": "m", "m1": "m0", "m2": "M", "g0": "g", "g1": "G", "d0": "", "d1": "gd", "h0": "h", "h1": "H"}
        if rng.chance(0.5):
            alike.update(m0="d", m1="default2", m2="Default")
        for op in ops:
            for f in ("n", "o", "p", "c"):
                if op.get(f) in alike:
                    op[f] = alike[op[f]]
    return {"shapes": shapes, "ops": ops, "params": R.gen_params(rng, resolution=8, max_iterations=3)}


class ApiModel:
    def __init__(self):
        self.bodies, self.shapes, self.forces, self.mats, self.hinges = {}, {}, {}, {("default", "default"): (0.0, (1.0, 1.0, 1.0))}, {}
        self.hm = JL.HingeModel()


def frames(s):
    return R.q_mat(s.q), np.array(s.r, float)


def invalid(m, op):
    k, n = op["k"], op["n"]
    body = n in m.bodies
    if k == "body":
        return body
    if k == "shape":
        return n in m.shapes
    if k == "connect_shape":
        return not body or op["o"] not in m.shapes
    if k == "gravity":
        return n in m.forces or op["x"] <= 0
    if k == "damping":
        return n in m.forces or op["x"] <= 0 or op["y"] <= 0
    if k == "connect_force":
        return not body or op["o"] not in m.forces or op["o"] in m.bodies[n]["forces"]
    if k in ("position", "orientation"):
        return not body or (op["mf"] and m.bodies[n]["shape"] is None)
    if k in ("velocity", "spin"):
        return not body
    if k == "mass":
        return not body or m.bodies[n]["shape"] is None
    if k == "type":
        return not body or op["o"] not in ("fixed", "Fixed", "FIXED", "free", "Free", "FREE")
    if k == "material":
        return not body or not any(op["o"] in p for p in m.mats)
    if k == "interaction":
        return tuple(sorted([n, op["o"]])) in m.mats or op["x"] < 0 or min(op["v"]) < 0
    if k == "hinge":
        return n in m.hinges
    if k == "set_hinge":
        return (n not in m.hinges or op["p"] not in m.bodies or op["c"] not in m.bodies or op["mode"] not in ("world", "body", "model") or
                (op["mode"] == "model" and m.bodies[op["p"]]["shape"] is None))
    if k == "simulate":
        return op["x"] <= 0
    raise KeyError(k)


def perform(e, op, case, meshes, scribble):
    """The call itself.  ``scribble``: arrays handed to the API that the client overwrites afterwards."""
    API, MESH = R.mods()
    k, n = op["k"], op["n"]

    def arr(v):
        a = np.array(v, float)
        scribble.append(a)
        return a
    if k == "body":
        API.create_rigid_body(e, n)
    elif k == "shape":
        API.create_shape(e, n, meshes[n], op["tf"])
    elif k == "connect_shape":
        API.connect_shape(e, n, op["o"])
    elif k == "gravity":
        API.create_gravity_force(e, n, op["x"], arr(op["v"]))
    elif k == "damping":
        API.create_damping_force(e, n, op["x"], op["y"])
    elif k == "connect_force":
        API.connect_force(e, n, op["o"])
    elif k == "position":
        API.set_position(e, n, arr(op["v"]), op["mf"])
    elif k == "orientation":
        API.set_orientation(e, n, arr(op["v"]), op["mf"])
    elif k == "velocity":
        API.set_velocity(e, n, arr(op["v"]))
    elif k == "spin":
        API.set_spin(e, n, arr(op["v"]))
    elif k == "mass":
        API.set_mass_properties(e, n, op["x"])
    elif k == "type":
        API.set_body_type(e, n, op["o"])
    elif k == "material":
        API.set_body_material(e, n, op["o"])
    elif k == "interaction":
        API.create_surfaces_interaction(e, n, op["o"], op["x"], arr(op["v"]))
    elif k == "hinge":
        API.create_hinge(e, n)
    elif k == "set_hinge":
        API.set_hinge(e, n, op["p"], op["c"], arr(op["v"]), arr(op["a"]), op["mode"])
    elif k == "simulate":
        API.simulate(e, op["x"])


def apply(m, op, e, meshes):
    """The model's transition for a valid call."""
    k, n = op["k"], op["n"]
    b = m.bodies.get(n)
    if k == "body":
        m.bodies[n] = {"r": np.zeros(3), "q": np.array([1.0, 0, 0, 0]), "v": np.zeros(3), "w": np.zeros(3), "shape": None, "fixed": False,
                       "forces": [], "material": "default", "density": None, "mass": 0.0, "inertia": np.zeros(3)}
    elif k == "shape":
        m.shapes[n] = {"tf": op["tf"]}
    elif k == "connect_shape":
        b["shape"] = op["o"]
    elif k == "gravity":
        u = np.array(op["v"], float)
        m.forces[n] = ("Gravity", op["x"], u / np.linalg.norm(u))
    elif k == "damping":
        m.forces[n] = ("Damping", op["x"], op["y"])
    elif k == "connect_force":
        b["forces"].append(op["o"])
    elif k in ("position", "orientation"):
        v = np.array(op["v"], float)
        if not op["mf"]:
            if k == "position":
                b["r"] = v
            else:
                b["q"] = v / np.linalg.norm(v)
        else:
            Rs, rs = frames(e.shapes[b["shape"]])
            Rm = R.q_mat(b["q"]) @ Rs.T
            if k == "position":
                b["r"] = Rm @ rs + v
            else:
                rm = b["r"] - Rm @ rs
                q = v / np.linalg.norm(v)
                b["q"] = R.q_mul(q, R.q_unit(e.shapes[b["shape"]].q))
                b["r"] = R.q_mat(q) @ rs + rm
    elif k == "velocity":
        b["v"] = np.array(op["v"], float)
    elif k == "spin":
        b["w"] = np.array(op["v"], float)
    elif k == "mass":
        b["density"] = (op["x"], b["shape"])
    elif k == "type":
        b["fixed"] = op["o"].lower() == "fixed"
    elif k == "material":
        b["material"] = op["o"]
    elif k == "interaction":
        m.mats[tuple(sorted([n, op["o"]]))] = (op["x"], tuple(op["v"]))
    elif k == "hinge":
        m.hinges[n] = None
    elif k == "set_hinge":
        m.hinges[n] = (op["p"], op["c"])
        fake = type("E", (), {})()
        fake.bodies = {}
        for x in (op["p"], op["c"]):
            o = type("B", (), {})()
            o.r, o.q, o.shape = m.bodies[x]["r"], m.bodies[x]["q"], e.shapes.get(m.bodies[x]["shape"])
            fake.bodies[x] = o
        m.hm.set(fake, n, op["p"], op["c"], op["v"], op["a"], op["mode"])


def agree(e, m, meshes, unit, deep=True):
    """First disagreement between the engine and the model, or None."""
    API, _ = R.mods()
    if list(e.bodies) != list(m.bodies) or list(e.shapes) != list(m.shapes) or list(e.forces) != list(m.forces) or list(e.hinges) != list(m.hinges):
        return "names: %s" % [list(x) for x in (e.bodies, e.shapes, e.forces, e.hinges)]
    tol = 1e-9
    for i, (n, b) in enumerate(m.bodies.items()):
        x = e.bodies[n]
        if x.idx != i or x.name != n:
            return "%s: index" % n
        for lab, get, want in (("r", API.get_position, b["r"]), ("v", API.get_velocity, b["v"]), ("w", API.get_spin, b["w"])):
            got = get(e, n)
            if np.abs(got - want).max() > tol * (1 + np.abs(want).max()):
                return "%s.%s is %s, expected %s" % (n, lab, got, want)
            got += 7.0
            if np.abs(get(e, n) - want).max() > tol * (1 + np.abs(want).max()):
                return "%s.%s: the getter hands out the engine's own array" % (n, lab)
        if not R.same_rotation(API.get_orientation(e, n), b["q"]):
            return "%s.q is %s, expected %s" % (n, API.get_orientation(e, n), b["q"])
        if API.is_fixed_body(e, n) != b["fixed"] or x.material != b["material"] or [f.name for f in x.forces] != b["forces"]:
            return "%s: type, material or forces" % n
        if (x.shape.name if x.shape else None) != b["shape"] or (x.bvh is None) != (b["shape"] is None):
            return "%s: shape" % n
        if x.shape is not None and sum(1 for c in x.bvh.chunks for t in c.nodes if t.start != -1 and t.start == t.end) != len(x.shape.mesh.T):
            return "%s: the bounding volumes cover another shape" % n
        if b["density"] is not None:
            d, s = b["density"]
            mass, inertia = unit[s][0], np.diag(unit[s][1])
            ev = np.sort(np.linalg.eigvalsh(unit[s][1]))
            if abs(x.mass - d * mass) > 1e-8 * d * mass or np.abs(np.sort(x.inertia) - d * ev).max() > 1e-7 * d * ev.max():
                return "%s: mass %s inertia %s, expected %s %s" % (n, x.mass, x.inertia, d * mass, d * ev)
        elif x.mass != 0.0:
            return "%s: mass" % n
    for n, f in m.forces.items():
        x = e.forces[n]
        if f[0] != x.force_type or (f[0] == "Gravity" and (x.g != f[1] or np.abs(x.up - f[2]).max() > tol)) or (f[0] == "Damping" and (x.alpha, x.beta) != f[1:]):
            return "force %s" % n
    names = sorted({"m0", "m1", "m2", "default"} | {x for p in m.mats for x in p})
    for a in names:
        for b in names:
            got = e.surfaces_interactions.get_interaction(a, b)
            want = m.mats.get(tuple(sorted([a, b])), m.mats[("default", "default")])
            if got.epsilon != want[0] or np.abs(np.array(got.mu) - np.array(want[1])).max() > 0:
                return "interaction %s-%s: %s %s, expected %s" % (a, b, got.epsilon, got.mu, want)
    for i, (n, h) in enumerate(m.hinges.items()):
        x = e.hinges[n]
        if x.idx != i:
            return "%s: index" % n
        if h is None:
            if x.parent is not None or x.child is not None:
                return "%s: bodies" % n
            continue
        p, c, ap, ac, xp, xc = m.hm.h[n]
        if x.parent is not e.bodies[p] or x.child is not e.bodies[c]:
            return "%s: bodies" % n
        for lab, got, want in (("arm_p", x.arm_p, ap), ("arm_c", x.arm_c, ac), ("axis_p", x.axis_p, xp), ("axis_c", x.axis_c, xc)):
            if np.abs(np.array(got) - want).max() > 1e-8 * (1 + np.abs(want).max()):
                return "%s.%s is %s, expected %s" % (n, lab, got, want)
    if deep:
        for n, s in m.shapes.items():
            x = e.shapes[n]
            V = meshes[n].V_client
            if np.abs(meshes[n].V - V).max() > 0 or np.any(meshes[n].T != meshes[n].T_client):
                return "the mesh of the client was changed (%s)" % n
            Rs, rs = frames(x)
            want = (V - rs) @ Rs if s["tf"] else V
            if x.mesh is meshes[n] or np.abs(x.mesh.V - want).max() > 1e-9 * np.abs(V).max() + 1e-14 or np.any(np.array(x.mesh.T) != meshes[n].T_client):
                return "%s: the mesh is not the client's mesh in its body frame" % n
            mass, c, I = R.solid_properties(want, meshes[n].T_client)
            if s["tf"] and (np.abs(c).max() > 1e-8 * np.abs(V).max() or np.abs(I - np.diag(x.inertia)).max() > 1e-7 * I.max()):
                return "%s: the body frame is not the one of the principal axes (centre %s, inertia %s, declared %s)" % (n, c, I.tolist(), x.inertia)
            if x.grid is None:
                return "%s: no distance field" % n
    return None


def ready(m):
    return (bool(m.bodies) and all(b["shape"] is not None and m.shapes[b["shape"]]["tf"] and (b["fixed"] or b["density"]) for b in m.bodies.values()) and
            all(h is not None and h[0] != h[1] for h in m.hinges.values()))


def run(case, ctx):
    API, MESH = R.mods()
    e = API.create_engine()
    R.set_params(e, case["params"])
    m = ApiModel()
    meshes, unit = {}, {}
    for n, s in case["shapes"].items():
        meshes[n] = R.make_mesh(API, MESH, s)
        meshes[n].V_client, meshes[n].T_client = np.array(meshes[n].V), np.array(meshes[n].T)
        mass, c, I = R.solid_properties(meshes[n].V, meshes[n].T)
        unit[n] = (mass, I)
    est, hist = {}, []
    check(agree(e, m, meshes, unit) is None, "fresh-engine", lambda: agree(e, m, meshes, unit))
    for i, op in enumerate(case["ops"]):
        k = op["k"]
        if k == "simulate" and op["x"] > 0 and not ready(m):
            continue
        if k == "set_hinge" and op["p"] == op["c"]:
            continue
        bad = invalid(m, op)
        before = R.full_snap(e)
        scribble = []
        done = False
        if "fault" in op and not bad:
            inj = F.CallInjector(at=max(1, int(op["fault"]["u"] * est.get(k, 6)) + 1), exc=F.make_exc(op["fault"]["exc"]))
            try:
                with inj:
                    perform(e, op, case, meshes, scribble)
                done = True
            except BaseException as x:  # noqa
                if inj.fired is None or not isinstance(x, (Exception, KeyboardInterrupt)):
                    raise
                ctx.fault("call-failure")
                if k != "simulate" and not R.same_snap(before, R.full_snap(e)):
                    apply(m, op, e, meshes)
                    d = agree(e, m, meshes, unit)
                    check(d is None, "half-done:" + k, lambda: "a %s that failed in %s is neither undone nor done: %s" % (k, inj.fired, d))
                    done = None
        if done is False:
            inj = F.CallInjector()
            try:
                with inj:
                    perform(e, op, case, meshes, scribble)
                est[k] = inj.n
                check(not bad, "invalid-accepted:" + k, lambda: str(op))
            except Exception as x:
                if not bad or type(x).__name__ == "Violation":
                    raise
                check(R.same_snap(before, R.full_snap(e)), "rejected-call-had-effect:" + k, lambda: "%s raised %r but changed the engine" % (op, x))
        for a in scribble:
            a += 3.25
            a *= -1.5
        if not bad and done is not None:
            apply(m, op, e, meshes)
        if k == "simulate":
            for n, b in m.bodies.items():
                x = e.bodies[n]
                b["r"], b["q"], b["v"], b["w"] = np.array(x.r), np.array(x.q), np.array(x.v), np.array(x.w)
            if not bad:
                ctx.sim_time += op["x"]
        d = agree(e, m, meshes, unit, deep=k in ("shape", "connect_shape") or i % 5 == 0)
        check(d is None, "model-disagrees:" + k, lambda: "after %s: %s" % ({x: y for x, y in op.items() if x != "fault"}, d))
        hist.append((k, bad))
        ctx.event(k, bad)
    d = agree(e, m, meshes, unit)
    check(d is None, "model-disagrees:end", lambda: d)
    ctx.sig(hist)
