"""Rigid worlds for the simulator: JSON specification -> engine (through the public API), seeded world generation,
observable state snapshots, and an independent dense reference of one step."""
import math

import numpy as np

from .core import digest


# ------------------------------------------------------------------------------------------------ lazy real imports
def mods():
    import rainbow.simulators.prox_rigid_bodies.api as API
    import rainbow.geometry.surface_mesh as MESH
    return API, MESH


# ------------------------------------------------------------------------------------------------ quaternion helpers
def q_mul(a, b):
    a0, a1, a2, a3 = a
    b0, b1, b2, b3 = b
    return np.array([a0 * b0 - a1 * b1 - a2 * b2 - a3 * b3,
                     a0 * b1 + a1 * b0 + a2 * b3 - a3 * b2,
                     a0 * b2 - a1 * b3 + a2 * b0 + a3 * b1,
                     a0 * b3 + a1 * b2 - a2 * b1 + a3 * b0])


def q_mat(q):
    s, x, y, z = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - s * z), 2 * (x * z + s * y)],
                     [2 * (x * y + s * z), 1 - 2 * (x * x + z * z), 2 * (y * z - s * x)],
                     [2 * (x * z - s * y), 2 * (y * z + s * x), 1 - 2 * (x * x + y * y)]])


def q_unit(q):
    q = np.asarray(q, float)
    return q / np.linalg.norm(q)


def q_axis_angle(axis, ang):
    axis = np.asarray(axis, float) / np.linalg.norm(axis)
    return np.concatenate([[math.cos(ang / 2)], math.sin(ang / 2) * axis])


def same_rotation(p, q, tol=1e-9):
    p, q = np.asarray(p, float), np.asarray(q, float)
    return min(np.abs(p - q).max(), np.abs(p + q).max()) <= tol


def star(v):
    return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])


# ------------------------------------------------------------------------------------------------ building an engine
def make_mesh(API, MESH, s):
    kind = s["kind"]
    a = s.get("args", [])
    if kind == "box":
        V, T = MESH.create_box(*a)
    elif kind == "sphere":
        V, T = MESH.create_sphere(a[0], slices=s.get("slices", 6), segments=s.get("segments", 6))
    elif kind == "cylinder":
        V, T = MESH.create_cylinder(a[0], a[1], slices=s.get("slices", 6))
    elif kind == "cone":
        V, T = MESH.create_cone(a[0], a[1], slices=s.get("slices", 6))
    elif kind == "ellipsoid":
        V, T = MESH.create_ellipsoid(*a, slices=s.get("slices", 6), segments=s.get("segments", 6))
    elif kind == "tetra":
        V = np.array([[0, 0, 0], [a[0], 0, 0], [0, a[1], 0], [0, 0, a[2]]], dtype=float)
        T = np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])
    else:
        raise ValueError(kind)
    V = np.array(V, dtype=float)
    if "offset" in s:
        V = V + np.array(s["offset"], float)
    if "rot" in s:
        V = V @ q_mat(s["rot"]).T
    return API.create_mesh(V, np.array(T))


def set_params(engine, params):
    for k, v in params.items():
        setattr(engine.params, k, v)


def add_shape(engine, s):
    API, MESH = mods()
    API.create_shape(engine, s["name"], make_mesh(API, MESH, s))


def add_body(engine, b):
    API, _ = mods()
    n = b["name"]
    API.create_rigid_body(engine, n)
    API.connect_shape(engine, n, b["shape"])
    API.set_mass_properties(engine, n, b.get("density", 1.0))
    API.set_position(engine, n, np.array(b["r"], float))
    API.set_orientation(engine, n, np.array(b.get("q", [1, 0, 0, 0]), float))
    API.set_velocity(engine, n, np.array(b.get("v", [0, 0, 0]), float))
    API.set_spin(engine, n, np.array(b.get("w", [0, 0, 0]), float))
    API.set_body_type(engine, n, "fixed" if b.get("fixed") else "free")
    if "material" in b:
        API.set_body_material(engine, n, b["material"])
    for f in b.get("forces", []):
        API.connect_force(engine, n, f)


def add_force(engine, f):
    API, _ = mods()
    if f["type"] == "gravity":
        API.create_gravity_force(engine, f["name"], f["g"], np.array(f["up"], float))
    else:
        API.create_damping_force(engine, f["name"], f["alpha"], f["beta"])


def add_hinge(engine, h):
    API, _ = mods()
    API.create_hinge(engine, h["name"])
    API.set_hinge(engine, h["name"], h["parent"], h["child"], np.array(h["origin"], float),
                  np.array(h["axis"], float), h.get("mode", "world"))


def build(spec):
    API, _ = mods()
    engine = API.create_engine()
    set_params(engine, spec.get("params", {}))
    for m in spec.get("materials", []):
        API.create_surfaces_interaction(engine, m[0], m[1], m[2], np.array(m[3], float))
    for f in spec.get("forces", []):
        add_force(engine, f)
    for s in spec.get("shapes", []):
        add_shape(engine, s)
    for b in spec.get("bodies", []):
        add_body(engine, b)
    for h in spec.get("hinges", []):
        add_hinge(engine, h)
    return engine


# ------------------------------------------------------------------------------------------------ observing an engine
def snap(engine):
    """The observable dynamic state of all bodies."""
    return {n: (np.array(b.r, float), np.array(b.q, float), np.array(b.v, float), np.array(b.w, float))
            for n, b in engine.bodies.items()}


def full_snap(engine):
    """Everything a user can observe of an engine (not the contact list, which is derived data)."""
    out = {"bodies": {}, "forces": {}, "shapes": {}, "hinges": {}, "mats": {}, "params": {}}
    for n, b in engine.bodies.items():
        out["bodies"][n] = (b.name, b.idx, np.array(b.r), np.array(b.q), np.array(b.v), np.array(b.w), b.mass,
                            np.array(b.inertia), b.shape.name if b.shape is not None else None, b.is_fixed,
                            [f.name for f in b.forces], b.material, b.bvh is None)
    for n, f in engine.forces.items():
        out["forces"][n] = (f.force_type, f.name, getattr(f, "g", None),
                            None if getattr(f, "up", None) is None else np.array(f.up),
                            getattr(f, "alpha", None), getattr(f, "beta", None))
    for n, s in engine.shapes.items():
        out["shapes"][n] = (s.name, np.array(s.mesh.V), np.array(s.mesh.T), s.mass, np.array(s.inertia),
                            np.array(s.r), np.array(s.q), np.array(s.grid.values))
    for n, h in engine.hinges.items():
        out["hinges"][n] = (h.name, h.idx, h.parent.name if h.parent else None, h.child.name if h.child else None,
                            None if h.arm_p is None else np.array(h.arm_p), None if h.arm_c is None else np.array(h.arm_c),
                            None if h.axis_p is None else np.array(h.axis_p),
                            None if h.axis_c is None else np.array(h.axis_c))
    for k, i in engine.surfaces_interactions.storage.items():
        out["mats"][tuple(k)] = (i.epsilon, np.array(i.mu))
    out["params"] = {k: v for k, v in vars(engine.params).items()}
    return out


def same_snap(a, b):
    return digest(a) == digest(b)


def diff_snap(a, b):
    out = []
    for n in sorted(set(a) | set(b)):
        if n not in a or n not in b:
            out.append("%s only on one side" % n)
            continue
        for lab, x, y in zip("rqvw", a[n], b[n]):
            if x.shape != y.shape or not np.array_equal(x, y):
                out.append("%s.%s: %s vs %s" % (n, lab, x.tolist(), y.tolist()))
    return "; ".join(out[:6])


def max_diff(a, b):
    m = 0.0
    for n in a:
        for x, y in zip(a[n], b[n]):
            d = np.abs(x - y)
            if not np.all(np.isfinite(d)):
                return math.inf
            m = max(m, float(d.max()))
    return m


def contacts(engine):
    return [(c.bodyA.name, c.bodyB.name, np.array(c.p), np.array(c.n), float(c.g)) for c in engine.contact_points]


def spec_of(engine, spec):
    """A specification of the *current* state of an engine that was built from ``spec``."""
    out = dict(spec)
    bodies = []
    for b in spec["bodies"]:
        e = engine.bodies[b["name"]]
        nb = dict(b)
        nb.update(r=[float(x) for x in e.r], q=[float(x) for x in e.q], v=[float(x) for x in e.v],
                  w=[float(x) for x in e.w])
        bodies.append(nb)
    out["bodies"] = bodies
    return out


def load_state(engine, state):
    """Put an exact state (no renormalisation of quaternions) on the bodies."""
    for n, (r, q, v, w) in state.items():
        b = engine.bodies[n]
        b.r, b.q, b.v, b.w = r.copy(), q.copy(), v.copy(), w.copy()


# ------------------------------------------------------------------------------------------------ reference dynamics
class RefBody:
    def __init__(self, b):
        self.name, self.fixed = b.name, bool(b.is_fixed)
        self.mass, self.inertia = float(b.mass), np.array(b.inertia, float)
        self.r, self.q = np.array(b.r, float), np.array(b.q, float)
        self.v, self.w = np.array(b.v, float), np.array(b.w, float)
        self.gravity, self.damping = [], []
        for f in b.forces:
            if f.force_type == "Gravity":
                self.gravity.append((float(f.g), np.array(f.up, float)))
            elif f.force_type == "Damping":
                self.damping.append((float(f.alpha), float(f.beta)))
        self.R = q_mat(self.q)
        if not self.fixed:
            self.I = self.R @ np.diag(self.inertia) @ self.R.T
            self.Iinv = self.R @ np.diag(1.0 / self.inertia) @ self.R.T
        else:
            self.I = self.Iinv = np.zeros((3, 3))

    def declared(self, m):
        """Replace what the engine stores by what the client declared."""
        self.fixed, self.mass, self.inertia = m["fixed"], m["mass"], m["inertia"]
        self.gravity, self.damping = list(m["gravity"]), list(m["damping"])
        if not self.fixed:
            self.I = self.R @ np.diag(self.inertia) @ self.R.T
            self.Iinv = self.R @ np.diag(1.0 / self.inertia) @ self.R.T
        else:
            self.I = self.Iinv = np.zeros((3, 3))
        return self

    def accel(self):
        if self.fixed:
            return np.zeros(3), np.zeros(3)
        F, T = np.zeros(3), -np.cross(self.w, self.I @ self.w)
        for g, up in self.gravity:
            F = F - self.mass * g * up
        for al, be in self.damping:
            F = F - al * self.v
            T = T - be * self.w
        return F / self.mass, self.Iinv @ T


def ref_bodies(engine, model=None):
    if model is not None:
        return {n: RefBody(b).declared(model.b[n]) for n, b in engine.bodies.items()}
    return {n: RefBody(b) for n, b in engine.bodies.items()}


def solid_properties(V, T):
    """Volume, centroid and inertia tensor about the centroid of a closed mesh, by summing signed tetrahedra."""
    V = np.asarray(V, float)
    o = V.mean(axis=0)
    vol, first, C = 0.0, np.zeros(3), np.zeros((3, 3))
    canon = (np.ones((3, 3)) + np.eye(3)) / 120.0
    for t in np.asarray(T):
        A = np.array([V[t[0]] - o, V[t[1]] - o, V[t[2]] - o]).T
        d = np.linalg.det(A)
        vol += d / 6.0
        first += d / 24.0 * A.sum(axis=1)
        C += d * A @ canon @ A.T
    c = first / vol
    C -= vol * np.outer(c, c)
    return vol, o + c, np.trace(C) * np.eye(3) - C


class Model:
    """What the client declared about every body: mass, inertia, type and forces, independent of the engine's fields."""

    def __init__(self, engine, spec):
        self.unit = {}
        for n, s in engine.shapes.items():
            m, c, I = solid_properties(s.mesh.V, s.mesh.T)
            self.unit[n] = (m, np.diag(I).copy(), c, I)
        self.forces = {f["name"]: f for f in spec.get("forces", [])}
        self.b = {}
        for b in spec["bodies"]:
            self.b[b["name"]] = {"shape": b["shape"], "fixed": bool(b.get("fixed")), "gravity": [], "damping": [], "names": []}
            self.set_density(b["name"], b.get("density", 1.0))
            for f in b.get("forces", []):
                self.connect(b["name"], f)

    def set_density(self, n, d):
        m, I = self.unit[self.b[n]["shape"]][:2]
        self.b[n]["mass"], self.b[n]["inertia"] = m * d, I * d

    def connect(self, n, f):
        f = self.forces[f]
        self.b[n]["names"].append(f["name"])
        if f["type"] == "gravity":
            up = np.array(f["up"], float)
            self.b[n]["gravity"].append((f["g"], up / np.linalg.norm(up)))
        else:
            self.b[n]["damping"].append((f["alpha"], f["beta"]))


def ref_predict(rb, dt):
    """Velocities after the external forces only."""
    out = {}
    for n, b in rb.items():
        a, al = b.accel()
        out[n] = (b.v + dt * a, b.w + dt * al)
    return out


def ref_advance(rb, vel, dt):
    """Positions after moving with the new velocities for dt."""
    out = {}
    for n, b in rb.items():
        v, w = vel[n]
        if b.fixed:
            out[n] = (b.r.copy(), b.q.copy())
            continue
        q = b.q + 0.5 * dt * q_mul(np.concatenate([[0.0], w]), b.q)
        out[n] = (b.r + dt * np.asarray(v), q_unit(q))
    return out


# ------------------------------------------------------------------------------------------------ seeded worlds
def gen_shape(rng, name, kinds=("box", "box", "sphere", "cylinder", "tetra", "cone"), offset=0.3):
    kind = rng.choice(kinds)
    s = {"name": name, "kind": kind}
    u = lambda a, b: round(rng.uniform(a, b), 4)
    if kind == "box":
        s["args"] = [u(0.6, 1.6), u(0.6, 1.6), u(0.6, 1.6)]
    elif kind == "sphere":
        s["args"] = [u(0.4, 0.8)]
        s["slices"], s["segments"] = 6, 5
    elif kind in ("cylinder", "cone"):
        s["args"] = [u(0.4, 0.8), u(0.6, 1.4)]
    elif kind == "ellipsoid":
        s["args"] = [u(0.4, 0.8), u(0.4, 0.8), u(0.4, 0.8)]
    elif kind == "tetra":
        s["args"] = [u(0.8, 1.6), u(0.8, 1.6), u(0.8, 1.6)]
    if rng.chance(offset):
        s["offset"] = rng.vec(-1, 1, 4)
        s["rot"] = rng.quat()
    return s


def gen_params(rng, **over):
    p = {"resolution": rng.choice([8, 10, 12]), "time_step": rng.choice([0.01, 0.005, 0.02, 0.0125]),
         "envelope": rng.choice([0.05, 0.1, 0.02]), "bvh_chunk_size": rng.choice([255, 7, 15, 3, 4, 31]),
         "K": rng.choice([3, 3, 4]), "max_iterations": 60}
    p.update(over)
    return p


def gen_materials(rng, bounce=True):
    names = ["m0", "m1"]
    out = []
    for a, b in (("m0", "m0"), ("m0", "m1"), ("m1", "m1"), ("default", "m0")):
        if rng.chance(0.8):
            mu = round(rng.choice([0.0, 0.2, 0.5, 1.0, 2.0]) * 1.0, 3)
            out.append([a, b] if rng.chance(0.5) else [b, a])
            out[-1] += [rng.choice([0.0, 0.3, 0.6, 1.0]) if bounce else 0.0, [mu, mu, mu]]
            if rng.chance(0.25):  # friction is isotropic: the first coefficient is the one that counts
                out[-1][-1] = [mu, rng.choice([0.0, 0.1, 0.7, 3.0]), rng.choice([0.0, 0.1, 1.5])]
    used = sorted({x for m in out for x in m[:2]} | {"default"})
    return out, used


def gen_forces(rng, gravity=True, damping=True):
    fs = []
    if gravity:
        fs.append({"name": "g0", "type": "gravity", "g": round(rng.uniform(1, 15), 3), "up": [0.0, 1.0, 0.0]})
        if rng.chance(0.3):
            fs.append({"name": "g1", "type": "gravity", "g": round(rng.uniform(0.5, 5), 3), "up": rng.vec(-1, 1, 3)})
            if sum(abs(x) for x in fs[-1]["up"]) < 0.05:
                fs[-1]["up"] = [1.0, 0.0, 0.0]
    if damping and rng.chance(0.6):
        fs.append({"name": "d0", "type": "damping", "alpha": round(rng.uniform(0.01, 2), 4),
                   "beta": round(rng.uniform(0.01, 0.5), 4)})
    return fs


def place(w, L, shift=(0.0, 0.0, 0.0), M=1.0):
    """The same world with lengths multiplied by L, masses by M (time as it is), moved by ``shift`` (in old lengths)."""
    shift = np.asarray(shift, float)
    if L == 1.0 and M == 1.0 and not shift.any():
        return w
    w["L"], w["M"] = L, M
    p = w["params"]
    for k, d in (("envelope", 0.1), ("min_gap_value", 0.001), ("max_gap_value", 0.01), ("absolute_tolerance", 0.001), ("too_small_merit_change", 0.01)):
        p[k] = p.get(k, d) * L * (M if k in ("absolute_tolerance", "too_small_merit_change") else 1.0)

    def to(x, s=None):
        return [float(v) for v in L * (np.array(x, float) + (0 if s is None else s))]
    for s in w["shapes"]:
        s["args"] = to(s["args"])
        if "offset" in s:
            s["offset"] = to(s["offset"])
    for f in w["forces"]:
        if f["type"] == "gravity":
            f["g"] *= L
        elif f["type"] == "damping":
            f["alpha"] *= M
            f["beta"] *= L * L * M
    for b in w["bodies"]:
        b["density"] *= M / L ** 3
        b["r"] = to(b["r"], shift)
        if "v" in b:
            b["v"] = to(b["v"])
    for h in w.get("hinges", []):
        if h.get("mode", "world") == "world":
            h["origin"] = to(h["origin"], shift)
        else:
            h["origin"] = to(h["origin"])
    return w


def elsewhere(rng, w, units=0.25, far=0.2):
    """Sometimes another unit of length or mass, or a place far from the origin."""
    L = rng.choice([0.001, 0.01, 30.0]) if rng.chance(units) else 1.0
    shift = np.array(rng.unit()) * rng.choice([8.0, 60.0, 400.0]) if rng.chance(far) else np.zeros(3)
    return place(w, L, np.round(shift, 3), rng.choice([1e-4, 1e5]) if rng.chance(0.6 * units) else 1.0)


def gen_world(rng, n=None, contact=True, fixed=True, hinges=False, forces=True, params=None, bounce=True,
              spread=None, kinds=None):
    """A random world.  With ``contact`` the bodies are packed so that some touch; without, they are far apart."""
    n = n or rng.choice([2, 2, 3, 3, 4])
    p = gen_params(rng, **(params or {}))
    kinds = kinds or ("box", "box", "sphere", "cylinder", "tetra", "cone")
    nshape = rng.choice([1, 2, 2, 3])
    shapes = [gen_shape(rng, "s%d" % i, kinds) for i in range(min(n, nshape))]
    mats, used = gen_materials(rng, bounce)
    fs = gen_forces(rng) if forces else []
    bodies = []
    for i in range(n):
        b = {"name": "b%d" % i, "shape": rng.choice(shapes)["name"], "density": round(rng.choice([1, 1, 10, 0.3, 1000]) * rng.uniform(0.5, 2), 4),
             "q": rng.quat() if rng.chance(0.7) else [1.0, 0.0, 0.0, 0.0],
             "v": rng.vec(-2, 2, 4), "w": rng.vec(-3, 3, 4)}
        if contact:
            s = spread or 0.75
            b["r"] = [round(rng.uniform(-s, s), 4), round(i * rng.uniform(0.5, 1.1), 4), round(rng.uniform(-s, s), 4)]
        else:
            b["r"] = [round(6.0 * i + rng.uniform(-1, 1), 4)] + [round(rng.uniform(-1, 1), 4) for _ in range(2)]
        if rng.chance(0.8):
            b["material"] = rng.choice(used)
        b["forces"] = [f["name"] for f in fs if rng.chance(0.8)]
        bodies.append(b)
    if fixed and rng.chance(0.6):
        b = rng.choice(bodies)
        b["fixed"] = True
        if rng.chance(0.5):
            b["v"], b["w"] = [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]
    spec = {"params": p, "materials": mats, "forces": fs, "shapes": shapes, "bodies": bodies, "hinges": []}
    if hinges and n >= 2:
        for k in range(rng.choice([1, 1, 2])):
            a, b = rng.sample(range(n), 2)
            ra, rb = bodies[a]["r"], bodies[b]["r"]
            o = [round(0.5 * (x + y) + rng.uniform(-0.2, 0.2), 4) for x, y in zip(ra, rb)]
            spec["hinges"].append({"name": "h%d" % k, "parent": "b%d" % a, "child": "b%d" % b, "origin": o,
                                   "axis": rng.unit(), "mode": "world"})
    return spec
