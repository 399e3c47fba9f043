"""Soft body worlds for the simulator: JSON specification -> engine (through the public API), seeded world generation,
observable state, and an independent reference of the forces and of one step."""
import math

import numpy as np

from . import contactlaw as CL
from . import faults as F
from . import rigid as R
from .core import digest

SCHEMES = ["gauss_seidel", "parallel_gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid"]


def mods():
    F.install_phi_seam()
    import rainbow.simulators.prox_soft_bodies.api as API
    import rainbow.geometry.volume_mesh as VM
    return API, VM


# ------------------------------------------------------------------------------------------------ meshes and building
def kuhn(n):
    """n x n x n cubes cut into six tetrahedra each (independent of the system's mesh generators)."""
    I, J, K = n
    V = np.array([[i, j, k] for k in range(K + 1) for j in range(J + 1) for i in range(I + 1)], float)
    at = lambda i, j, k: i + j * (I + 1) + k * (I + 1) * (J + 1)
    T = []
    import itertools
    for i in range(I):
        for j in range(J):
            for k in range(K):
                for p in itertools.permutations(range(3)):
                    c = [i, j, k]
                    path = [at(*c)]
                    for a in p:
                        c[a] += 1
                        path.append(at(*c))
                    P = V[path]
                    if np.linalg.det(P[1:] - P[0]) < 0:
                        path[2], path[3] = path[3], path[2]
                    T.append(path)
    V -= V.mean(axis=0)
    return V, np.array(T)


def make_mesh(s):
    k = s["kind"]
    if k == "tet":
        V = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]], float) * 0.5
        T = np.array([[0, 1, 2, 3]])
        if np.linalg.det(V[T[0, 1:]] - V[T[0, 0]]) < 0:
            T = np.array([[0, 2, 1, 3]])
    elif k == "twin":  # two tetrahedra on a common face
        V = np.array([[0, 0, 0.8], [0, 0, -0.8], [0.8, 0, 0], [-0.4, 0.7, 0], [-0.4, -0.7, 0]], float)
        T = np.array([[2, 3, 4, 0], [3, 2, 4, 1]])
        for t in T:
            if np.linalg.det(V[t[1:]] - V[t[0]]) < 0:
                t[0], t[1] = t[1], t[0]
    elif k == "fan":  # tetrahedra around a common edge, open on one side
        th = np.radians(s["span"]) * np.arange(s["n"] + 1) / s["n"]
        V = np.array([[0, 0, 0.7], [0, 0, -0.7]] + [[np.cos(t), np.sin(t), 0] for t in th])
        T = np.array([[0, 1, i + 2, i + 3] for i in range(s["n"])])
        for t in T:
            if np.linalg.det(V[t[1:]] - V[t[0]]) < 0:
                t[0], t[1] = t[1], t[0]
    elif k == "kuhn":
        V, T = kuhn(s["n"])
    elif k == "beam":
        _, VM = mods()
        V, T = VM.create_beam(*(x + 1 for x in s["n"]), *[float(x) for x in s["n"]])
    V = V * np.array(s.get("scale", [1, 1, 1]), float)
    if s.get("jitter"):
        from .core import Rng
        g = Rng("jitter", s["jitter"])
        V = V + 0.06 * min(s.get("scale", [1])) * np.array([g.vec() for _ in V])
    if "rot" in s:
        V = V @ R.q_mat(s["rot"]).T
    if "at" in s:
        V = V + np.array(s["at"], float)
    return V, T


def phi_of(p):
    """A half space {n.x <= c} or a ball as implicit function."""
    if p["kind"] == "half":
        n, c = np.array(p["n"], float), p["c"]
        return lambda x: float(n @ x - c)
    o, r = np.array(p["o"], float), p["r"]
    return lambda x: float(np.linalg.norm(np.asarray(x) - o) - r)


def model(name):
    import rainbow.simulators.prox_soft_bodies.mechanics as M
    return {"COR": M.COR, "SVK": M.SVK, "SNH": M.SNH}[name]


def add_material(e, m):
    API, _ = mods()
    n = m["name"]
    if n != "default":
        API.create_material(e, n)
    API.set_elasticity(e, n, m["E"], m["nu"])
    API.set_mass_density(e, n, m["rho"])
    API.set_viscosity(e, n, m["c"])
    API.set_constitutive_model(e, n, model(m["model"]))


def add_body(e, b):
    API, _ = mods()
    n = b["name"]
    V, T = make_mesh(b["mesh"])
    API.create_soft_body(e, n, V, T)
    API.set_material(e, n, b["material"])
    API.set_gravity(e, n, np.array(b["g"], float))
    API.set_velocity(e, n, np.array(b["v"], float))
    API.set_type(e, n, "fixed" if b.get("fixed") else "free")
    for p in b.get("dirichlet", []):
        API.create_dirichlet_conditions(e, n, phi_of(p))
    for p, load in b.get("traction", []):
        API.create_traction_conditions(e, n, phi_of(p), np.array(load, float))
    if "deform" in b:
        API.set_spatial_coordinates(e, n, deform(API.get_material_coordinates(e, n), b["deform"]))
    if "wind" in b:
        API.set_spatial_coordinates(e, n, wind(API.get_material_coordinates(e, n), b["wind"], b["mesh"]))
    if "roll" in b:
        API.set_spatial_coordinates(e, n, roll(API.get_material_coordinates(e, n), b["roll"]))


def wind(X, r, m):
    """Close a fan until its ends pass through each other."""
    a = np.degrees(np.arctan2(X[:, 1], X[:, 0]))
    u = np.where(a < -1e-6, a + 360, a) / m["span"]  # nodes may come in any order
    th = np.radians(r["span"]) * u
    Y = np.column_stack([np.cos(th), np.sin(th), r["rise"] * (u - 0.5)])
    axis = np.abs(X[:, :2]).max(axis=1) < 1e-9
    Y[axis] = X[axis]
    return Y @ R.q_mat(r["q"]).T


def roll(X, r):
    """Bend a long beam into a ring whose ends meet."""
    c = X.mean(axis=0)
    Y = X - c
    L = Y[:, 0].max() - Y[:, 0].min()
    u = (Y[:, 0] - Y[:, 0].min()) / L
    th = 2 * np.pi * r["turns"] * u
    rad = L / (2 * np.pi * r["turns"]) + r["rise"] * u + Y[:, 1]
    Z = np.column_stack([rad * np.sin(th), rad * np.cos(th), Y[:, 2] + r["side"] * u])
    return Z @ R.q_mat(r["q"]).T + c


def deform(X, d):
    """An affine placement with a smooth bend: x = t + R (I + S) (X - c) + bend."""
    c = X.mean(axis=0)
    L = R.q_mat(d["q"]) @ (np.eye(3) + np.array(d["S"], float))
    Y = (X - c)
    k = np.array(d.get("bend", [0, 0, 0]), float)
    Y = Y + k * (Y[:, [1]] ** 2)
    return Y @ L.T + c + np.array(d["t"], float)


def build(spec):
    API, _ = mods()
    e = API.create_engine()
    for k, v in spec.get("params", {}).items():
        assert hasattr(e.params, k), k
        setattr(e.params, k, v)
    for m in spec.get("materials", []):
        add_material(e, m)
    for a, b, mu in spec.get("interactions", []):
        API.create_surfaces_interaction(e, a, b, mu)
    for b in spec.get("bodies", []):
        add_body(e, b)
    return e


# ------------------------------------------------------------------------------------------------ generation
def gen_params(rng, **over):
    p = {"time_step": rng.choice([0.0005, 0.001, 0.002, 0.005]), "max_iterations": rng.choice([2, 5, 10]), "resolution": rng.choice([7, 9]),
         "envelope": rng.choice([0.01, 0.03, 0.1]), "use_spatial_hashing": rng.chance(0.6), "K": rng.choice([3, 4]),
         "bvh_chunk_size": rng.choice([1, 4, 255]), "use_post_stabilization": rng.chance(0.3), "proximal_solver": rng.choice(SCHEMES),
         "contact_optimization_max_iterations": rng.choice([3, 8, 20]), "absolute_tolerance": rng.choice([1e-3, 1e-3, 1e-2, 0.3, 5.0]),
         "relative_tolerance": rng.choice([1e-4, 1e-2])}
    p.update(over)
    return p


def gen_material(rng, name):
    return {"name": name, "E": float(rng.choice([300, 2000, 10000, 40000])), "nu": rng.choice([0.1, 0.25, 0.3, 0.4]),
            "rho": float(rng.choice([300, 1000, 1500])), "c": float(rng.choice([0, 0, 5, 60])), "model": rng.choice(["COR", "SVK", "SNH"])}


def gen_mesh(rng, small=False):
    k = rng.choice(["tet", "tet", "twin", "kuhn"] if small else ["tet", "twin", "kuhn", "kuhn", "beam"])
    m = {"kind": k, "scale": [rng.choice([0.5, 0.8, 1.0, 1.3]) for _ in range(3)]}
    if k in ("kuhn", "beam"):
        m["n"] = rng.choice([[1, 1, 1], [1, 1, 1], [2, 1, 1]]) if k == "kuhn" else [1, 1, 1]
    if rng.chance(0.4):
        m["jitter"] = rng.randrange(1 << 20)
    if rng.chance(0.6):
        m["rot"] = rng.quat()
    return m


def support(V, d):
    return float((V @ d).max())


def gen_world(rng, n=2, params=None, fixed=0.25, dirichlet=0.25, traction=0.2, apart=None, small=False, deformed=0.4, tight=False, units=0.0, far=0.0):
    """Bodies in a chain, each touching or slightly overlapping the one before it (or apart by ``apart``), sometimes measured in
    another unit of length (``units``) or far from the origin (``far``)."""
    mats = [gen_material(rng, "m%d" % i) for i in range(rng.choice([1, 2]))]
    if rng.chance(0.3):
        mats.append(gen_material(rng, "default"))
    names = sorted({m["name"] for m in mats})
    inter = []
    for i, a in enumerate(names):
        for b in names[i:]:
            if (a, b) != ("default", "default") and rng.chance(0.6):
                inter.append([a, b] if rng.chance(0.5) else [b, a])
    inter = [[a, b, rng.choice([0.0, 0.2, 0.5, 1.0, 3.0])] for a, b in inter]
    bodies, prevV, prev_at = [], None, None
    for i in range(n):
        m = gen_mesh(rng, small)
        V, T = make_mesh(m)
        c = V.mean(axis=0)
        if prevV is None:
            at = np.array(rng.vec(-0.5, 0.5, 3))
        else:
            d = np.array(rng.unit())
            h = support(prevV - prev_at, d) + support(V - c, -d)
            f = (1.0 + apart) if apart is not None else rng.choice([0.45, 0.55, 0.65, 0.75, 0.85, 0.95] if tight else [0.7, 0.8, 0.85, 0.9, 0.95, 1.0, 1.02])
            at = prev_at + d * h * f
        m["at"] = [float(round(x, 5)) for x in at - c]
        V, T = make_mesh(m)
        closing = None if prev_at is None else (prev_at - V.mean(axis=0)) * rng.choice([0.5, 2.0, 5.0])
        prevV, prev_at = V, V.mean(axis=0)
        b = {"name": "s%d" % i, "mesh": m, "material": rng.choice(names), "g": rng.choice([[0, -9.82, 0], [0, 0, 0], rng.vec(-5, 5, 2)]),
             "v": rng.choice([[0, 0, 0], rng.vec(-1, 1, 3)]) if closing is None or rng.chance(0.4) else [float(round(c, 4)) for c in closing], "fixed": rng.chance(fixed)}
        if rng.chance(dirichlet):
            b["dirichlet"] = [gen_phi(rng, V)]
        if rng.chance(traction):
            b["traction"] = [[gen_phi(rng, V, 0.7), rng.vec(-300, 300, 1)] for _ in range(rng.choice([1, 2]))]
        if rng.chance(deformed):
            S = np.array([[rng.uniform(-0.12, 0.12) for _ in range(3)] for _ in range(3)]).round(4)
            b["deform"] = {"q": rng.quat() if rng.chance(0.5) else [1.0, 0, 0, 0], "S": S.tolist(), "t": [0, 0, 0], "bend": rng.vec(-0.1, 0.1, 3)}
            if "dirichlet" in b:  # the held nodes keep their material position
                b["deform"] = dict(b["deform"], q=[1.0, 0, 0, 0], S=(S * 0.3).round(5).tolist(), bend=[0, 0, 0])
        bodies.append(b)
    w = {"params": gen_params(rng, **(params or {})), "materials": mats, "interactions": inter, "bodies": bodies}
    if units or far:
        g = rng.fork("place")
        place(w, g.choice([0.001, 0.001, 0.03, 20.0]) if g.chance(units) else 1.0, np.array(g.unit()) * g.choice([8, 60, 400]) if g.chance(far) else np.zeros(3))
    return w


def place(w, L, shift):
    """The same world with lengths multiplied by L (time and stresses as they are), moved by ``shift`` (in old lengths)."""
    if L == 1.0 and not shift.any():
        return
    w["L"] = L
    for k in ("envelope", "min_gap_value"):
        if k in w["params"] or k == "min_gap_value":
            w["params"][k] = w["params"].get(k, 0.01) * L
    for k, d in (("absolute_tolerance", 0.001), ("too_small_merit_change", 0.1)):
        w["params"][k] = w["params"].get(k, d) * L * L
    for m in w["materials"]:
        m["rho"] /= L * L
        m["c"] /= L * L
    if not any(m["name"] == "default" for m in w["materials"]) and L != 1.0:
        w["materials"].append({"name": "default", "E": 10000.0, "nu": 0.3, "rho": 1000.0 / (L * L), "c": 0.0, "model": "COR"})

    def move(p):
        if p["kind"] == "half":
            p["c"] = float(L * (p["c"] + np.dot(p["n"], shift)))
        else:
            p["o"] = [float(x) for x in L * (np.array(p["o"]) + shift)]
            p["r"] = L * p["r"]

    for b in w["bodies"]:
        m = b["mesh"]
        m["scale"] = [L * s for s in m.get("scale", [1, 1, 1])]
        m["at"] = [float(x) for x in L * (np.array(m.get("at", [0, 0, 0])) + shift)]
        b["g"], b["v"] = [L * x for x in b["g"]], [L * x for x in b["v"]]
        for p in b.get("dirichlet", []):
            move(p)
        for p, _ in b.get("traction", []):
            move(p)
        if "deform" in b:
            b["deform"]["t"] = [L * x for x in b["deform"]["t"]]
            b["deform"]["bend"] = [x / L for x in b["deform"]["bend"]]


def gen_ring(rng, params):
    """A world in which a body touches itself."""
    th = rng.choice([0.5, 0.6])
    w = {"params": gen_params(rng, **params), "materials": [gen_material(rng, "m0")], "interactions": [], "bodies": [
        {"name": "s0", "mesh": {"kind": "kuhn", "n": [6, 1, 1], "scale": [1.0, th, th]}, "material": "m0", "g": [0, 0, 0], "v": rng.vec(-1, 1),
         "roll": {"turns": round(rng.uniform(0.97, 1.05), 4), "rise": round(rng.uniform(0.15, 0.5), 4), "side": round(rng.uniform(-0.3, 0.3), 4), "q": rng.quat()}}]}
    w["params"].update(use_spatial_hashing=True, envelope=rng.choice([0.05, 0.1, 0.2]))
    if rng.chance(0.6):
        w["interactions"] = [["m0", "m0", rng.choice([0.0, 0.3, 1.0])]]
    return w


def gen_fan(rng, params):
    """A world in which elements of a body that share nodes touch each other."""
    w = gen_ring(rng, params)
    b = w["bodies"][0]
    b["mesh"] = {"kind": "fan", "n": rng.choice([5, 6, 7]), "span": rng.choice([250, 300])}
    b.pop("roll")
    b["wind"] = {"span": rng.choice([340, 365, 390, 420]), "rise": rng.choice([0.3, 0.5, -0.5, 0.7, -0.7]), "q": rng.quat()}
    return w


def gen_phi(rng, V, q=0.4):
    d = np.array(rng.unit())
    h = np.sort(V @ d)
    size = float(h[-1] - h[0])
    if rng.chance(0.7):
        return {"kind": "half", "n": [round(x, 4) for x in d], "c": float(h[min(len(h) - 1, int(q * len(h)))] + 1e-3 * size)}
    v = V[rng.randrange(len(V))]
    return {"kind": "ball", "o": [float(x) for x in v], "r": size * rng.choice([0.05, 0.6])}


# ------------------------------------------------------------------------------------------------ observing
def snap(e):
    return {n: (np.array(b.x, copy=True), np.array(b.u, copy=True)) for n, b in e.bodies.items()}


def same_snap(a, b):
    return digest(a) == digest(b)


def diff_snap(a, b):
    out = []
    for n in a:
        if n not in b:
            out.append("%s missing" % n)
            continue
        for k, x, y in zip(("x", "u"), a[n], b[n]):
            if x.shape != y.shape:
                out.append("%s.%s shape" % (n, k))
            elif not np.array_equal(x, y):
                i = int(np.argmax(np.abs(x - y).max(axis=1)))
                out.append("%s.%s node %d: %s vs %s" % (n, k, i, x[i].tolist(), y[i].tolist()))
    return "; ".join(out) or "identical"


def load_state(e, s):
    API, _ = mods()
    for n, (x, u) in s.items():
        API.set_spatial_coordinates(e, n, x.copy())
        e.bodies[n].u = u.copy()


def mat_of(m):
    return None if m is None else (m.name, m.E, m.nu, m.rho, m.c, getattr(m.constitutive_model, "__name__", str(m.constitutive_model)))


def declared(e):
    """Everything a client declared (not derived per-step data)."""
    return {
        "params": {k: v for k, v in sorted(vars(e.params).items()) if k != "time_stamp"},
        "materials": {n: mat_of(m) for n, m in e.materials.items()},
        "interactions": {tuple(k): np.array(v.mu) for k, v in e.surfaces_interactions.storage.items()},
        "nodes": e.number_of_nodes, "cell": float(e.hash_grid.cell_size), "table": e.hash_grid.hash_table_size,
        "bodies": {n: {"idx": b.idx, "offset": b.offset, "T": b.T, "surface": b.surface, "owners": b.owners, "neighbors": b.neighbors,
                       "x0": b.x0, "vol0": b.vol0, "invD0": b.invD0, "gradN0": b.gradN0, "M": b.M_array, "C": b.C_array,
                       "dir": [(int(d.idx), np.array(d.value)) for d in b.dirichlet_conditions],
                       "trac": [(int(t.i), int(t.j), int(t.k), np.array(t.traction)) for t in b.traction_conditions],
                       "mat": mat_of(b.material_description), "g": np.array(b.gravity), "fixed": b.is_fixed, "lumped": b.is_lumped}
                   for n, b in e.bodies.items()}}


def full_snap(e):
    return {"declared": declared(e), "state": snap(e)}


def contacts(e):
    return [(c.bodyA.name, c.bodyB.name, int(c.idx_tetA), int(c.idx_tetB), np.array(c.omegaA), np.array(c.omegaB), np.array(c.p),
             np.array(c.n), float(c.g)) for c in e.contact_points]


# ------------------------------------------------------------------------------------------------ reference mechanics
def _energy(model, F, lam, mu):
    """Energy densities as published; complex arguments are allowed (for complex-step differentiation)."""
    if model == "SVK":
        E = (F.T @ F - np.eye(3)) / 2
        return 0.5 * lam * np.trace(E) ** 2 + mu * np.sum(E * E)
    if model == "SNH":
        m, l = 4.0 / 3.0 * mu, lam + 5.0 / 6.0 * mu
        a = 1 + m / l - m / (4 * l)
        J = (F[0, 0] * (F[1, 1] * F[2, 2] - F[1, 2] * F[2, 1]) - F[0, 1] * (F[1, 0] * F[2, 2] - F[1, 2] * F[2, 0]) +
             F[0, 2] * (F[1, 0] * F[2, 1] - F[1, 1] * F[2, 0]))
        I = np.sum(F * F)
        return 0.5 * m * (I - 3) + 0.5 * l * (J - a) ** 2 - 0.5 * m * np.log(I + 1)
    U, s, Vt = np.linalg.svd(F)
    s = s.copy()
    if np.linalg.det(U @ Vt) < 0:
        s[2] = -s[2]
    return mu * np.sum((s - 1) ** 2) + lam / 2 * (s.sum() - 3) ** 2


def pk1(model, F, lam, mu):
    if model == "COR":
        U, s, Vt = np.linalg.svd(F)
        D = np.diag([1, 1, np.sign(np.linalg.det(U @ Vt))])
        Rm = U @ D @ Vt
        return 2 * mu * (F - Rm) + lam * (np.trace(Rm.T @ F) - 3) * Rm
    P = np.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            G = F.astype(complex)
            G[i, j] += 1e-30j
            P[i, j] = _energy(model, G, lam, mu).imag / 1e-30
    return P


class RefBody:
    """A soft body rebuilt from what the client declared (mesh, material, conditions) and its current state."""

    def __init__(self, e, n):
        b = e.bodies[n]
        self.name, self.N = n, len(b.x0)
        self.X, self.T = np.array(b.x0), np.array(b.T)
        self.x, self.u = np.array(b.x), np.array(b.u)
        m = b.material_description
        self.E, self.nu, self.rho, self.c = m.E, m.nu, m.rho, m.c
        self.model = m.constitutive_model.__name__
        self.g, self.fixed = np.array(b.gravity), b.is_fixed
        self.dir = [(int(d.idx), np.array(d.value)) for d in b.dirichlet_conditions]
        self.trac = [(int(t.i), int(t.j), int(t.k), np.array(t.traction)) for t in b.traction_conditions]
        self.material = m.name
        self.vol = np.zeros(len(self.T))
        self.B = []
        for k, t in enumerate(self.T):
            D = (self.X[t[1:]] - self.X[t[0]]).T
            self.vol[k] = np.linalg.det(D) / 6
            self.B.append(np.linalg.inv(D))
        self.mass, self.cn = np.zeros(self.N), np.zeros(self.N)
        for k, t in enumerate(self.T):
            self.mass[t] += self.rho * self.vol[k] / 4
            self.cn[t] += self.c * self.vol[k] / 4
        self.held = sorted(set(range(self.N)) if self.fixed else {i for i, _ in self.dir})

    def lame(self):
        return self.E * self.nu / ((1 + self.nu) * (1 - 2 * self.nu)), self.E / (2 * (1 + self.nu))

    def bc_x(self, x):
        x = x.copy()
        for i, v in self.dir:
            x[i] = v
        return x

    def bc_u(self, u):
        u = u.copy()
        u[self.held] = 0.0
        return u

    def F(self, x, k):
        t = self.T[k]
        return (x[t[1:]] - x[t[0]]).T @ self.B[k]

    def elastic(self, x):
        lam, mu = self.lame()
        f = np.zeros((self.N, 3))
        for k, t in enumerate(self.T):
            P = pk1(self.model, self.F(x, k), lam, mu)
            g = self.vol[k] * P @ self.B[k].T  # columns: -force on nodes 1..3
            f[t[1:]] -= g.T
            f[t[0]] += g.sum(axis=1)
        return f

    def elastic_energy(self, x):
        lam, mu = self.lame()
        return sum(self.vol[k] * _energy(self.model, self.F(x, k), lam, mu) for k in range(len(self.T)))

    def traction(self, x):
        f = np.zeros((self.N, 3))
        for i, j, k, load in self.trac:
            A = 0.5 * np.linalg.norm(np.cross(x[j] - x[i], x[k] - x[i]))
            for v in (i, j, k):
                f[v] += A / 3 * load
        return f

    def forces(self, x, u):
        return self.elastic(x) + self.traction(x) - self.cn[:, None] * u + self.mass[:, None] * self.g

    def predict(self, dt):
        """(start position, velocity before contacts, force scale) of a step of length dt."""
        x, u = self.bc_x(self.x), self.bc_u(self.u)
        f = self.forces(x, u)
        acc = f / self.mass[:, None]
        return x, self.bc_u(u + dt * acc), float(np.abs(acc).max()) * dt

    def worst_tet(self, x):
        """Smallest relative volume of an element (inverted or flat elements are outside of the mechanics' domain)."""
        return min(np.linalg.det(self.F(x, k)) for k in range(len(self.T)))


def ref_bodies(e):
    return {n: RefBody(e, n) for n in e.bodies}


class SoftProblem(CL.StepProblem):
    """The contact problem of one soft step, rebuilt from observable data: the state before, the contact points the step
    reported, the materials, the velocities after."""

    def __init__(self, ref, pred, e, new_u):
        self.names = list(ref)
        self.off, N = {}, 0
        for n in self.names:
            self.off[n] = N
            N += 3 * ref[n].N
        held = np.zeros(N, bool)
        m = np.zeros(N)
        self.upre, self.du = np.zeros(N), np.zeros(N)
        for n in self.names:
            o, b = self.off[n], ref[n]
            s = slice(o, o + 3 * b.N)
            m[s] = np.repeat(b.mass, 3)
            for i in b.held:
                held[o + 3 * i:o + 3 * i + 3] = True
            self.upre[s] = pred[n].reshape(-1)
            self.du[s] = (new_u[n] - pred[n]).reshape(-1)
        self.held_moved = float(np.abs(self.du[held]).max()) if held.any() else 0.0
        w = np.where(held, 0.0, 1.0 / m)
        self.W = np.diag(w)
        self.Mih = np.diag(np.sqrt(w))
        self.Mh = np.diag(np.where(held, 0.0, np.sqrt(m)))
        self.mass_min = float(m.min())
        self.cps = contacts(e)
        K = self.K = len(self.cps)
        self.mu, self.e, self.bias, self.gap = np.zeros(K), np.zeros(K), np.zeros(K), np.array([c[8] for c in self.cps])
        self._J = np.zeros((4 * K, N))
        lib = {tuple(sorted(k)): float(v.mu[0]) for k, v in e.surfaces_interactions.storage.items()}
        for k, (A, B, ta, tb, wa, wb, p, n, g) in enumerate(self.cps):
            C = np.array(CL.frame(n))
            for name, t, om, sg in ((A, ta, wa, -1.0), (B, tb, wb, 1.0)):
                for node, w1 in zip(ref[name].T[t], om):
                    o = self.off[name] + 3 * int(node)
                    self._J[4 * k:4 * k + 3, o:o + 3] += sg * w1 * C
            self.mu[k] = lib.get(tuple(sorted((ref[A].material, ref[B].material))), lib[("default", "default")])
        unew = self.upre + self.du
        self.v_pre = (self._J @ self.upre).reshape(-1, 4)
        self.v_new = (self._J @ unew).reshape(-1, 4)
        self.v_old = np.zeros((K, 4))
        self.vs = max(1e-3, float(np.abs(self.upre).max()), float(np.abs(unew).max()))

    def J(self):
        return self._J

    def small_mass(self):
        return self.mass_min

    def wn(self):
        return self.v_new[:, 0]

    def mobility(self):
        J = self._J[0::4]
        return float(np.max(np.einsum("ij,ij->i", J @ self.W, J), initial=0.0))

    def impulses(self):
        """The impulses, when the velocity change determines them (soft contacts have no spin row); else None."""
        J = np.delete(self._J, np.arange(3, 4 * self.K, 4), axis=0)
        A = J @ self.W @ J.T
        d = np.sqrt(np.diag(A))
        if not len(d) or (d <= 1e-8 * np.sqrt(self.W.max())).any():
            return None  # some contact moves nothing (held nodes only, up to rounding)
        As = A / d[:, None] / d[None, :]
        if np.linalg.cond(As) > 1e6:
            return None
        lam = (np.linalg.solve(As, (J @ self.du) / d) / d).reshape(-1, 3)
        return np.hstack([lam, np.zeros((self.K, 1))])

    def contracts(self, params, schemes, margin=0.97):
        """Do plain sweeps of these kinds, with the step sizes the solver would choose, contract monotonically from rest?
        A property of the problem: tells which steps must satisfy the contact law exactly."""
        J, b = self._J, self._J @ self.upre
        A = J @ self.W @ J.T
        d = np.diag(A).copy()
        d[d == 0] = 1.0
        for scheme in schemes:
            r, x, last, done = 0.1 / d, np.zeros(4 * self.K), np.inf, False
            order = range(self.K) if scheme != "reversed" else range(self.K - 1, -1, -1)
            for it in range(params.max_iterations - 5):
                old = x.copy()
                z0 = x - r * (A @ x + b)
                for k in order:
                    s = slice(4 * k, 4 * k + 4)
                    z = z0[s] if scheme.startswith("jacobi") else x[s] - r[s] * (A[s] @ x + b[s])
                    xn = max(0.0, z[0])
                    rad = self.mu[k] * (old[4 * k] if scheme == "jacobi" else xn)
                    f, nf = z[1:], np.linalg.norm(z[1:])
                    x[s] = np.concatenate([[xn], f * (rad / nf) if nf > rad else f])
                m = np.abs(x - old).max()
                if m < 0.3 * params.absolute_tolerance:
                    done = True
                    break
                if m > last * margin and m > 1e-6 * np.abs(x).max() or m > last * 1.2:
                    break
                if last - m < params.too_small_merit_change:
                    r = r * params.nu_increase
                last = m
            if not done:
                return False
        return True

    def rounding(self):
        return 1e-12  # the solvers stop at an absolute tolerance

    def admissible_residual(self, floor=1e-12):
        keep = self.v_new[:, 0].copy()
        self.v_new[:, 0] = -1.0
        wf = self.v_new[:, 1:].copy()
        self.v_new[:, 1:] = 0.0
        try:
            return self.law_residual(1.0, floor)
        finally:
            self.v_new[:, 0] = keep
            self.v_new[:, 1:] = wf


def squashed(e):
    """True when an element of a body is flat or inverted, or a body has been torn to pieces (by a solver that was configured to
    diverge): outside of the domain of the mechanics, steps may be rejected."""
    out = False
    for b in ref_bodies(e).values():
        out |= not np.isfinite(b.x).all() or not np.isfinite(b.u).all() or np.abs(b.x).max() > 1e5 or np.abs(b.u).max() > 1e8
        out = out or b.worst_tet(b.bc_x(b.x)) <= 1e-9 or b.worst_tet(b.x) <= 1e-9
    return out


def step(e, T, prof=False):
    """Simulate; a rejection of a state in which a body really is squashed ends the run without a verdict."""
    from .core import InvalidCase
    API, _ = mods()
    try:
        API.simulate(e, T, prof)
    except (RuntimeError, ValueError, FloatingPointError, np.linalg.LinAlgError) as x:
        if squashed(e):
            raise InvalidCase()
        raise
