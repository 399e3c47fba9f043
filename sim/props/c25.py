"""C25: the soft body API against a model of what the client declared: valid calls do exactly what they say, in any order; invalid
calls are rejected and change nothing; failing calls are all-or-nothing and can be retried; arrays are never shared."""
import numpy as np

from sim import faults as F
from sim import soft as S
from sim.core import InjectedFault, Rng, check, digest

CASES = {"quick": 2500, "thorough": 60000}
SIG_RULE = "distinct histories of (operation, outcome)"
SHRINK = ("ops",)
REAL = "the complete soft body API, mesh processing, distance fields, boundary conditions, materials, steps"
STUB = "the client (generated operation history, implicit functions that fail), failing library calls, random hash offsets"
KINDS = (["body"] * 5 + ["new_material"] * 3 + ["elasticity", "viscosity", "density", "model"] * 2 + ["set_material"] * 5 + ["dirichlet"] * 3 + ["traction"] * 4 +
         ["velocity", "gravity", "type", "coords"] * 2 + ["interaction"] * 3 + ["simulate"] * 2)


def gen(rng, tier):
    meshes = {"s%d" % i: S.gen_mesh(rng.fork("mesh", i), small=True) for i in range(3)}
    for i, m in enumerate(meshes.values()):
        m["at"] = [4.0 * i, 0.0, round(rng.uniform(-0.4, 0.4), 4)]
    ops = [{"k": "body", "n": "s0"}]
    for _ in range(rng.choice([6, 12, 20])):
        k = rng.choice(KINDS)
        bad = rng.chance(0.12)
        b, mat = "s%d" % rng.randrange(3), rng.choice(["m0", "m1", "default"])
        op = {"k": k, "n": b}
        if k == "body":
            op["badmesh"] = bad and rng.choice(["index", "flat-array"])
        elif k == "new_material":
            op["n"] = mat
        elif k == "elasticity":
            op.update(n=mat, x=rng.choice([-1.0, 0.0]) if bad and rng.chance(0.5) else rng.choice([300.0, 5000.0, 40000.0]), y=rng.choice([-0.1, 0.51]) if bad else rng.choice([0.0, 0.2, 0.45]))
        elif k in ("viscosity", "density"):
            op.update(n=mat, x=-1.0 if bad else float(rng.choice([0, 5, 100] if k == "viscosity" else [300, 1000, 2200])))
        elif k == "model":
            op.update(n=mat, o="none" if bad else rng.choice(["COR", "SVK", "SNH"]))
        elif k == "set_material":
            op.update(o=mat)
        elif k in ("dirichlet", "traction"):
            V, _ = S.make_mesh(meshes[b])
            op.update(phi=S.gen_phi(rng, V, rng.choice([0.2, 0.4, 0.7])), fails=rng.randrange(4) if bad else None)
            if k == "traction":
                op.update(v=rng.vec(-200, 200), list=bad and rng.chance(0.4))
        elif k in ("velocity", "gravity"):
            op.update(v=rng.vec(-2, 2)[: 2 if bad else 3])
        elif k == "type":
            op.update(o=rng.choice(["fixed", "Fixed", "FIXED", "free", "fReE"]) if not bad else rng.choice(["", "static", "fixed "]))
        elif k == "coords":
            op.update(t=rng.vec(-0.3, 0.3), q=rng.quat(), s=[round(rng.uniform(-0.1, 0.1), 3) for _ in range(9)], short=bad)
        elif k == "interaction":
            op.update(n=mat, o=rng.choice(["m0", "m1", "default"]), x=-0.1 if bad else round(rng.random(), 3))
        elif k == "simulate":
            op.update(x=rng.choice([0.0, -0.001]) if bad else rng.choice([0.001, 0.0015]))
        if rng.chance(0.3):
            op["fault"] = F.gen_point(rng)
        ops.append(op)
    if rng.chance(0.5):      # names that are parts of, or nearly equal to, other names
        alike = {"s0": "s", "s1": "S", "s2": "s0", "m0": rng.choice(["m", "d", ""]), "m1": rng.choice(["M", "Default", "default2"])}
        meshes = {alike[n]: x for n, x in meshes.items()}
        for op in ops:
            for f in ("n", "o"):
                if op.get(f) in alike:
                    op[f] = alike[op[f]]
    return {"meshes": meshes, "ops": ops, "params": S.gen_params(rng, resolution=5, max_iterations=2, use_post_stabilization=False)}


class Model:
    def __init__(self, meshes):
        self.meshes = {n: S.make_mesh(m) for n, m in meshes.items()}
        self.mats = {"default": {"E": 1e5, "nu": 0.3, "rho": 1000.0, "c": 0.0, "model": "COR"}}
        self.inter = {("default", "default"): 1.0}
        self.bodies = {}

    def apply(self, op, case):
        k, n = op["k"], op["n"]
        b = self.bodies.get(n)
        if k == "body":
            V, T = self.meshes[n]
            self.bodies[n] = {"material": "default", "g": (0.0, -9.82, 0.0), "fixed": False, "dir": [], "trac": [], "x": None, "u": np.zeros((len(V), 3))}
        elif k == "new_material":
            self.mats[n] = {"E": 1e5, "nu": 0.3, "rho": 1000.0, "c": 0.0, "model": "COR"}
        elif k == "elasticity":
            self.mats[n].update(E=op["x"], nu=op["y"])
        elif k == "viscosity":
            self.mats[n].update(c=op["x"])
        elif k == "density":
            self.mats[n].update(rho=op["x"])
        elif k == "model":
            self.mats[n].update(model=op["o"])
        elif k == "set_material":
            b["material"] = op["o"]
        elif k == "dirichlet":
            b["dir"].append(op["phi"])
        elif k == "traction":
            b["trac"].append((op["phi"], tuple(op["v"])))
        elif k == "velocity":
            b["u"] = np.tile(np.array(op["v"], float), (len(b["u"]), 1))
        elif k == "gravity":
            b["g"] = tuple(op["v"])
        elif k == "type":
            b["fixed"] = op["o"].lower() == "fixed"
        elif k == "coords":
            b["x"] = op["_x"]
        elif k == "interaction":
            self.inter[tuple(sorted([n, op["o"]]))] = op["x"]

    def invalid(self, op):
        k, n = op["k"], op["n"]
        if k == "body":
            return n in self.bodies or bool(op.get("badmesh"))
        if k == "new_material":
            return n in self.mats
        if k in ("elasticity", "viscosity", "density", "model"):
            return (n not in self.mats or (k == "elasticity" and (op["x"] <= 0 or not 0 <= op["y"] <= 0.5)) or
                    (k in ("viscosity", "density") and op["x"] < 0) or (k == "model" and op["o"] == "none"))
        if k == "interaction":
            return n not in self.mats or op["o"] not in self.mats or tuple(sorted([n, op["o"]])) in self.inter or op["x"] < 0
        if k == "simulate":
            return op["x"] <= 0
        if n not in self.bodies:
            return True
        if k == "set_material":
            return op["o"] not in self.mats
        if k in ("dirichlet", "traction"):
            return op["fails"] is not None or bool(op.get("list"))
        if k in ("velocity", "gravity"):
            return len(op["v"]) != 3
        if k == "type":
            return op["o"].lower() not in ("fixed", "free")
        return k == "coords" and op["short"]


def perform(e, m, op, scribble):
    API, _ = S.mods()
    k, n = op["k"], op["n"]

    def arr(v):
        a = np.array(v, float)
        scribble.append(a)
        return a
    if k == "body":
        V, T = m.meshes[n]
        V, T = arr(V), np.array(T)
        if op.get("badmesh") == "index":
            T[-1, 2] = len(V)
        elif op.get("badmesh"):
            V = V[:, :2].copy()
        API.create_soft_body(e, n, V, T)
        T[:] = 0
    elif k == "new_material":
        API.create_material(e, n)
    elif k == "elasticity":
        API.set_elasticity(e, n, op["x"], op["y"])
    elif k == "viscosity":
        API.set_viscosity(e, n, op["x"])
    elif k == "density":
        API.set_mass_density(e, n, op["x"])
    elif k == "model":
        API.set_constitutive_model(e, n, object if op["o"] == "none" else S.model(op["o"]))
    elif k == "set_material":
        API.set_material(e, n, op["o"])
    elif k in ("dirichlet", "traction"):
        f, left = S.phi_of(op["phi"]), [op["fails"]]

        def phi(x):
            if left[0] is not None:
                left[0] -= 1
                if left[0] < 0:
                    raise InjectedFault("the implicit function of the client failed")
            return f(x)
        if k == "dirichlet":
            API.create_dirichlet_conditions(e, n, phi)
        else:
            API.create_traction_conditions(e, n, phi, list(op["v"]) if op["list"] else arr(op["v"]))
        if op["fails"] is not None and left[0] >= 0:
            raise InjectedFault("(the client's function was not called often enough to fail)")
    elif k == "velocity":
        API.set_velocity(e, n, arr(op["v"]))
    elif k == "gravity":
        API.set_gravity(e, n, arr(op["v"]))
    elif k == "type":
        API.set_type(e, n, op["o"])
    elif k == "coords":
        X = API.get_material_coordinates(e, n)
        Y = S.deform(X, {"q": op["q"], "S": np.array(op["s"]).reshape(3, 3), "t": op["t"]})
        op["_x"] = Y.copy()
        X += 5.0
        scribble.append(Y)
        API.set_spatial_coordinates(e, n, Y[:-1].copy() if op["short"] else Y)
    elif k == "interaction":
        API.create_surfaces_interaction(e, n, op["o"], op["x"])
    elif k == "simulate":
        S.step(e, op["x"])


def rows(A):
    return sorted(tuple(np.round(r, 9)) for r in np.asarray(A, float))


def agree(e, m):
    """First disagreement of the engine with what was declared, judged through coordinates (the numbering is the system's)."""
    if list(e.bodies) != list(m.bodies) or list(e.materials) != list(m.mats):
        return "names: %s %s" % (list(e.bodies), list(e.materials))
    for n, w in m.mats.items():
        x = e.materials[n]
        got = (x.name, x.E, x.nu, x.rho, x.c, x.constitutive_model.__name__)
        if got != (n, w["E"], w["nu"], w["rho"], w["c"], w["model"]):
            return "material %s is %s, declared %s" % (n, got, w)
    for a in m.mats:
        for b in m.mats:
            want = m.inter.get(tuple(sorted([a, b])), m.inter["default", "default"])
            got = e.surfaces_interactions.get_interaction(a, b).mu[0]
            if got != want:
                return "interaction of %s and %s: %s, declared %s" % (a, b, got, want)
    N = 0
    for i, (n, w) in enumerate(m.bodies.items()):
        b = e.bodies[n]
        V, T = m.meshes[n]
        if b.idx != i or b.offset != N or b.name != n:
            return "%s: index %s or offset %s" % (n, b.idx, b.offset)
        N += len(V)
        if rows(b.x0) != rows(V) or sorted(rows(b.x0[t]) for t in b.T) != sorted(rows(V[t]) for t in T):
            return "%s: the mesh is not the client's" % n
        if np.any(np.array([np.linalg.det(b.x0[t[1:]] - b.x0[t[0]]) for t in b.T]) <= 0):
            return "%s: an element is inside out" % n
        if b.material_description is not e.materials[w["material"]] or b.is_fixed != w["fixed"] or tuple(b.gravity) != w["g"]:
            return "%s: material %s, type %s or gravity %s" % (n, b.material_description.name, b.is_fixed, b.gravity)
        x = b.x0 if w["x"] is None else w["x"]
        if not np.array_equal(b.x, x) or not np.array_equal(b.u, w["u"]):
            return "%s: coordinates or velocities" % n
        held = {tuple(np.round(v, 9)) for p in w["dir"] for v in V if S.phi_of(p)(v) <= 0}
        got = {tuple(np.round(d.value, 9)) for d in b.dirichlet_conditions}
        if got != held or any(not np.array_equal(b.x0[d.idx], d.value) for d in b.dirichlet_conditions):
            return "%s: %d nodes are held, %d declared" % (n, len(got), len(held))
        faces = {}
        for t in T:
            for f in ((1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)):
                q = tuple(sorted(int(t[j]) for j in f))
                faces[q] = faces.get(q, 0) + 1
        want, has = {}, {}
        for q in (q for q, c in faces.items() if c == 1):
            for p, load in w["trac"]:
                if all(S.phi_of(p)(V[j]) <= 0 for j in q):
                    key = tuple(rows(V[list(q)]))
                    want[key] = want.get(key, 0) + np.array(load)
        for t in b.traction_conditions:
            key = tuple(rows(b.x0[[t.i, t.j, t.k]]))
            has[key] = has.get(key, 0) + np.array(t.traction)
        if set(want) != set(has) or any(np.abs(want[q] - has[q]).max() > 1e-9 * (1 + np.abs(want[q]).max()) for q in want):
            return "%s: %d faces are loaded, %d declared (or with other loads)" % (n, len(has), len(want))
    if e.number_of_nodes != N:
        return "number of nodes %s" % e.number_of_nodes
    return None


def declared(e):
    """What an engine was told, without the things that remember how often something failed or how it was ordered."""
    d = S.declared(e)
    d.pop("interactions")
    plain = lambda t: tuple(float(v) if isinstance(v, (int, float)) else v for v in t)
    d["materials"] = {n: plain(t) for n, t in d["materials"].items()}
    for b in d["bodies"].values():
        b["mat"] = plain(b["mat"])
        b["g"] = np.array(b["g"], float)
    return d


def canonical(m, params):
    """A fresh engine that is told the outcome of the history only."""
    API, _ = S.mods()
    e = API.create_engine()
    for k, v in params.items():
        setattr(e.params, k, v)
    for n, w in m.mats.items():
        if n != "default":
            API.create_material(e, n)
        API.set_elasticity(e, n, w["E"], w["nu"])
        API.set_viscosity(e, n, w["c"])
        API.set_mass_density(e, n, w["rho"])
        API.set_constitutive_model(e, n, S.model(w["model"]))
    for n, w in m.bodies.items():
        V, T = m.meshes[n]
        API.create_soft_body(e, n, V.copy(), T.copy())
        for p in w["dir"]:
            API.create_dirichlet_conditions(e, n, S.phi_of(p))
        for p, load in w["trac"]:
            API.create_traction_conditions(e, n, S.phi_of(p), np.array(load))
        API.set_gravity(e, n, np.array(w["g"]))
        API.set_type(e, n, "fixed" if w["fixed"] else "free")
        API.set_material(e, n, w["material"])
    return e


def run(case, ctx):
    API, _ = S.mods()
    F.seed_phi(1)
    e = API.create_engine()
    for k, v in case["params"].items():
        setattr(e.params, k, v)
    m = Model(case["meshes"])
    est, hist = {}, []
    check(agree(e, m) is None, "fresh-engine", lambda: agree(e, m))
    for op in case["ops"]:
        op = dict(op)
        k = op["k"]
        bad = m.invalid(op)
        if k == "simulate" and not bad and (not m.bodies or any(m.mats[b["material"]]["rho"] == 0 for b in m.bodies.values()) or S.squashed(e)):
            continue
        before = S.full_snap(e)
        scribble, done = [], False
        if "fault" in op and not bad:
            inj = F.CallInjector(at=max(1, int(op["fault"]["u"] * est.get(k, 6)) + 1), exc=F.make_exc(op["fault"]["exc"]))
            try:
                with inj:
                    perform(e, m, op, scribble)
                done = True
            except BaseException as x:  # noqa
                if inj.fired is None or not isinstance(x, (Exception, KeyboardInterrupt)):
                    raise
                ctx.fault("call-failure")
                if k != "simulate" and digest(before) != digest(S.full_snap(e)):
                    m.apply(op, case)
                    d = agree(e, m)
                    check(d is None, "half-done:" + k, lambda: "a %s that failed in %s is neither undone nor done: %s" % (k, inj.fired, d))
                    done = None
        if done is False:
            inj = F.CallInjector()
            try:
                with inj:
                    perform(e, m, op, scribble)
                est[k] = inj.n
                check(not bad, "invalid-accepted:" + k, lambda: str(op))
            except Exception as x:
                if not bad or type(x).__name__ in ("Violation", "InvalidCase"):
                    raise
                check(digest(before) == digest(S.full_snap(e)), "rejected-call-had-effect:" + k, lambda: "%s raised %r but changed the engine" % (op, x))
                if isinstance(x, InjectedFault):
                    ctx.fault("client-function-failure")
        for a in scribble:
            a += 3.25
            a *= -1.5
        if not bad and done is not None:
            m.apply(op, case)
        if k == "simulate":
            for n, b in m.bodies.items():
                b["x"], b["u"] = np.array(e.bodies[n].x), np.array(e.bodies[n].u)
            if not bad:
                ctx.sim_time += op["x"]
        d = agree(e, m)
        check(d is None, "model-disagrees:" + k, lambda: "after %s: %s" % ({x: y for x, y in op.items() if x not in ("fault", "_x")}, d))
        hist.append((k, bad))
        ctx.event(k, bad)
    c = canonical(m, case["params"])
    a, b = declared(e), declared(c)
    if digest(a) != digest(b):
        bad = [k for k in a if digest(a[k]) != digest(b[k])]
        sub = [(n, k) for n in a["bodies"] if n in b["bodies"] for k in a["bodies"][n] if digest(a["bodies"][n][k]) != digest(b["bodies"][n][k])]
        check(False, "depends-on-history", "an engine with this history differs from one that was told the outcome only: %s %s" % (bad, sub))
    ctx.sig(hist)
