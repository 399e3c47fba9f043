"""C16: an imported URDF robot is the one in the file: links and revolute joints at the places, with the mass, shape and axes it
declares, whatever the order and shape of its tree, what else is in the engine and which imports failed before."""
import logging
import os
import shutil
import tempfile

import numpy as np

from sim import faults as F
from sim import rigid as R
from sim.core import Rng, check, digest

CASES = {"quick": 800, "thorough": 12000}
SIG_RULE = "distinct (links, depth, branching, frames used, operation, outcome)"
SHRINK = ("ops",)
REAL = "URDF reader, XML parser, libigl mesh reader, rigid body API, file system below a scratch directory"
STUB = "missing, unreadable and malformed files, failing library calls (raised by the injector)"
ASSUMPTIONS = "robots are trees of revolute joints between links with a mesh and inertial data, plus virtual links and unsupported joints, which are ignored"
BOX = np.array([[x, y, z] for x in (0, 1) for y in (0, 1) for z in (0, 1)], float)
TRI = [[0, 1, 3], [0, 3, 2], [4, 6, 7], [4, 7, 5], [0, 4, 5], [0, 5, 1], [2, 3, 7], [2, 7, 6], [0, 2, 6], [0, 6, 4], [1, 5, 7], [1, 7, 3]]


def gen_robot(rng, tag):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    slight = rng.chance(0.15)      # origins that are nearly, but not quite, the identity

    def frame(p):
        if rng.chance(1 - p):
            return None
        s = 1e-3 if slight and rng.chance(0.7) else 1.0
        return {"xyz": [x * s for x in rng.vec(-0.4, 0.4, 3)], "rpy": [x * s for x in rng.vec(-3, 3, 3)] if rng.chance(0.7) else None}
    full = rng.random()
    links = []
    for i in range(n):
        links.append({"name": "%slink%d" % (tag, i), "parent": -1 if i == 0 else (i - 1 if rng.chance(0.5) else rng.randrange(i)), "inertial": frame(full), "collision": frame(full),
                      "mass": rng.choice([1, 1, 1, 1e-5, 1e3]) * round(rng.uniform(0.2, 5), 3), "inertia": [round(rng.uniform(0.01, 0.5), 4) for _ in range(3)], "box": rng.vec(0.2, 0.8, 3), "off": rng.vec(-0.5, 0.5, 2),
                      "joint": frame(0.9), "axis": None if rng.chance(0.15) else rng.choice([[1, 0, 0], [0, 0, -1], [0, 2, 0], rng.vec(-1, 1, 2), [0.3, -0.4, 1.2]]),
                      "scale": rng.choice([None, None, None, [1, 1, 1], [2, 2, 2], [0.5, 1.5, 1.0], [1, -1, 1], [-1, 1, -2], [0.001, 0.001, 0.001]])})
        if links[-1]["collision"] and links[-1]["inertial"] and rng.chance(0.2):
            links[-1]["inertial"]["xyz"] = links[-1]["collision"]["xyz"]  # turned about the same point
        if rng.chance(0.05):
            links[-1]["mass"], links[-1]["inertia"] = rng.choice([(0, [0, 0, 0]), (links[-1]["mass"], [0.0, 0.0, 0.0])])
        links[-1]["mesh"] = i
        if i and rng.chance(0.3):
            j = rng.randrange(i)
            links[-1].update(mesh=links[j]["mesh"], box=links[j]["box"], off=links[j]["off"])
        if links[-1]["axis"] and np.linalg.norm(links[-1]["axis"]) < 0.1:
            links[-1]["axis"] = [0, 1, 0]
    virtual = [{"name": "%svirtual%d" % (tag, i), "at": rng.randrange(n), "how": rng.choice(["none", "visual", "visual-mesh", "primitive", "dae"]), "up": rng.chance(0.4), "type": rng.choice(["fixed", "fixed", "prismatic", "floating"])}
               for i in range(rng.choice([0, 0, 1, 2]))]
    perm = list(range(n + len(virtual)))
    rng.shuffle(perm)
    jp = list(range(n - 1))
    rng.shuffle(jp)
    return {"links": links, "virtual": virtual, "perm": perm if rng.chance(0.6) else None, "jperm": jp if rng.chance(0.6) else None, "url": rng.choice(["package", "package", "absolute"]), "lead": rng.chance(0.3), "space": rng.choice([" ", " ", "  ", "\t", "\n  "]), "pad": rng.chance(0.2), "deep": rng.chance(0.3), "ext": rng.choice(["obj", "obj", "OBJ"])}


def gen(rng, tier):
    ops = []
    for i in range(rng.choice([1, 2, 3])):
        k = rng.choice(["import", "import", "import", "missing-mesh", "missing-file", "malformed", "bad-number", "duplicate", "fault"]) if i else "import"
        op = {"op": k, "robot": gen_robot(rng.fork("robot", i), "r%d_" % i), "seed": rng.randrange(1 << 30), "step": rng.chance(0.25)}
        if k == "fault":
            op["point"] = F.gen_point(rng)
        ops.append(op)
    return {"ops": ops}


def obj(path, V, T):
    with open(path, "w") as f:
        for v in V:
            f.write("v %r %r %r\n" % tuple(float(x) for x in v))
        for t in T:
            f.write("f %d %d %d\n" % tuple(i + 1 for i in t))


def write(folder, rb, name, fault=None):
    space, pad = rb.get("space", " "), " " if rb.get("pad") else ""

    def vec(v):
        return pad + space.join(repr(float(x)) for x in v) + pad

    def origin(fr):
        if fr is None:
            return ""
        return '<origin xyz="%s"%s/>' % (vec(fr["xyz"]), "" if fr["rpy"] is None else ' rpy="%s"' % vec(fr["rpy"]))


    os.makedirs(os.path.join(folder, "meshes"), exist_ok=True)
    L, J = [], []
    for i, l in enumerate(rb["links"]):
        fn = "meshes/part%d.%s" % (l["mesh"], rb.get("ext", "obj"))
        obj(os.path.join(folder, fn), BOX * l["box"] + np.array(l["off"]), TRI)
        url = "package://" + fn if rb["url"] == "package" else os.path.join(folder, fn)
        scale = "" if l["scale"] is None else ' scale="%s"' % vec(l["scale"])
        geo = '<geometry><mesh filename="%s"%s/></geometry>' % (url, scale)
        mass = repr(l["mass"]) if fault != "bad-number" or i != len(rb["links"]) - 1 else "heavy"
        L.append('<link name="%s"><visual>%s</visual><collision>%s%s</collision><inertial>%s<mass value="%s"/><inertia ixx="%r" iyy="%r" izz="%r" ixy="0" ixz="0" iyz="0"/></inertial></link>' % (
            l["name"], geo, origin(l["collision"]), geo, origin(l["inertial"]), mass, *l["inertia"]))
        if l["parent"] >= 0:
            axis = "" if l["axis"] is None else '<axis xyz="%s"/>' % vec(l["axis"])
            J.append('<joint name="%s_joint" type="revolute"><parent link="%s"/><child link="%s"/>%s%s<limit lower="-1" upper="1"/></joint>' % (
                l["name"], rb["links"][l["parent"]]["name"], l["name"], origin(l["joint"]), axis))
    for v in rb["virtual"]:
        inner = {"none": "", "visual": '<visual><geometry><box size="1 1 1"/></geometry></visual>', "visual-mesh": "<visual>%s</visual>" % geo, "primitive": '<collision><geometry><sphere radius="0.1"/></geometry></collision>',
                 "dae": '<collision><geometry><mesh filename="package://meshes/x.dae"/></geometry></collision>'}[v["how"]]
        L.append('<link name="%s">%s</link>' % (v["name"], inner))
        at = rb["links"][v["at"] if not v["up"] else 0]["name"]
        a, b = (v["name"], at) if v["up"] else (at, v["name"])
        J.append('<joint name="%s_joint" type="%s"><parent link="%s"/><child link="%s"/><origin xyz="0.1 0 0" rpy="0 1 0"/></joint>' % (v["name"], v["type"], a, b))
    if rb["perm"]:
        L = [L[i] for i in rb["perm"]]
    if rb["jperm"]:
        k = len(rb["jperm"])
        J[:k] = [J[i] for i in rb["jperm"]]
    txt = '<?xml version="1.0"?>\n<robot name="%s">\n%s\n</robot>\n' % (name, "\n".join((J + L) if rb["lead"] else (L + J)))
    if fault == "malformed":
        txt = txt[:int(len(txt) * 0.7)]
    if fault == "missing-mesh":
        os.unlink(os.path.join(folder, "meshes/part%d.%s" % (rb["links"][-1]["mesh"], rb.get("ext", "obj"))))
    if fault != "missing-file":
        os.makedirs(os.path.dirname(os.path.join(folder, name + ".urdf")), exist_ok=True)
        with open(os.path.join(folder, name + ".urdf"), "w") as f:
            f.write(txt)


def mat(fr):
    M = np.eye(4)
    if fr is not None:
        M[:3, 3] = fr["xyz"]
        r, p, y = fr["rpy"] or [0.0] * 3
        c, s = np.cos, np.sin
        Rx = np.array([[1, 0, 0], [0, c(r), -s(r)], [0, s(r), c(r)]])
        Ry = np.array([[c(p), 0, s(p)], [0, 1, 0], [-s(p), 0, c(p)]])
        Rz = np.array([[c(y), -s(y), 0], [s(y), c(y), 0], [0, 0, 1]])
        M[:3, :3] = Rz @ Ry @ Rx
    return M


def pose(b):
    M = np.eye(4)
    M[:3, :3], M[:3, 3] = R.q_mat(b.q), b.r
    return M


def judge(e, rb, where):
    ref = []
    for i, l in enumerate(rb["links"]):
        ref.append(np.eye(4) if i == 0 else ref[l["parent"]] @ mat(l["joint"]))
    for i, l in enumerate(rb["links"]):
        check(l["name"] in e.bodies, "link-missing", lambda: "%s: %s" % (where, l["name"]))
        b = e.bodies[l["name"]]
        want = ref[i] @ mat(l["inertial"])
        check(np.abs(pose(b) - want).max() <= 1e-7, "link-misplaced", lambda: "%s: %s is at\n%s, the file puts it at\n%s" % (where, l["name"], pose(b), want))
        V = BOX * l["box"] + np.array(l["off"])
        V = V * (l["scale"] or [1, 1, 1])
        Vw = (ref[i] @ mat(l["collision"]) @ np.column_stack([V, np.ones(len(V))]).T).T[:, :3]
        got = b.shape.mesh.V @ R.q_mat(b.q).T + b.r
        cents = lambda X, T: np.vstack([X, X[np.asarray(T)].mean(1)])
        A, B = cents(got, b.shape.mesh.T), cents(Vw, TRI)
        D = np.linalg.norm(A[:, None] - B[None], axis=2)
        check(len(A) == len(B) and max(D.min(0).max(), D.min(1).max()) <= 1e-7, "shape-misplaced", lambda: "%s: the shape of %s spans %s to %s, the file has %s to %s" % (
            where, l["name"], got.min(0), got.max(0), Vw.min(0), Vw.max(0)))
        P = b.shape.mesh.V[b.shape.mesh.T]
        vol = np.einsum("ij,ij->i", P[:, 0], np.cross(P[:, 1], P[:, 2])).sum() / 6
        check(abs(vol - abs(np.prod(l["box"]) * np.prod(l["scale"] or [1]))) <= 1e-7, "shape-inside-out", lambda: "%s: %s has volume %s" % (where, l["name"], vol))
        check(b.mass == l["mass"] and np.array_equal(b.inertia, l["inertia"]), "mass", lambda: "%s: %s has mass %s, inertia %s, declared %s, %s" % (where, l["name"], b.mass, b.inertia, l["mass"], l["inertia"]))
        jn = l["name"] + "_joint"
        if l["parent"] < 0:
            check(jn not in e.hinges, "joint-invented", where)
            continue
        check(jn in e.hinges, "joint-missing", lambda: "%s: %s" % (where, jn))
        h = e.hinges[jn]
        pn = rb["links"][l["parent"]]["name"]
        check(h.parent is e.bodies[pn] and h.child is b, "joint-bodies", lambda: "%s: %s connects %s and %s, declared %s and %s" % (where, jn, h.parent and h.parent.name, h.child and h.child.name, pn, l["name"]))
        ax = np.array(l["axis"] or [1, 0, 0], float)
        aw = ref[i][:3, :3] @ (ax / np.linalg.norm(ax))
        for which, body, so in (("parent", h.parent, h.socket_p), ("child", h.child, h.socket_c)):
            Rb = R.q_mat(body.q)
            o, n = Rb @ so.r + body.r, Rb @ R.q_mat(so.q)[:, 2]
            check(np.abs(o - ref[i][:3, 3]).max() <= 1e-7, "joint-origin", lambda: "%s: %s: the %s has the joint at %s, declared at %s" % (where, jn, which, o, ref[i][:3, 3]))
            check(np.abs(n - aw).max() <= 1e-6, "joint-axis", lambda: "%s: %s: the %s has the axis %s, declared %s" % (where, jn, which, n, aw))
    for v in rb["virtual"]:
        check(v["name"] not in e.bodies and v["name"] + "_joint" not in e.hinges, "virtual-link", lambda: "%s: %s became a body or joint" % (where, v["name"]))


def others(e, names):
    return {n: (np.array(b.r), np.array(b.q), np.array(b.v), np.array(b.w), b.mass, np.array(b.inertia), b.idx, b.shape.name if b.shape else None) for n, b in e.bodies.items() if n in names}


def run(case, ctx):
    from rainbow.simulators.prox_rigid_bodies.scenes.read_urdf import read_urdf
    API, MESH = R.mods()
    logging.getLogger("rainbow").addHandler(logging.NullHandler())
    tmp = tempfile.mkdtemp(prefix="c16-")
    try:
        e = API.create_engine()
        e.params.resolution = 6
        done = []
        for n, op in enumerate(case["ops"]):
            k, rb = op["op"], op["robot"]
            where = "operation %d (%s)" % (n, k)
            folder = os.path.join(tmp, "p%d" % n)
            name = ("urdf/v%d/robot%d" % (n, n)) if rb.get("deep") else "robot%d" % n
            write(folder, rb, name, k if k in ("missing-mesh", "missing-file", "malformed", "bad-number") else None)
            before = others(e, set(e.bodies))
            full = digest(R.full_snap(e))
            path = ("/" if op["seed"] % 3 == 0 else "") + name + ".urdf"
            if k == "import":
                read_urdf(e, folder, path)
                judge(e, rb, where)
                done.append((rb, before))
                check(len(e.bodies) == len(before) + len(rb["links"]), "bodies", lambda: "%s: %d bodies" % (where, len(e.bodies)))
            elif k in ("missing-mesh", "missing-file", "malformed", "bad-number"):
                try:
                    read_urdf(e, folder, path)
                    ok = True
                except Exception:
                    ok = False
                check(not ok, "accepted-broken-file", where)
                ctx.fault(k)
                check(digest(R.full_snap(e)) == full, "failed-import-changed-world", where)
            elif k == "duplicate" and done:
                rb2 = dict(rb, links=[dict(l) for l in rb["links"]], virtual=[])
                rb2["links"][0]["name"] = done[0][0]["links"][0]["name"]
                rb2["perm"] = None
                write(folder, rb2, name)
                try:
                    read_urdf(e, folder, path)
                    check(False, "accepted-duplicate-name", where)
                except RuntimeError:
                    pass
                ctx.fault("duplicate-name")
            elif k == "fault":
                e2 = API.create_engine()
                e2.params.resolution = 6
                rec = F.CallInjector()
                with rec:
                    read_urdf(e2, folder, path)
                at = rec.pick(op["point"]["mode"], op["point"]["u"], op["point"]["v"])
                inj = F.CallInjector(at=at, exc=F.make_exc(op["point"]["exc"]))
                failed = True
                try:
                    with inj:
                        read_urdf(e, folder, path)
                    failed = False
                except (Exception, KeyboardInterrupt):
                    if inj.fired is None:
                        raise
                if failed:
                    ctx.fault("call-failure:" + op["point"]["exc"])
                    ctx.sig("fault", inj.fired)
                else:
                    judge(e, rb, where)
                e3 = API.create_engine()
                e3.params.resolution = 6
                read_urdf(e3, folder, path)
                judge(e3, rb, where + ", read again into another engine")
            now = others(e, set(before))
            check(digest(now) == digest(before), "import-changed-other-bodies", where)
            if op["step"] and k == "import" and all(l["mass"] > 0.1 and min(l["inertia"]) > 0 for l in rb["links"]):
                x = API.create_engine()
                x.params.resolution = 6
                read_urdf(x, folder, path)
                dt = x.params.time_step
                API.simulate(x, dt)
                ctx.sim_time += dt
            ctx.event(k, len(e.bodies), len(e.hinges), digest(others(e, set(e.bodies))))
            ctx.sig(k, len(rb["links"]), tuple(l["parent"] for l in rb["links"]), len(rb["virtual"]), rb["links"][0]["inertial"] is None)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
