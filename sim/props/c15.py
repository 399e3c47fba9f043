"""C15: an exported scene is complete, exact to the documented digits and independent of display settings; a failing disk is
reported, never hidden; exporting changes nothing."""
import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET

import numpy as np

from sim import faults as F
from sim import rigid as R
from sim.core import Rng, check, digest

CASES = {"quick": 500, "thorough": 15000}
SIG_RULE = "distinct (bodies, hinges, forces, fault kinds, display setting) histories"
SHRINK = ("ops",)
REAL = "write_xml, rigid API and stepping, file system (scratch directory)"
STUB = "disk capacity (file size limit enforced by the kernel), numpy display settings, failing library calls"
ODD = ["a b", "ünï", "q\"uote", "<tag>&amp;", "tab\tname", "l'été", "x=1;y"]


def gen(rng, tier):
    w = R.gen_world(rng.fork("w"), n=rng.choice([1, 2, 3]), hinges=rng.chance(0.5), params={"resolution": 8, "max_iterations": 3})
    for b in w["bodies"]:
        if rng.chance(0.3):  # extreme but legal values
            k = rng.choice(["r", "v", "w"])
            b[k] = [x * rng.choice([1e-9, 1e-4, 1e5]) for x in b[k]]
    for f in w["forces"]:
        if f["type"] == "damping" and rng.chance(0.3):
            f[rng.choice(["alpha", "beta"])] = 1e-13
    if rng.chance(0.2):
        for i in range(5):
            w["forces"].append({"name": "wind%d" % i, "type": "gravity", "g": round(rng.uniform(0.1, 2), 3), "up": rng.unit()})
            rng.choice(w["bodies"])["forces"].append("wind%d" % i)
            w["bodies"][0]["forces"].append("wind%d" % i) if "wind%d" % i not in w["bodies"][0]["forces"] else None
    p = w["params"]
    for k, scale in (("absolute_tolerance", 1.0), ("time_step", 0.01), ("gap_reduction", 0.5), ("envelope", 0.1)):
        if rng.chance(0.3):
            p[k] = scale * rng.choice([rng.random(), 1e-9 * rng.random(), 1 / 3])
    ren = {}
    for kind in ("bodies", "shapes", "forces", "hinges"):
        for o in w[kind]:
            if rng.chance(0.25):
                new = "%s %s" % (rng.choice(ODD), o["name"])
                ren[(kind, o["name"])] = new
                o["name"] = new
    for b in w["bodies"]:
        b["shape"] = ren.get(("shapes", b["shape"]), b["shape"])
        b["forces"] = [ren.get(("forces", f), f) for f in b["forces"]]
    for h in w["hinges"]:
        h["parent"], h["child"] = (ren.get(("bodies", h[x]), h[x]) for x in ("parent", "child"))
    ops = []
    for _ in range(rng.choice([2, 4, 6])):
        k = rng.choice(["write", "write", "write", "step", "full", "full", "fault", "display", "missing"])
        op = {"op": k, "u": round(rng.random(), 5), "set": rng.choice([{"precision": 2}, {"suppress": True}, {"precision": 3, "suppress": True},
                                                                        {"threshold": 2, "edgeitems": 1}, {"linewidth": 20}, {"sign": "+"}, {"floatmode": "fixed", "precision": 4}])}
        if k == "fault":
            op["point"] = F.gen_point(rng)
        ops.append(op)
    return {"world": w, "ops": ops}


def vec(s):
    try:
        return np.array([float(x) for x in re.sub(r"[\[\],]", " ", s).split()])
    except ValueError:
        check(False, "not-numbers", s)


def near(a, b, tol=0.0):
    """Written numbers read back as the same numbers; ``tol`` is for what the export has to compute."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def one(root, tag):
    x = root.findall(tag)
    check(len(x) == 1, "section-missing", tag)
    return x[0]


def judge(path, e):
    try:
        root = ET.parse(path).getroot()
    except ET.ParseError as x:
        check(False, "not-well-formed", str(x))
    API, _ = R.mods()

    def val(n, k):
        check(k in n.attrib, "attribute-missing", "%s.%s" % (n.tag, k))
        return n.get(k)

    def cmp(n, k, want, tol=0.0):
        got = vec(val(n, k))
        check(near(got, want, tol), "value-lost:%s.%s" % (n.tag, k), lambda: "%s of %s is written as %r, it is %s" % (k, n.get("name"), val(n, k), np.asarray(want).tolist()))

    def num(n, k, want):
        check(float(val(n, k)) == want, "value-lost:%s.%s" % (n.tag, k), lambda: "%s: %s instead of %r" % (k, val(n, k), want))
    bodies = one(root, "bodies").findall("body")
    check([n.get("name") for n in bodies] == list(e.bodies), "bodies-missing", lambda: [n.get("name") for n in bodies])
    for n in bodies:
        b = e.bodies[n.get("name")]
        check(val(n, "idx") == str(b.idx) and val(n, "shape") == b.shape.name and val(n, "is_fixed") == str(b.is_fixed) and
              val(n, "material") == b.material, "value-lost:body", lambda: dict(n.attrib))
        for k, w in (("pos", b.r), ("rot", b.q), ("vel", b.v), ("spin", b.w), ("inertia", b.inertia)):
            cmp(n, k, w)
        num(n, "mass", b.mass)
        check([a.get("name") for a in n.findall("apply")] == [f.name for f in b.forces], "forces-missing", lambda: b.name)
    fs = list(one(root, "forces"))
    check([n.get("name") for n in fs] == list(e.forces), "forces-missing", lambda: [n.get("name") for n in fs])
    for n in fs:
        f = e.forces[n.get("name")]
        if n.tag == "gravity":
            num(n, "g", f.g)
            cmp(n, "up", f.up)
        else:
            num(n, "alpha", f.alpha)
            num(n, "beta", f.beta)
        check(n.tag == f.force_type.lower(), "force-type", n.tag)
    ss = one(root, "shapes").findall("shape")
    check([n.get("name") for n in ss] == list(e.shapes), "shapes-missing", lambda: [n.get("name") for n in ss])
    for n in ss:
        s = e.shapes[n.get("name")]
        vs, ts = one(n, "vertices"), one(n, "triangles")
        check(val(vs, "count") == str(len(s.mesh.V)) == str(len(vs)) and val(ts, "count") == str(len(s.mesh.T)) == str(len(ts)), "mesh-incomplete", s.name)
        check([int(v.get("idx")) for v in vs] == list(range(len(vs))), "mesh-order", s.name)
        for v, p in zip(vs, s.mesh.V):
            cmp(v, "p", p)
        for t, p in zip(ts, s.mesh.T):
            check(np.array_equal(vec(val(t, "labels")), np.array(p, float)), "value-lost:t.labels", lambda: (t.attrib, p))
    ms = one(root, "materials").findall("interaction")
    got = {tuple(val(n, "materials").split(",")): n for n in ms}
    check(sorted(got) == sorted(tuple(k) for k in e.surfaces_interactions.storage), "materials-missing", lambda: sorted(got))
    for k, n in got.items():
        i = e.surfaces_interactions.storage[k]
        num(n, "restitution", i.epsilon)
        cmp(n, "friction", i.mu)
    hs = one(root, "hinges").findall("hinge")
    check([n.get("name") for n in hs] == list(e.hinges), "hinges-missing", lambda: [n.get("name") for n in hs])
    for n in hs:
        h = e.hinges[n.get("name")]
        check(val(n, "parent") == h.parent.name and val(n, "child") == h.child.name and val(n, "parent-idx") == str(h.parent.idx) and
              val(n, "child-idx") == str(h.child.idx), "hinge-bodies", lambda: dict(n.attrib))
        Rp = R.q_mat(h.parent.q)
        cmp(n, "origin", Rp @ h.arm_p + h.parent.r, 1e-12 * (np.abs(h.arm_p).max() + np.abs(h.parent.r).max()))
        cmp(n, "axis", Rp @ h.axis_p, 1e-12)
    ps = {val(n, "name"): n for n in one(root, "params").findall("param")}
    for k, v in vars(e.params).items():
        check(k in ps and ps[k].get("value") == str(v) and ps[k].get("type") == type(v).__name__, "parameter-lost", k)


def run(case, ctx):
    API, _ = R.mods()
    import rainbow.simulators.prox_rigid_bodies.scenes as WX
    e = R.build(case["world"])
    tmp = tempfile.mkdtemp(prefix="verif-c15-")
    opts = np.get_printoptions()
    hist, last = [], None
    try:
        path = os.path.join(tmp, "scene.xml")
        size = 4000
        for op in case["ops"]:
            k = op["op"]
            before = digest(R.full_snap(e))
            if k == "step":
                API.simulate(e, e.params.time_step)
                ctx.sim_time += e.params.time_step
                last = None
                continue
            elif k == "display":
                np.set_printoptions(**op["set"])
                ctx.fault("display-settings")
            elif k == "write":
                files = set(os.listdir(tmp))
                WX.write_xml(e, path)
                judge(path, e)
                check(set(os.listdir(tmp)) == files | {"scene.xml"}, "stray-files", lambda: "the export leaves %s" % sorted(os.listdir(tmp)))
                size = os.path.getsize(path)
                data = open(path, "rb").read()
                check(last is None or last == data, "export-not-repeatable", "two exports of the same world differ")
                last = data
            elif k == "missing":
                try:
                    WX.write_xml(e, os.path.join(tmp, "nowhere", "scene.xml"))
                    check(False, "failure-hidden", "exporting into a missing directory succeeded")
                except OSError:
                    ctx.fault("missing-directory")
            elif k == "full":
                limit = int(op["u"] * size * 1.1)
                ok = False
                try:
                    with F.disk_limit(limit):
                        WX.write_xml(e, path)
                        ok = True
                except OSError:
                    ctx.fault("disk-full")
                if ok:
                    judge(path, e)
            elif k == "fault":
                inj = F.CallInjector(at=1 + int(op["point"]["u"] * 300), exc=F.make_exc(op["point"]["exc"]))
                try:
                    with inj:
                        WX.write_xml(e, path)
                except BaseException as x:  # noqa
                    if inj.fired is None or not isinstance(x, (Exception, KeyboardInterrupt)):
                        raise
                    ctx.fault("call-failure")
                else:
                    check(inj.fired is None, "failure-hidden", lambda: "the export reported success although %s failed" % inj.fired)
                    judge(path, e)
            check(digest(R.full_snap(e)) == before, "export-changed-world", k)
            hist.append(k)
            ctx.event(k, before)
        WX.write_xml(e, path)
        judge(path, e)
    finally:
        np.set_printoptions(**opts)
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.sig(len(e.bodies), len(e.hinges), len(e.forces), hist)
