"""C44: a USD recording holds exactly what was recorded: after a save the file has every mesh and body with its geometry and a
sample for every recorded time, poses mean what the simulator means by them, rejected calls record nothing, failing disks
are reported and a later save is complete."""
import os
import shutil
import tempfile

import numpy as np

from sim import faults as F
from sim import rigid as R
from sim.core import Rng, check, digest

CASES = {"quick": 700, "thorough": 30000}
SIG_RULE = "distinct (operation, file format, recorded objects, samples, outcome)"
SHRINK = ("ops",)
REAL = "USD recorder, the USD library, the file system below a scratch directory"
STUB = "disk full (file size limit of the kernel), failing library calls (raised by the injector)"
ASSUMPTIONS = "positions of meshes are stored in single precision; a failed call may leave an unregistered, incomplete object in the scene until it is repeated"
OPS = ["mesh", "rigid", "move", "move", "move", "pose", "pose", "pose", "unknown", "duplicate", "kind", "short", "bad-name", "save", "save", "disk", "fault", "fault", "scribble", "meta", "steps"]


def gen(rng, tier):
    n = rng.choice([1, 1, 2])
    ops = [{"op": rng.choice(["mesh", "rigid"]), "r": i, "seed": rng.randrange(1 << 30)} for i in range(n)]
    for _ in range(rng.choice([6, 14, 25])):
        op = {"op": rng.choice(OPS), "r": rng.randrange(n), "seed": rng.randrange(1 << 30)}
        if op["op"] == "fault":
            op["what"] = rng.choice(["mesh", "rigid", "move", "pose", "save"])
            op["point"] = F.gen_point(rng)
        if op["op"] == "disk":
            op["u"] = round(rng.random(), 4)
        ops.append(op)
    return {"n": n, "ext": [rng.choice(["usda", "usda", "usd", "usdc"]) for _ in range(n)], "same": rng.chance(0.2), "ops": ops + [{"op": "save", "r": i, "seed": 1} for i in range(n)]}


class Rec:
    def __init__(self, u, path, ext):
        self.u, self.path, self.ext = u, path, ext
        self.obj = {}     # name -> dict(kind, V, T, samples)
        self.partial = set()
        self.fps = self.end = None


def geometry(rng):
    n = rng.choice([3, 4, 6])
    V = np.array([rng.vec(-3, 3) for _ in range(n)]) * rng.choice([1.0, 1.0, 1e-4, 1e3])
    T = np.array([rng.sample(range(n), 3) for _ in range(rng.choice([1, 2, 5]))])
    return V, T


def f32(V):
    return np.asarray(V, np.float32)


def stamp(rng):
    return rng.choice([0.0, 1.0, 2.0, rng.randrange(5), round(rng.uniform(-3, 50), 4), 1e-3, rng.randrange(100) / 30.0, rng.randrange(200) / 60.0, 0.001 * rng.randrange(100) / 7])


def do(rec, k, rng):
    """One recording operation; returns what it means for the model."""
    u = rec.u
    if k in ("mesh", "rigid"):
        name = "o%d" % len(rec.obj)  # the same names in every recording
        V, T = geometry(rng)
        dt = rng.choice([np.float64, np.float64, np.float32])
        A, B = V.astype(dt), T.copy()
        rec.partial.add(name)
        (u.add_mesh if k == "mesh" else u.add_rigid_body)(name, A, B)
        A[:] = 7e7
        B[:] = 0

        def f():
            rec.partial.discard(name)
            rec.obj[name] = {"kind": k, "V": V, "T": T, "samples": {}}
        return f
    names = sorted(n for n, o in rec.obj.items() if o["kind"] == ("mesh" if k == "move" else "rigid"))
    if k == "save":
        u.save()
        return lambda: None
    if not names:
        return lambda: None
    n, t = rng.choice(names), stamp(rng)
    o = rec.obj[n]
    if k == "move":
        V = np.array([rng.vec(-9, 9) for _ in o["V"]])
        A = V.copy()
        u.set_mesh_positions(n, A, t)
        A[:] = 7e7

        def f():
            o["samples"][float(t)] = V
        return f
    r, q = np.array(rng.vec(-9, 9)) * rng.choice([1.0, 1e-4, 1 / 3, 3e4]), np.array(rng.quat())
    a, b = (r.copy(), q.copy()) if rng.chance(0.7) else (r.tolist(), q.tolist())
    u.update_rigid_body(n, a, b, t)
    if isinstance(a, np.ndarray):
        a[:] = 7e7
        b[:] = 0.0

    def g():
        o["samples"][float(t)] = (r, q)
    return g


def read(rec, path, where):
    from pxr import Usd, UsdGeom
    d = tempfile.mkdtemp(prefix="c44-", dir=os.path.dirname(rec.path))
    p = os.path.join(d, "copy." + rec.ext)
    shutil.copyfile(path, p)
    try:
        st = Usd.Stage.Open(p)
    except Exception as e:  # noqa
        st = None
    check(st, "unreadable-file", lambda: "%s: the saved file can not be opened" % where)
    xf = st.GetPrimAtPath("/scene/xform")
    got = {c.GetName() for c in xf.GetChildren()} if xf else set()
    check(set(rec.obj) <= got and got <= set(rec.obj) | rec.partial, "objects", lambda: "%s: the file has %s, recorded: %s" % (where, sorted(got), sorted(rec.obj)))
    for n, o in rec.obj.items():
        m = UsdGeom.Mesh(st.GetPrimAtPath("/scene/xform/" + n))
        check(m, "objects", lambda: "%s: %s is no mesh" % (where, n))
        idx, cnt = m.GetFaceVertexIndicesAttr().Get(), m.GetFaceVertexCountsAttr().Get()
        check(idx is not None and list(idx) == o["T"].ravel().tolist() and list(cnt) == [3] * len(o["T"]), "faces", lambda: "%s: %s has faces %s %s, recorded %s" % (where, n, idx, cnt, o["T"].tolist()))
        pa = m.GetPointsAttr()
        pts = pa.Get()
        check(pts is not None and np.array_equal(f32(pts), f32(o["V"])), "points", lambda: "%s: %s has points %s, recorded %s" % (where, n, pts, o["V"].tolist()))
        times = sorted(o["samples"])
        if o["kind"] == "mesh":
            check(sorted(pa.GetTimeSamples()) == times, "samples", lambda: "%s: %s has samples at %s, recorded %s" % (where, n, pa.GetTimeSamples(), times))
            for t in times:
                check(np.array_equal(f32(pa.Get(t)), f32(o["samples"][t])), "positions", lambda: "%s: %s at %s" % (where, n, t))
        else:
            check(not pa.GetTimeSamples(), "samples", lambda: "%s: the shape of %s is animated" % (where, n))
            x = UsdGeom.Xformable(m)
            ts = sorted({t for op in x.GetOrderedXformOps() for t in op.GetTimeSamples()})
            check(ts == times, "samples", lambda: "%s: %s has poses at %s, recorded %s" % (where, n, ts, times))
            for t in times:
                r, q = o["samples"][t]
                M = np.array(x.ComputeLocalToWorldTransform(t)).T
                want = np.eye(4)
                want[:3, :3], want[:3, 3] = R.q_mat(R.q_unit(q)), r
                check(np.abs(M - want)[:3, :3].max() <= 1e-5 and np.abs(M - want)[:, 3].max() <= 1e-12 * np.abs(r).max(), "pose", lambda: "%s: %s at %s is placed by\n%s, recorded\n%s" % (where, n, t, M, want))
    if rec.end is not None:
        check(st.GetEndTimeCode() == rec.end and st.GetStartTimeCode() == 0, "animation-time", lambda: "%s: %s to %s, set was %s" % (where, st.GetStartTimeCode(), st.GetEndTimeCode(), rec.end))
    if rec.fps is not None:
        check(st.GetFramesPerSecond() == rec.fps, "frame-rate", lambda: "%s: %s, set was %s" % (where, st.GetFramesPerSecond(), rec.fps))
    del st
    shutil.rmtree(d)


def queries(rec, where):
    u = rec.u
    check(set(u.meshes) == set(rec.obj), "objects", lambda: "%s: knows %s, recorded %s" % (where, sorted(u.meshes), sorted(rec.obj)))
    for n, o in rec.obj.items():
        if o["kind"] != "mesh":
            continue
        for t, V in o["samples"].items():
            got = u.get_mesh_positions(n, t)
            check(np.array_equal(f32(got), f32(V)), "positions", lambda: "%s: %s at %s: %s, recorded %s" % (where, n, t, got, V))


def must_raise(f, kinds, what):
    try:
        f()
    except kinds:
        return
    check(False, "accepted-invalid-call", what)


def run(case, ctx):
    import contextlib
    import io
    from rainbow.util.USD import USD
    tmp = tempfile.mkdtemp(prefix="c44-")
    try:
        recs = []
        for i, ext in enumerate(case["ext"]):
            p = os.path.join(tmp, "r%d.%s" % (i, ext))
            recs.append(Rec(USD(p), p, ext))
        for n, op in enumerate(case["ops"]):
            rec = recs[op["r"]]
            u, k = rec.u, op["op"]
            rng = Rng("c44", op["seed"])
            where = "operation %d (%s)" % (n, k)
            some = sorted(rec.obj)
            if k in ("mesh", "rigid", "move", "pose"):
                do(rec, k, rng)()
            elif k == "save":
                u.save()
                read(rec, rec.path, where)
            elif k == "unknown":
                must_raise(lambda: u.set_mesh_positions("nobody", np.zeros((3, 3)), 1.0), ValueError, where)
                must_raise(lambda: u.update_rigid_body("nobody", np.zeros(3), np.array([1.0, 0, 0, 0]), 1.0), ValueError, where)
                must_raise(lambda: u.get_mesh_positions("nobody", 1.0), ValueError, where)
            elif k == "duplicate" and some:
                V, T = geometry(rng)
                must_raise(lambda: u.add_rigid_body(rng.choice(some), V, T), ValueError, where)
            elif k == "kind" and some:
                x = rng.choice(some)
                if rec.obj[x]["kind"] == "mesh":
                    must_raise(lambda: u.update_rigid_body(x, np.zeros(3), np.array([1.0, 0, 0, 0]), 1.0), TypeError, where)
                else:
                    must_raise(lambda: u.set_mesh_positions(x, np.zeros((3, 3)), 1.0), Exception, where)
            elif k == "short" and any(o["kind"] == "rigid" for o in rec.obj.values()):
                x = rng.choice([y for y in some if rec.obj[y]["kind"] == "rigid"])
                r, q = rng.choice([(np.zeros(2), [1.0, 0, 0, 0]), (np.zeros(3), [1.0, 0, 0]), (np.ones(3), np.ones(5)), ([1.0] * 4, [1.0, 0, 0, 0])])
                must_raise(lambda: u.update_rigid_body(x, r, q, stamp(rng)), ValueError, where)
            elif k == "bad-name":
                V, T = geometry(rng)
                bad = rng.choice(["a b", "1a", "", "a-b", "a/b"])
                if bad != "a/b":
                    must_raise(lambda: rng.choice([u.add_mesh, u.add_rigid_body])(bad, V, T), Exception, where)
            elif k == "disk":
                u.save()
                size = os.path.getsize(rec.path)
                with F.disk_limit(int(op["u"] * size)):
                    try:
                        u.save()
                        raised = False
                    except Exception:  # noqa
                        raised = True
                ctx.fault("disk-full")
                if not raised:
                    read(rec, rec.path, where + " (save returned although the disk was full)")
                u.save()
                read(rec, rec.path, where + ", saved again with space")
            elif k == "fault":
                what = op["what"]
                inj = F.CallInjector(at=1 + int(op["point"]["u"] * 7), exc=F.make_exc(op["point"]["exc"]))
                done = None
                try:
                    with inj:
                        done = do(rec, what, Rng("c44", op["seed"]))
                except (Exception, KeyboardInterrupt):
                    if inj.fired is None:
                        raise
                if done is None:
                    ctx.fault("call-failure:" + op["point"]["exc"])
                    where += " failing at %s, repeated" % inj.fired
                    ctx.sig("fault", what, inj.fired)
                    done = do(rec, what, Rng("c44", op["seed"]))
                done()
            elif k == "scribble":
                for x, o in rec.obj.items():
                    if o["kind"] == "mesh" and o["samples"]:
                        u.get_mesh_positions(x, sorted(o["samples"])[0])[:] = 7e7
            elif k == "meta":
                if rng.chance(0.5):
                    rec.fps = rng.choice([24.0, 30.0, 60.0, 12.5])
                    u.set_frames_per_second(rec.fps)
                else:
                    rec.end = rng.choice([1.0, 10.0, 100.5])
                    with contextlib.redirect_stdout(io.StringIO()):
                        u.set_animation_time(rec.end)
            elif k == "steps":  # what the application does: a frame per step
                x = [y for y in some if rec.obj[y]["kind"] == "rigid"]
                r, q, v, w = (np.array(rng.vec()) for _ in range(4))
                q = np.array(rng.quat())
                for t in range(rng.choice([2, 5])):
                    for y in x:
                        u.update_rigid_body(y, r, q, t)
                        rec.obj[y]["samples"][float(t)] = (r.copy(), q.copy())
                    r += 0.1 * v
                    q = R.q_unit(q + 0.05 * R.q_mul(np.array([0.0, *w]), q))
            for x in recs:
                queries(x, where)
            ctx.event(k, digest([sorted((a, sorted(o["samples"])) for a, o in x.obj.items()) for x in recs]))
            ctx.sig(k, rec.ext, len(rec.obj), sum(len(o["samples"]) for o in rec.obj.values()))
        ctx.count("samples", sum(len(o["samples"]) for x in recs for o in x.obj.values()))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
