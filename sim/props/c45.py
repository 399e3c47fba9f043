"""C45: the application shows and records exactly the simulation it runs.  The real application is run frame by frame: its main
function hands a callback to the window system, which is simulated here and plays a script of check boxes, scene choices, buttons,
pauses and crashes.  A second engine that only ever sees API calls says what each frame must show and each recording must hold."""
import contextlib
import importlib.util
import io
import logging
import os
import shutil
import sys
import tempfile
import types

import numpy as np

from sim import boot
from sim import faults as F
from sim import rigid as R
from sim.core import InjectedFault, InvalidCase, check

CASES = {"quick": 300, "thorough": 9000}
SIG_RULE = "distinct (script event, running or paused, position in the recording, outcome) sequences"
SHRINK = ("ops",)
REAL = "the application (rigid_bodies_app_gui), its plots, the rigid body simulator, the XML writer, the USD recorder, the file system below a scratch directory"
STUB = "the window system and its widgets (the polyscope module), the builder of the chosen scene in most runs, disk full (file size limit of the kernel), crashes (failing calls end the application)"
ASSUMPTIONS = "recordings are shortened: the number of steps of a scene is checked, then replaced; a recording that is abandoned for a new scene is not saved"
NAMES = ["pillar", "stack", "chain"]


def gen(rng, tier):
    if rng.chance(0.12):
        w = R.gen_world(rng, n=rng.choice([1, 2, 3]), contact=rng.chance(0.7), hinges=rng.chance(0.2), params={"resolution": 4, "max_iterations": rng.choice([3, 8])}, kinds=("box", "tetra"))
        w["params"]["time_step"] = rng.choice([0.5, 0.25, 0.2, 0.1, 0.08, 0.07, 0.05, 0.19])
        return {"cmd": rng.choice(["own", "other", "other", "other"]), "worlds": [w], "ops": [{"op": "run"}] + [{"op": rng.choice(["run", "run", "restart"])} for _ in range(rng.choice([0, 0, 1, 2]))]}
    worlds = []
    for i in range(rng.choice([1, 2, 2])):
        w = R.gen_world(rng, n=rng.choice([1, 2, 2, 3]), contact=rng.chance(0.6), hinges=rng.chance(0.2), params={"resolution": 4, "max_iterations": 5}, kinds=("box", "tetra"))
        w["params"].pop("time_step", None)
        worlds.append(w)
    ops = [] if rng.chance(0.1) else [{"op": "scene", "i": 0}, {"op": "sim"}]
    if rng.chance(0.4):
        ops.insert(0, {"op": "xml"})
    for _ in range(rng.choice([6, 10, 16])):
        k = rng.choice(["frames"] * 6 + ["sim", "scene", "xml", "select", "both", "slow"])
        op = {"op": k}
        if k == "frames":
            op["n"] = rng.choice([1, 1, 2, 5])
        if k in ("scene", "select", "both"):
            op["i"] = rng.randrange(len(worlds))
        ops.append(op)
        if rng.chance(0.05):
            ops.append({"op": "crash", "u": round(rng.random(), 4)})
        if rng.chance(0.08):
            ops.append({"op": "disk", "u": round(rng.random(), 4)})
    return {"worlds": worlds, "steps": [rng.choice([1, 2, 3, 4, 7, 9]) for _ in worlds], "profiling": rng.chance(0.3), "ops": ops}


class Window:
    """The window system: what is shown, and the script of the user."""

    def __init__(self):
        self.shown, self.callback, self.script, self.driver = {}, None, {}, None

    def module(self):
        ps, im = types.ModuleType("polyscope"), types.ModuleType("polyscope.imgui")

        class Mesh:
            def __init__(self, V, T, color):
                self.V, self.T, self.color, self.M = np.array(V), np.array(T), np.array(color), np.eye(4)

            def set_transform(self, M):
                self.M = np.array(M, float)

        def register(name, V, T, smooth_shade=False, color=None, transparency=None):
            self.shown[name] = Mesh(V, T, color)
        ps.remove_all_structures = self.shown.clear
        ps.register_surface_mesh = register
        ps.get_surface_mesh = lambda n: self.shown[n]
        ps.set_up_dir = ps.init = lambda *a: None
        ps.set_user_callback = lambda f: setattr(self, "callback", f)
        ps.show = lambda: self.driver()
        box = {"Simulate": "sim", "Save xml": "xml", "Show profiling": "profiling"}

        def checkbox(label, value):
            t = bool(self.script.get(box.get(label)))
            return t, (not value) if t else value

        def combo(label, value, names):
            i = self.script.get("select")
            return i is not None and i != value, value if i is None else i
        im.Checkbox, im.Combo = checkbox, combo
        im.Button = lambda label: bool(self.script.get("create"))
        ps.imgui = im
        return ps, im


class Crash(BaseException):
    pass


class Done(BaseException):
    pass


def load(win):
    """A fresh start of the application."""
    ps, im = win.module()
    sys.modules["polyscope"], sys.modules["polyscope.imgui"] = ps, im
    spec = importlib.util.spec_from_file_location("rigid_bodies_app_gui", os.path.join(boot.REPO, "rigid_bodies_app_gui.py"))
    app = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(app)
    return app


def fill(engine, spec):
    R.set_params(engine, spec["params"])
    API, _ = R.mods()
    for m in spec["materials"]:
        API.create_surfaces_interaction(engine, m[0], m[1], m[2], np.array(m[3], float))
    for what, f in (("forces", R.add_force), ("shapes", R.add_shape), ("bodies", R.add_body), ("hinges", R.add_hinge)):
        for x in spec[what]:
            f(engine, x)


def poses(e):
    return {n: (np.array(b.r), np.array(b.q)) for n, b in e.bodies.items()}


def matrix(r, q):
    M = np.eye(4)
    M[:3, :3], M[:3, 3] = R.q_mat(R.q_unit(q)), r
    return M


def read(path, twin, track, fps, where):
    from pxr import Usd, UsdGeom
    check(os.path.exists(path), "not-saved", lambda: "%s: there is no recording" % where)
    d = tempfile.mkdtemp(prefix="c45-read-")
    shutil.copyfile(path, os.path.join(d, "copy.usda"))
    st = Usd.Stage.Open(os.path.join(d, "copy.usda"))
    xf = st.GetPrimAtPath("/scene/xform")
    got = {c.GetName() for c in xf.GetChildren()}
    check(got == set(twin.bodies), "recorded-bodies", lambda: "%s: %s are recorded, the scene has %s" % (where, sorted(got), sorted(twin.bodies)))
    check(abs(st.GetFramesPerSecond() - fps) <= 1e-9 * fps, "frame-rate", lambda: "%s: %s frames per second, simulated are %s" % (where, st.GetFramesPerSecond(), fps))
    check((st.GetStartTimeCode(), st.GetEndTimeCode()) == (0, len(track)), "animation-time", lambda: "%s: lasts %s to %s, simulated are %d frames" % (where, st.GetStartTimeCode(), st.GetEndTimeCode(), len(track)))
    for n, b in twin.bodies.items():
        m = UsdGeom.Mesh(st.GetPrimAtPath("/scene/xform/" + n))
        check(np.array_equal(np.asarray(m.GetPointsAttr().Get(), np.float32), np.asarray(b.shape.mesh.V, np.float32)), "recorded-shape", lambda: "%s: %s" % (where, n))
        check(list(m.GetFaceVertexIndicesAttr().Get()) == np.asarray(b.shape.mesh.T).ravel().tolist(), "recorded-shape", lambda: "%s: %s" % (where, n))
        x = UsdGeom.Xformable(m)
        ts = sorted({t for op in x.GetOrderedXformOps() for t in op.GetTimeSamples()})
        check(set(ts) <= set(range(len(track))), "recorded-frames", lambda: "%s: %s has frames %s, simulated are %d" % (where, n, ts, len(track)))
        for t, p in enumerate(track):
            M, want = np.array(x.ComputeLocalToWorldTransform(t)).T, matrix(*p[n])
            check(np.abs(M - want).max() <= 1e-5 + 1e-12 * np.abs(want).max() and np.abs(M - want)[:3, 3].max() <= 1e-12 * (1 + np.abs(want).max()), "recorded-pose",
                  lambda: "%s: frame %d shows %s at\n%s, simulated\n%s" % (where, t, n, M, want))
    del st
    shutil.rmtree(d)


def run(case, ctx):
    tmp, cwd = tempfile.mkdtemp(prefix="c45-"), os.getcwd()
    level = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        os.chdir(tmp)
        with contextlib.redirect_stdout(io.StringIO()):
            if "cmd" in case:
                return command_line(case, ctx)
            todo = list(enumerate(case["ops"]))
            disk = {}     # what a restart finds
            life = 0
            while todo or not life:
                life += 1
                todo = one_life(case, ctx, todo, disk, life)
    finally:
        logging.disable(level)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
        sys.modules.pop("polyscope", None)
        sys.modules.pop("polyscope.imgui", None)


def command_line(case, ctx):
    """The application without a window: half a second of simulation, then the convergence of every step that had any."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    API, _ = R.mods()
    spec = importlib.util.spec_from_file_location("rigid_bodies_app_cmd", os.path.join(boot.REPO, "rigid_bodies_app_cmd.py"))
    app = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(app)
    if not all(callable(getattr(app, f, None)) for f in ("setup_scene", "simulate", "plot")):
        raise InvalidCase()     # its parts have other names now
    e = tw = None
    for i, op in enumerate(case["ops"]):
        where, k = "run %d" % i, op["op"]
        if e is None or k == "restart":
            e = tw = None
            if case["cmd"] == "own":
                e, tw = API.create_engine(), API.create_engine()
                for x in (e, tw):
                    x.params.resolution, x.params.max_iterations, x.params.time_step = 4, 5, case["worlds"][0]["params"]["time_step"]
                    app.setup_scene(x)
                check(len(e.bodies) > 0 and any(b.is_fixed for b in e.bodies.values()) and any(b.forces for b in e.bodies.values() if not b.is_fixed), "own-scene", where)
            else:
                e, tw = R.build(case["worlds"][0]), R.build(case["worlds"][0])
            log = []
        dt = tw.params.time_step
        n = int(np.round(0.5 / dt))
        app.simulate(e)
        for _ in range(n):
            API.simulate(tw, dt, profiling_on=True)
        got, want = R.snap(e), R.snap(tw)
        check(R.same_snap(got, want), "trajectory", lambda: "%s: %s after %d steps of %s" % (where, R.diff_snap(got, want), n, dt))
        log = API.get_log(tw)
        check(len(API.get_log(e)) == len(log), "log", lambda: "%s: %d entries after %d steps" % (where, len(API.get_log(e)), len(log)))
        plt.close("all")
        app.plot(e)
        curves = [np.array(l.get_ydata(), float) for f in plt.get_fignums() for ax in plt.figure(f).axes for l in ax.get_lines()]
        plt.close("all")
        res = [np.array(d["residuals"], float) for d in log if "residuals" in d]
        check(len(res) == len(curves) and all(np.array_equal(a, b) for a, b in zip(res, curves)), "plot", lambda: "%s: %d convergence curves of %d steps with contacts" % (where, len(curves), len(res)))
        check(R.same_snap(R.snap(e), want), "plot-changes-scene", where)
        ctx.sim_time += n * dt
        ctx.sig("cmd", k, case["cmd"], n, min(len(res), 4))
        ctx.event("cmd", where, n, len(res))


def one_life(case, ctx, todo, disk, life):
    API, _ = R.mods()
    win = Window()
    app = load(win)
    app.SCENE = types.SimpleNamespace(create_scene=lambda engine, scene_name: fill(engine, case["worlds"][NAMES.index(scene_name)]), write_xml=app.SCENE.write_xml, get_scene_names=lambda: list(NAMES))
    S = {"sim": False, "xml": False, "profiling": False, "sel": 0, "twin": None, "step": 0, "open": False, "track": [], "rest": []}
    dt = API.create_engine().params.time_step
    geometry, short = app.create_visual_geometry, case["steps"]

    def create_visual_geometry(engine):
        geometry(engine=engine)
        P = app.app_params
        check(P["steps"] == round(10.0 / dt) and P["total time"] == 10.0 and P["step"] == 0, "length", lambda: "a new scene has %s steps of %s for %s seconds and starts at %s" % (P["steps"], dt, P["total time"], P["step"]))
        P["steps"] = short[P["selected"]]
        P["total time"] = P["steps"] * dt
    app.create_visual_geometry = create_visual_geometry

    def look(where, pose):
        """What the window shows."""
        tw = S["twin"]
        check(set(win.shown) == set(tw.bodies) if tw else not win.shown, "shown-bodies", lambda: "%s: shown are %s" % (where, sorted(win.shown)))
        for n, (r, q) in (pose or {}).items():
            b, m = tw.bodies[n], win.shown[n]
            check(np.abs(m.M - matrix(r, q)).max() <= 1e-9 * (1 + np.abs(r).max()), "shown-pose", lambda: "%s: %s is shown at\n%s, simulated\n%s" % (where, n, m.M, matrix(r, q)))
            check(np.array_equal(m.V, b.shape.mesh.V) and np.array_equal(m.T, b.shape.mesh.T), "shown-shape", lambda: "%s: %s" % (where, n))
            check((m.color[2] > m.color[0]) == bool(b.is_fixed), "shown-colour", lambda: "%s: %s is %s" % (where, n, m.color))

    def frame(where, script=None, limit=None, crash=None):
        s = win.script = dict(script or {})
        tw = S["twin"]
        # what has to happen in this frame
        for k in ("sim", "xml", "profiling"):
            S[k] ^= bool(s.get(k))
        if s.get("select") is not None:
            S["sel"] = s["select"]
        if s.get("create"):
            tw = R.build(case["worlds"][S["sel"]])
            S.update(twin=tw, step=0, track=[], n=short[S["sel"]], at=poses(tw))
            if S["xml"]:
                app.SCENE.write_xml(tw, "expected.xml")
        save = tw is not None and S["sim"] and S["step"] >= S["n"] and S["open"]
        go = tw is not None and S["sim"] and S["step"] < S["n"]
        if go:
            if S["step"] == 0:
                S["open"] = True
            S["at"] = poses(tw)
            S["track"].append(S["at"])
            S["step"] += 1
        if crash is not None:
            inj = F.CallInjector(at=1 + int(crash * 60), exc=InjectedFault("crash"))
            try:
                with inj:
                    win.callback()
            except InjectedFault:
                pass
            if inj.fired:
                ctx.fault("crash")
            raise Crash()
        if limit is not None and save:
            app.usd_scene.save()
            size = os.path.getsize("animation.usda")
            try:
                with F.disk_limit(int(limit * size)):
                    win.callback()
                raised = False
            except Exception:  # noqa
                raised = True
            ctx.fault("disk-full")
            if raised:      # the window system goes on when its user catches the error: the next frame saves again
                s = win.script = {}
                win.callback()
        else:
            win.callback()
        if go:
            API.simulate(tw, tw.params.time_step, profiling_on=True)
        look(where, S["at"] if tw else None)
        e = app.app_params["engine"]
        check((e is None) == (tw is None), "engine", where)
        if tw is not None:
            check(app.app_params["step"] == S["step"], "step-count", lambda: "%s: the application is at step %s, %s were simulated" % (where, app.app_params["step"], S["step"]))
            got, want = R.snap(e), R.snap(tw)
            check(R.same_snap(got, want), "trajectory", lambda: "%s: %s" % (where, R.diff_snap(got, want)))
            check(len(API.get_log(e)) == S["step"], "log", lambda: "%s: %d entries after %d steps" % (where, len(API.get_log(e)), S["step"]))
        if save:
            S["open"] = False
            read("animation.usda", tw, S["track"], 1.0 / dt, where)
            disk["animation.usda"] = open("animation.usda", "rb").read()
        if s.get("create") and S["xml"]:
            name = NAMES[S["sel"]] + ".xml"
            check(os.path.exists(name) and open(name, "rb").read() == open("expected.xml", "rb").read(), "xml", lambda: "%s: %s is not the scene that was created" % (where, name))
            os.remove("expected.xml")
            disk[name] = open(name, "rb").read()
        for f, data in disk.items():
            check(os.path.exists(f) and open(f, "rb").read() == data, "file-changed", lambda: "%s: %s is not what was saved" % (where, f))
        have = set(os.listdir("."))
        check(have <= set(disk), "stray-files", lambda: "%s: %s" % (where, sorted(have - set(disk))))
        ctx.sig(tuple(sorted(s)), S["sim"], save, go, min(S["step"], 3), tw is None)
        ctx.event("frame", where, S["step"], save, go)

    def driver():
        frame("first frame")
        while todo:
            i, op = todo.pop(0)
            where, k = "life %d, event %d (%s)" % (life, i, op["op"]), op["op"]
            if k == "frames":
                for j in range(op["n"]):
                    frame(where)
            elif k in ("sim", "xml"):
                frame(where, {k: True})
            elif k == "select":
                frame(where, {"select": op["i"]})
            elif k == "scene":
                frame(where, {"select": op["i"], "create": True})
            elif k == "both":
                frame(where, {"select": op["i"], "create": True, "sim": True})
            elif k == "slow":
                ctx.sim_time += 1.0
            elif k == "disk":
                frame(where, limit=op["u"])
            elif k == "crash":
                frame(where, crash=op["u"])
        if case["profiling"] and S["twin"] is not None and S["step"] >= 2:
            frame("profiling", {"profiling": True})

    win.driver = driver
    try:
        app.main()
    except Crash:
        # whatever was saved earlier is still there, unless the crash hit the frame that saves it anew
        for f in list(disk):
            if not os.path.exists(f) or open(f, "rb").read() != disk[f]:
                check(f == "animation.usda" and S["open"] and S["step"] >= S.get("n", 1 << 30), "file-changed", lambda: "a crash destroyed %s" % f)
                disk.pop(f)
        if os.path.exists("animation.usda"):
            disk["animation.usda"] = open("animation.usda", "rb").read()
        return todo
    if S["profiling"]:
        plots(app, S, ctx)
    return todo


def plots(app, S, ctx):
    import matplotlib.pyplot as plt
    API, _ = R.mods()
    log = API.get_log(app.app_params["engine"])
    want = {"Update bvh": "update_bvh", "Narrow phase": "narrow_phase", "Contact determination": "contact_determination", "Contact reduction": "contact_point_reduction", "Collision Detection": "collision_detection_time", "Stepper": "stepper_time",
            "Overlaps": "number_of_overlaps", "Step size": "dt", "Contacts": "contact_points", "Penetrations": "max_penetration", "Kinetic Energy": "kinetic_energy", "Potential Energy": "potential_energy"}
    got, curves = {}, []
    for i in plt.get_fignums():
        for ax in plt.figure(i).axes:
            for l in ax.get_lines():
                if ax.get_title() == "Convergence rates":
                    curves.append(np.array(l.get_ydata(), float))
                else:
                    got[l.get_label()] = np.array(l.get_ydata(), float)
    plt.close("all")
    for label, key in want.items():
        full = np.array([d[key] for d in log], float)
        check(label in got and (np.array_equal(got[label], full) or np.array_equal(got[label], full[1:])), "plot", lambda: "%s shows %s, the log has %s" % (label, got.get(label), full))
    res = [np.array(d["residuals"], float) for d in log if "residuals" in d]
    check(len(res) == len(curves) and all(np.array_equal(a, b) for a, b in zip(res, curves)), "plot", lambda: "%d convergence curves of %d steps" % (len(curves), len(res)))
    ctx.count("plots", len(got))
