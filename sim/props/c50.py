"""C50: inverse kinematics skeletons are what was declared: after an update every bone is where its joint angles put it, calls
that fail change nothing, queries (also interrupted ones) change nothing, chains and skeletons do not share state."""
import numpy as np

from sim import faults as F
from sim import ik as K
from sim.core import Rng, check, digest

CASES = {"quick": 900, "thorough": 60000}
SIG_RULE = "distinct (operation, bones, depth, euler code, outcome)"
SHRINK = ("ops",)
REAL = "inverse kinematics API, skeletons, bones, chains, quaternions"
STUB = "failures of library calls (raised by the injector)"
ASSUMPTIONS = "an interrupted update may leave a part of the poses updated, the next update has to repair them; joint angles are never affected"
OPS = ["bone", "bone", "bone", "bone", "angle", "angle", "angles", "update", "update", "update", "chains", "goal", "tool", "fd", "fd-hessian", "fd-bad", "query", "bad-bone", "bad-code", "second-root",
       "fault", "fault", "scribble", "print", "roundtrip", "swap", "compensate"]


def gen(rng, tier):
    ops = []
    n = rng.choice([1, 2, 2])
    for s in range(n):
        ops.append({"op": "root", "s": s, "seed": rng.randrange(1 << 30)})
    if rng.chance(0.1):
        ops += [{"op": "bone", "s": 0, "seed": rng.randrange(1 << 30)} for _ in range(rng.choice([16, 30]))]
    for _ in range(rng.choice([6, 12, 20])):
        op = {"op": rng.choice(OPS), "s": rng.randrange(n), "seed": rng.randrange(1 << 30)}
        if op["op"] == "fault":
            op["what"] = rng.choice(["bone", "angles", "update", "chains", "fd", "fd-hessian", "query"])
            op["point"] = F.gen_point(rng)
        ops.append(op)
        if rng.chance(0.4):
            ops.append({"op": "update", "s": op["s"], "seed": 0})
    return {"n": n, "ops": ops}


class World:
    def __init__(self, IK):
        self.s = IK.create_skeleton()
        self.m = K.Skel()
        self.chains = []  # (chain, [path, goal, tool])
        self.fresh = False  # poses are those of the joint angles
        self.held = []      # results a client got before: (what, array, values)

    def hold(self, what, *arrays):
        self.held = (self.held + [(what, a, np.array(a)) for a in arrays])[-24:]


def compare(IK, ws, where, ctx):
    for w in ws:
        s, m = w.s, w.m
        check(len(s.bones) == len(m), "bones", lambda: "%s: %d bones, declared %d" % (where, len(s.bones), len(m)))
        for i, b in enumerate(s.bones):
            check(b.idx == i and b.parent == m.parent[i] and list(b.children) == m.children(i), "tree", lambda: "%s: bone %d has parent %s and children %s, declared %s, %s" % (
                where, i, b.parent, b.children, m.parent[i], m.children(i)))
            check(b.euler_code == m.code[i] and np.array_equal(b.t, m.t[i]), "declared-bone", lambda: "%s: bone %d is %s %s, declared %s %s" % (where, i, b.euler_code, b.t, m.code[i], m.t[i]))
            check([b.alpha, b.beta, b.gamma] == list(m.ang[i]), "joint-angles", lambda: "%s: bone %d has angles %s, declared %s" % (where, i, [b.alpha, b.beta, b.gamma], m.ang[i]))
            check(b.is_root() == (m.parent[i] < 0) and b.is_end_effector() == (not m.children(i)), "tree", lambda: "%s: bone %d: root %s, end effector %s" % (where, i, b.is_root(), b.is_end_effector()))
            check(np.array_equal(b.t_wcs, b.t_wcs) and pose_ok(b, m.pose[i]), "pose", lambda: "%s: bone %d of %d (%s) is at %s %s, its joint angles put it at %s" % (
                where, i, len(m), b.euler_code, b.t_wcs, b.q_wcs, m.pose[i][1]))
        for c, (path, goal, tool) in w.chains:
            check(list(c.bones) == path and c.skeleton is s, "chain", lambda: "%s: chain %s, path %s" % (where, c.bones, path))
            check(np.array_equal(c.goal, goal) and np.array_equal(c.tool, tool), "chain", lambda: "%s: goal %s, tool %s, set were %s, %s" % (where, c.goal, c.tool, goal, tool))
        if len(m):
            a = IK.get_joint_angles(s)
            check(np.array_equal(a, np.concatenate(m.ang)), "joint-angles", lambda: "%s: reported angles %s, declared %s" % (where, a, np.concatenate(m.ang)))
            w.hold("joint angles", a)
    for w in ws:
        for what, a, v in w.held:
            check(np.array_equal(a, v), "result-changed-later", lambda: "%s: %s got before were %s and have become %s" % (where, what, v, a))


def pose_ok(b, pose):
    sc = 1.0 + np.abs(pose[1]).max()
    return np.abs(b.t_wcs - pose[1]).max() <= 1e-9 * sc * 10 and np.abs(K.q_mat(b.q_wcs) - pose[0]).max() <= 1e-8


def call(IK, w, k, rng, ctx):
    """Performs an operation on the system; returns the function that does the same to the model."""
    s, m = w.s, w.m
    if k == "bone":
        p, ang, t, code = rng.randrange(len(m)), [K.gen_angle(rng) for _ in range(3)], rng.vec(-2, 2), rng.choice(K.CODES)
        if rng.chance(0.6):
            p = len(m) - 1
        b = IK.add_bone(s, p, *ang, *t, code) if rng.chance(0.7) else IK.add_bone(s, parent_idx=p, alpha=ang[0], beta=ang[1], gamma=ang[2], tx=t[0], ty=t[1], tz=t[2], euler_code=code)
        check(b is s.bones[-1], "returned-bone", "add_bone returned another bone")
        return lambda: m.add(p, ang, t, code)
    if k == "angles":
        a = np.array([K.gen_angle(rng) for _ in range(3 * len(m))])
        IK.set_joint_angles(s, a)

        def f():
            m.ang[:] = [a[3 * i:3 * i + 3].copy() for i in range(len(m))]
        f()
        keep = a.copy()
        a[:] = 1e3  # the client's array stays the client's
        m.ang[:] = [keep[3 * i:3 * i + 3] for i in range(len(m))]
        return lambda: None
    if k == "update":
        IK.update_skeleton(s)
        return m.update
    if k == "chains":
        cs = IK.make_chains(s)
        check([list(c.bones) for c in cs] == [m.path(i) for i in m.leaves()], "chains", lambda: "%s, leaves have paths %s" % ([c.bones for c in cs], [m.path(i) for i in m.leaves()]))

        def f():
            w.chains = [(c, [m.path(i), np.array([10.0, 0, 0]), np.zeros(3)]) for c, i in zip(cs, m.leaves())]
        return f
    if k in ("fd", "fd-hessian"):
        cs = [c for c, _ in w.chains]
        fresh = poses_fresh(m)
        h = rng.choice([0.1, 1e-3])
        if k == "fd":
            IK.compute_finite_difference_gradient(cs, s, h)
        elif len(m) <= 4:
            IK.compute_finite_difference_hessian(cs, s, h)
        else:
            return lambda: None

        def f():  # the call may bring the poses up to date, or leave them alone
            if fresh or all(pose_ok(b, p) for b, p in zip(s.bones, m.forward())):
                m.update()
        return f
    if k == "query":
        cs = [c for c, _ in w.chains]
        J = IK.compute_jacobian(cs, s)
        w.hold("Jacobian", J)
        w.hold("gradient", IK.compute_gradient(cs, s, J))
        if len(m) <= 6:
            w.hold("Hessian", IK.compute_hessian(cs, s, J))
        w.hold("end effectors", *[IK.get_end_effector(c, s) for c in cs])
        IK.compute_objective(cs, s)
        return lambda: None
    raise ValueError(k)


def poses_fresh(m):
    return all(np.allclose(a[0], b[0], atol=1e-12) and np.allclose(a[1], b[1], atol=1e-12) for a, b in zip(m.pose, m.forward()))


def must_raise(f, what):
    try:
        f()
    except (RuntimeError, ValueError, IndexError, KeyError, TypeError):
        return
    check(False, "accepted-invalid-call", what)


def run(case, ctx):
    IK = K.mods()
    ws = [World(IK) for _ in range(case["n"])]
    for n, op in enumerate(case["ops"]):
        w = ws[op["s"]]
        s, m = w.s, w.m
        rng = Rng("ik", op["seed"])
        k = op["op"]
        where = "operation %d (%s)" % (n, k)
        if k == "root":
            if len(m):
                continue
            ang, t, code = [K.gen_angle(rng) for _ in range(3)], rng.vec(-2, 2), rng.choice(K.CODES)
            check(IK.create_root(s, *ang, *t, code) is s.bones[0], "returned-bone", "create_root returned another bone")
            m.add(-1, ang, t, code)
        elif not len(m):
            continue
        elif k in ("bone", "angles", "update", "chains", "fd", "fd-hessian", "query"):
            call(IK, w, k, rng, ctx)()
        elif k == "angle":
            i, a = rng.randrange(3 * len(m)), K.gen_angle(rng)
            if rng.chance(0.5):
                IK.set_angle(i, a, s)
            else:
                setattr(s.bones[i // 3], ["alpha", "beta", "gamma"][i % 3], a)
            m.ang[i // 3][i % 3] = a
            check(IK.get_angle(i, s) == a, "joint-angles", lambda: "%s: angle %d is %s after it was set to %s" % (where, i, IK.get_angle(i, s), a))
        elif k == "swap":  # the same values at other joints
            a = m.ang[rng.randrange(len(m))]
            rng.shuffle(a) if rng.chance(0.7) else m.ang.reverse()
            IK.set_joint_angles(s, np.concatenate(m.ang))
        elif k == "compensate":  # the parent turns, the bone turns back: same orientation, another place
            pairs = [i for i in range(1, len(m)) if m.code[m.parent[i]][2] == m.code[i][0]]
            if pairs:
                i, d = rng.choice(pairs), round(rng.uniform(-2, 2), 3)
                m.ang[m.parent[i]][2] += d
                m.ang[i][0] -= d
                IK.set_joint_angles(s, np.concatenate(m.ang))
        elif k in ("goal", "tool"):
            if w.chains:
                c, rec = rng.choice(w.chains)
                v = np.array(rng.vec(-3, 3))
                setattr(c, k, v)
                rec[1 if k == "goal" else 2] = v.copy()
        elif k == "bad-bone":
            must_raise(lambda: IK.add_bone(s, rng.choice([-1, len(m), len(m) + 5]), 0, 0, 0, 1, 0, 0), where + ": parent does not exist")
        elif k == "bad-code":
            must_raise(lambda: IK.add_bone(s, 0, 0, 0, 0, 1, 0, 0, rng.choice(K.BAD_CODES)), where + ": no such euler code")
        elif k == "second-root":
            must_raise(lambda: IK.create_root(s, 0.5, 0, 0, 1, 0, 0), where + ": there is a root")
        elif k == "fd-bad":
            if w.chains:
                c, rec = rng.choice(w.chains)
                c.goal = rng.choice([None, np.zeros(2), "goal"])
                fresh = poses_fresh(m)
                must_raise(lambda: rng.choice([IK.compute_finite_difference_gradient, IK.compute_finite_difference_hessian])([x for x, _ in w.chains], s), where + ": the goal is no position")
                c.goal = rec[1].copy()
                repair(IK, w, fresh, where)
        elif k == "scribble":
            a = IK.get_joint_angles(s)
            a[:] = 77.0
            for c in IK.make_chains(s):
                c.bones.append(0)
                c.goal[:] = -1.0
                c.tool[:] = 5.0
            e = [IK.get_end_effector(c, s) for c, _ in w.chains]
            for x in e:
                x[:] = 99.0
            x = K.mods().create_skeleton()
            b = IK.create_root(x, 1, 2, 3, 4, 5, 6)
            b.t[:] = 50.0
            b.t_wcs[:] = 50.0
            b.q_wcs[:] = 50.0
        elif k == "print":
            for o in [s] + list(s.bones) + [c for c, _ in w.chains]:
                str(o)
        elif k == "roundtrip":
            IK.set_joint_angles(s, IK.get_joint_angles(s))
        elif k == "fault":
            before, fresh = K.snap(s), poses_fresh(m)
            rec = F.CallInjector()
            with rec:  # where the operation can fail: tried on a copy of the skeleton
                cp = copy_world(IK, w)
                call(IK, cp, op["what"], Rng("ik", op["seed"]), ctx)
            at = rec.pick(op["point"]["mode"], op["point"]["u"], op["point"]["v"])
            inj = F.CallInjector(at=at, exc=F.make_exc(op["point"]["exc"]))
            done = None
            try:
                with inj:
                    done = call(IK, w, op["what"], Rng("ik", op["seed"]), ctx)
            except (Exception, KeyboardInterrupt):
                if inj.fired is None:
                    raise
            if done is not None:
                done()
            else:
                ctx.fault("call-failure:" + op["point"]["exc"])
                ctx.sig("fault", op["what"], inj.fired)
                where += " failing at %s" % inj.fired
                if op["what"] == "angles" and len(s.bones) == len(m):
                    IK.set_joint_angles(s, np.concatenate(m.ang))  # setting many angles is not atomic; it is done again
                if op["what"] in ("update", "fd", "fd-hessian"):
                    repair(IK, w, fresh and op["what"] != "update", where)
                elif fresh:
                    m.update()
        ctx.event(k, digest([K.snap(x.s) for x in ws]))
        compare(IK, ws, where, ctx)
        ctx.sig(k, len(m), max(len(m.path(i)) for i in range(len(m))) if len(m) else 0, m.code[-1] if len(m) else "", len(w.chains))


def repair(IK, w, fresh, where):
    """After an interrupted call the joint angles are what they were, and an update puts every bone in place."""
    a = IK.get_joint_angles(w.s)
    check(np.array_equal(a, np.concatenate(w.m.ang)), "failed-query-changed-angles", lambda: "%s: angles %s, before %s" % (where, a, np.concatenate(w.m.ang)))
    IK.update_skeleton(w.s)
    w.m.update()


def copy_world(IK, w):
    c = World(IK)
    m = w.m
    for i in range(len(m)):
        if i == 0:
            IK.create_root(c.s, *m.ang[0], *m.t[0], m.code[0])
        else:
            IK.add_bone(c.s, m.parent[i], *m.ang[i], *m.t[i], m.code[i])
        c.m.add(m.parent[i], m.ang[i], m.t[i], m.code[i])
    c.m.pose = list(m.pose)
    paths = {tuple(p): (g, t) for _, (p, g, t) in w.chains}
    c.chains = [(x, [list(x.bones), x.goal.copy(), x.tool.copy()]) for x in IK.make_chains(c.s) if tuple(x.bones) in paths]
    return c
