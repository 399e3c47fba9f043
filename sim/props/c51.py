"""C51: the derivatives inverse kinematics works with are those of its objective: for every skeleton, chain, goal and tool and at
every point of a history of edits, Jacobian, gradient and Hessian (analytical and by finite differences) are the
derivatives of where the bones are, and following them solves reachable goals."""
import numpy as np

from sim import faults as F
from sim import ik as K
from sim.core import Rng, check, digest

CASES = {"quick": 500, "thorough": 40000}
SIG_RULE = "distinct (bones, chains, branching, euler codes, query)"
SHRINK = ("ops",)
REAL = "inverse kinematics API, skeletons, bones, chains, quaternions"
STUB = "failures of library calls (raised by the injector)"
ASSUMPTIONS = "derivatives are compared with a complex-step model of forward kinematics written independently; poses are up to date when they are asked for"


def gen(rng, tier):
    n = rng.choice([1, 2, 3, 4, 5, 6])
    bones = [{"p": -1, "ang": [K.gen_angle(rng) for _ in range(3)], "t": rng.vec(-2, 2), "code": rng.choice(K.CODES)}]
    for i in range(1, n):
        bones.append({"p": i - 1 if rng.chance(0.6) else rng.randrange(i), "ang": [K.gen_angle(rng) for _ in range(3)], "t": rng.vec(-2, 2), "code": rng.choice(K.CODES)})
    ops = [{"op": rng.choice(["check", "check", "angles", "angle", "goal", "tool", "bone", "subset", "fault", "solve"]), "seed": rng.randrange(1 << 30), "point": F.gen_point(rng)} for _ in range(rng.choice([2, 4, 7]))]
    return {"bones": bones, "ops": ops + [{"op": "check", "seed": 0}]}


def close(a, b, tol, what, where):
    a, b = np.asarray(a, float), np.asarray(b, float)
    check(a.shape == b.shape, what, lambda: "%s: shape %s, should be %s" % (where, a.shape, b.shape))
    sc = 1.0 + (np.abs(b).max() if b.size else 0.0)
    check(not a.size or np.abs(a - b).max() <= tol * sc, what, lambda: "%s: off by %.3g (scale %.3g) at %s" % (where, np.abs(a - b).max(), sc, np.unravel_index(np.argmax(np.abs(a - b)), a.shape)))


def run(case, ctx):
    IK = K.mods()
    s, m = IK.create_skeleton(), K.Skel()
    for b in case["bones"]:
        if b["p"] < 0:
            IK.create_root(s, *b["ang"], *b["t"], b["code"])
        else:
            IK.add_bone(s, b["p"], *b["ang"], *b["t"], b["code"])
        m.add(b["p"], b["ang"], b["t"], b["code"])
    IK.update_skeleton(s)
    chains = IK.make_chains(s)
    recs = [[m.path(i), np.array([10.0, 0, 0]), np.zeros(3)] for i in m.leaves()]

    for n, op in enumerate(case["ops"]):
        rng = Rng("c51", op["seed"])
        k = op["op"]
        where = "operation %d (%s), %d bones" % (n, k, len(m))
        if k == "angles":
            a = np.array([K.gen_angle(rng) for _ in range(3 * len(m))])
            IK.set_joint_angles(s, a)
            m.ang = [a[3 * i:3 * i + 3].copy() for i in range(len(m))]
        elif k == "angle":
            i, a = rng.randrange(3 * len(m)), K.gen_angle(rng)
            IK.set_angle(i, a, s)
            m.ang[i // 3][i % 3] = a
        elif k in ("goal", "tool"):
            j = rng.randrange(len(chains))
            v = np.array(rng.vec(-3, 3))
            if k == "goal" and rng.chance(0.5):      # hold the place, exactly or nearly
                IK.update_skeleton(s)
                m.update()
                v = IK.get_end_effector(chains[j], s) + rng.choice([0.0, 1e-5, 1e-3]) * v
            setattr(chains[j], k, v)
            recs[j][1 if k == "goal" else 2] = v.copy()
        elif k == "bone" and len(m) < 8:
            p, ang, t, code = rng.randrange(len(m)), [K.gen_angle(rng) for _ in range(3)], rng.vec(-2, 2), rng.choice(K.CODES)
            IK.add_bone(s, p, *ang, *t, code)
            m.add(p, ang, t, code)
            if rng.chance(0.6):
                chains = IK.make_chains(s)
                recs = [[m.path(i), np.array([10.0, 0, 0]), np.zeros(3)] for i in m.leaves()]
        elif k == "subset":
            if len(chains) > 1:
                j = rng.randrange(len(chains))
                chains, recs = chains[:j] + chains[j + 1:], recs[:j] + recs[j + 1:]
        elif k == "fault":
            inj = F.CallInjector(at=1 + int(op["point"]["u"] * 60 * len(m)), exc=F.make_exc(op["point"]["exc"]))
            try:
                with inj:
                    IK.compute_finite_difference_gradient(chains, s, 0.1)
            except (Exception, KeyboardInterrupt):
                if inj.fired is None:
                    raise
                ctx.fault("call-failure:" + op["point"]["exc"])
        IK.update_skeleton(s)
        m.update()
        if k == "solve":
            solve(IK, s, m, recs, rng, ctx, where)
            continue
        ang = np.concatenate(m.ang)
        J = IK.compute_jacobian(chains, s)
        close([IK.get_end_effector(c, s) for c in chains], K.effectors(m, recs, m.pose), 1e-9, "end-effector", where)
        close(IK.compute_objective(chains, s), K.objective(m, recs, ang), 1e-9, "objective", where)
        err = np.array([r[1] for r in recs]) - K.effectors(m, recs, m.pose)
        if len(recs) and (err != 0).any():
            f, w = IK.compute_objective(chains, s), 0.5 * (err ** 2).sum()
            tol = 1e-12 * (1 + max(np.abs(r[1]).max() for r in recs) + max(np.abs(x[1]).max() for x in m.pose))
            check(abs(f - w) <= 4 * tol * (tol + np.sqrt(2 * w)) * np.sqrt(len(recs)), "objective", lambda: "%s: %.6g, half the sum of squares is %.6g" % (where, f, w))
        close(J, K.jacobian(m, recs, ang), 1e-8, "jacobian", where)
        J0 = J.copy()
        g = IK.compute_gradient(chains, s, J)
        close(g, K.gradient(m, recs, ang), 1e-8, "gradient", where)
        if len(m) <= 5 or k == "check":
            H = IK.compute_hessian(chains, s, J)
            close(H, K.hessian(m, recs, ang), 1e-6, "hessian", where)
        check(np.array_equal(J, J0), "argument-changed", where)
        if rng.chance(0.4):
            close(IK.compute_finite_difference_gradient(chains, s, 1e-4), g, 1e-5, "finite-difference-gradient", where)
            close(IK.compute_jacobian(chains, s), J0, 1e-12, "query-changed-skeleton", where)
        if len(m) <= 3 and rng.chance(0.3):
            close(IK.compute_finite_difference_hessian(chains, s, 1e-3), H, 1e-4, "finite-difference-hessian", where)
            close(IK.compute_jacobian(chains, s), J0, 1e-12, "query-changed-skeleton", where)
        ctx.event(k, digest(J), digest(g))
        ctx.sig(k, len(m), len(chains), tuple(m.parent), tuple(m.code[:2]))


def solve(IK, s, m, recs, rng, ctx, where):
    """A client's damped Newton iteration from a perturbed pose back to a reachable goal: every accepted step lowers the objective."""
    chains = IK.make_chains(s)
    recs = [[list(c.bones), None, np.zeros(3)] for c in chains]
    for c, r, e in zip(chains, recs, K.effectors(m, recs, m.pose)):
        c.goal, r[1] = e.copy(), e.copy()
    keep = np.concatenate(m.ang)
    x = keep + np.array([rng.uniform(-0.05, 0.05) for _ in keep])
    f = None
    for it in range(40):
        IK.set_joint_angles(s, x)
        IK.update_skeleton(s)
        fx = IK.compute_objective(chains, s)
        if f is None:
            f0 = fx
        f = fx
        if f <= 1e-16:
            break
        J = IK.compute_jacobian(chains, s)
        g = IK.compute_gradient(chains, s, J)
        d = -np.linalg.solve(J.T @ J + 1e-6 * np.eye(len(x)), g)
        a = 1.0
        while a > 1e-6:
            IK.set_joint_angles(s, x + a * d)
            IK.update_skeleton(s)
            if IK.compute_objective(chains, s) < f - 1e-4 * a * abs(g @ d) * 0.1:
                break
            a /= 2
        if a <= 1e-6:
            break
        x = x + a * d
    check(f <= max(1e-3 * f0, 1e-12), "goal-not-reached", lambda: "%s: the objective went from %.3g to %.3g, zero is reachable" % (where, f0, f))
    m.ang = [x[3 * i:3 * i + 3].copy() for i in range(len(m))]
    IK.set_joint_angles(s, x)
    IK.update_skeleton(s)
    m.update()
    ctx.count("solves")
    ctx.sig("solve", len(m), len(chains), it)
