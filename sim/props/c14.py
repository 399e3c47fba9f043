"""C14: the profiling log: one truthful entry per profiled completed step of this engine, whatever clocks do and whatever fails."""
import copy

import numpy as np

from sim import faults as F
from sim import rigid as R
from sim.core import Rng, check, digest

CASES = {"quick": 700, "thorough": 20000}
SIG_RULE = "distinct (profile keys present, exit codes, contacts, clock mode, failures) histories"
SHRINK = ("ops",)
REAL = "rigid API, complete stepping pipeline, profiling, timers"
STUB = "clocks (perf_counter, time, datetime), the client (generated operation history), failing library calls"


def gen(rng, tier):
    worlds = [R.gen_world(rng.fork("w", i), n=rng.choice([1, 2, 3]) if i == 0 else 2, hinges=rng.chance(0.3), params={
        "resolution": 8, "max_iterations": rng.choice([2, 10, 40]), "use_post_stabilization": rng.chance(0.5),
        "absolute_tolerance": rng.choice([1e-3, 1e-8, 1e-1]), "relative_tolerance": rng.choice([1e-4, 0.0, 1e-2]),
        "use_pre_stabilization": rng.chance(0.5), "use_bounce": rng.chance(0.3)}) for i in range(rng.choice([1, 1, 2]))]
    ops = []
    for _ in range(rng.choice([3, 6, 10])):
        k = rng.random()
        op = {"e": rng.randrange(2), "prof": rng.chance(0.7), "op": "step", "n": rng.choice([1, 1, 1, 2, 3])}
        if k < 0.2:
            op.update(op="fault", point=F.gen_point(rng))
        elif k < 0.27:
            op.update(op="type", fixed=rng.chance(0.5), b=rng.randrange(3))
        elif k < 0.32:
            op.update(op="connect", b=rng.randrange(3))
        ops.append(op)
    return {"worlds": worlds, "ops": ops, "clock": rng.choice(["normal", "coarse", "frozen", "jumpy", "jumpy"]), "seed": rng.randrange(1 << 30)}


def energies(e, model):
    kin = pot = 0.0
    for n, b in R.ref_bodies(e, model).items():
        if b.fixed:
            continue
        kin += 0.5 * b.mass * b.v @ b.v + 0.5 * b.w @ b.I @ b.w
        for g, up in b.gravity:
            pot += b.mass * g * up @ b.r
    return kin, pot


def judge(e, model, entry, dt, ctx):
    kin, pot = energies(e, model)
    cps = R.contacts(e)
    p = e.params
    check(entry["dt"] == dt, "wrong-dt", lambda: "%r instead of %r" % (entry["dt"], dt))
    check(entry["contact_points"] == len(cps), "wrong-contact-count", lambda: "%r instead of %d" % (entry["contact_points"], len(cps)))
    pen = max([0.0] + [-c[4] for c in cps])
    check(abs(entry["max_penetration"] - pen) <= 1e-12, "wrong-penetration", lambda: "%r instead of %r" % (entry["max_penetration"], pen))
    check(abs(entry["kinetic_energy"] - kin) <= 1e-8 * (1 + abs(kin)), "wrong-kinetic-energy", lambda: "%r instead of %r" % (entry["kinetic_energy"], kin))
    check(abs(entry["potential_energy"] - pot) <= 1e-8 * (1 + abs(pot)), "wrong-potential-energy", lambda: "%r instead of %r" % (entry["potential_energy"], pot))
    times = {k: v for k, v in entry.items() if isinstance(v, float) and k in (
        "stepper_time", "collision_detection_time", "update_bvh", "narrow_phase", "contact_determination", "contact_point_reduction",
        "model_space_update", "contact_optimization", "contact_point_generation", "solver_time", "post_stabilization_solver_time")}
    for k, v in times.items():
        check(v >= 0, "negative-time:" + k, lambda: "%s is %r" % (k, v))

    def within(parts, whole):
        s = sum(times.get(k, 0.0) for k in parts)
        check(s <= times[whole] * (1 + 1e-9) + 1e-9, "parts-exceed-whole:" + whole, lambda: "%s sum up to %r, %s is %r" % (parts, s, whole, times[whole]))
    check("stepper_time" in entry and "collision_detection_time" in entry, "times-missing", lambda: sorted(entry))
    within(["collision_detection_time", "solver_time", "post_stabilization_solver_time"], "stepper_time")
    within(["update_bvh", "narrow_phase", "contact_determination", "contact_point_reduction"], "collision_detection_time")
    if "contact_determination" in times:
        within(["model_space_update", "contact_optimization", "contact_point_generation"], "contact_determination")
    solving = bool(cps) or bool(e.hinges)
    check(("exitcode" in entry) == solving, "solver-entry", lambda: "solver entries %s with %d contacts and %d hinges" % (
        sorted(entry), len(cps), len(e.hinges)))
    for pre in ("", "post_stabilization_"):
        if pre + "exitcode" not in entry:
            continue
        res, it, code = np.asarray(entry[pre + "residuals"]), entry[pre + "iterations"], entry[pre + "exitcode"]
        check(len(res) == p.max_iterations, "residual-length", lambda: len(res))
        last = min(it, len(res) - 1)
        if len(res):
            check(np.all(np.isfinite(res[:last + 1])) or not np.all(np.isfinite(np.concatenate([np.concatenate(x) for x in R.snap(e).values()]))),
                  "residual-missing", lambda: res[:last + 1])
        check(np.all(np.isinf(res[it + 1:])), "residual-after-end", lambda: (it, res))
        check((code == 0) == (it == p.max_iterations), "exitcode", lambda: (code, it, p.max_iterations))
        if code == 1:
            check(res[it] < p.absolute_tolerance, "exitcode", lambda: (code, res[it], p.absolute_tolerance))
        if code == 2:
            check(it > 0 and abs(res[it] - res[it - 1]) < p.relative_tolerance * res[it - 1], "exitcode", lambda: (code, res[: it + 1]))
        for j in range(it):
            check(not res[j] < p.absolute_tolerance, "iterated-after-convergence", lambda: (pre, j, res[: it + 1]))
        ctx.count("exitcode-%s%d" % (pre, code))


def run(case, ctx):
    API, _ = R.mods()
    clock = F.SimClock(Rng("clock", case["seed"]), case["clock"])
    with F.clock_seam(clock):
        es = [R.build(w) for w in case["worlds"]]
        models = [R.Model(e, w) for e, w in zip(es, case["worlds"])]
        kept = [[] for _ in es]
        faulters = [F.Faulter() for _ in es]
        hist = []
        for op in case["ops"]:
            i = op["e"] % len(es)
            e, m = es[i], models[i]
            names = list(e.bodies)
            k = op["op"]
            if k == "type":
                n = names[op["b"] % len(names)]
                API.set_body_type(e, n, "fixed" if op["fixed"] else "free")
                m.b[n]["fixed"] = op["fixed"]
            elif k == "connect":
                n = names[op["b"] % len(names)]
                for f in m.forces:
                    if f not in m.b[n]["names"]:
                        API.connect_force(e, n, f)
                        m.connect(n, f)
                        break
            elif k == "fault":
                dt = e.params.time_step
                before = R.snap(e)
                fired = faulters[i].run(lambda: API.simulate(e, dt, op["prof"]), op["point"])
                if fired:
                    ctx.fault("call-failure")
                    check(len(API.get_log(e)) == len(kept[i]), "entry-for-failed-step", fired)
                elif op["prof"]:
                    kept[i].append(copy.deepcopy(API.get_log(e)[-1]))
                    judge(e, m, kept[i][-1], dt, ctx)
            else:
                dt = e.params.time_step
                n0 = len(kept[i])
                for j in range(op["n"]):
                    API.simulate(e, dt, op["prof"])
                    log = API.get_log(e)
                    check(len(log) == n0 + (j + 1) * op["prof"], "entries", lambda: "%d entries after %d profiled steps" % (len(log), n0 + (j + 1) * op["prof"]))
                    if op["prof"]:
                        judge(e, m, log[-1], dt, ctx)
                        kept[i].append(copy.deepcopy(log[-1]))
                    ctx.sim_time += dt
            for a, b in zip(es, kept):
                check(len(API.get_log(a)) == len(b), "foreign-entry", lambda: [len(API.get_log(x)) for x in es])
            hist.append((k, op["prof"], len(e.contact_points)))
            ctx.event(k, i, len(kept[i]), digest(R.snap(e)))
        for a, b in zip(es, kept):
            check(digest([sorted(x.items()) for x in API.get_log(a)]) == digest([sorted(x.items()) for x in b]), "entry-changed-later",
                  "an entry of the log changed after it was written")
    ctx.fault("clock:" + case["clock"])
    ctx.sig(case["clock"], hist)
