"""C28: the soft body profiling log: one truthful entry per profiled completed step of this engine, whatever clocks do and
whatever fails; the solver iterations it records are the ones that produced the velocities."""
import copy

import numpy as np

from sim import faults as F
from sim import soft as S
from sim.core import Rng, check, digest

CASES = {"quick": 260, "thorough": 10000}
SIG_RULE = "distinct (clock mode, profile keys, exit codes, rejections, scheme, contacts, failures) histories"
SHRINK = ("ops",)
REAL = "soft body API, complete stepping pipeline, contact solvers of every scheme, profiling, timers"
STUB = "clocks (perf_counter, time, datetime), the client (generated operation history), failing library calls, random hash offsets"
TIMES = ("stepper_time", "compute_elastic_forces", "compute_traction_forces", "compute_damping_forces", "compute_external_forces", "compute_jacobian_matrix", "compute_mass_matrix",
         "compute_inverse_mass_matrix", "compute_kinetic_energy", "compute_potential_energy", "compute_elastic_energy", "apply_post_stabilization", "collision_detection_time", "update_bvh",
         "narrow_phase", "contact_determination", "contact_point_reduction", "model_space_update", "contact_optimization", "contact_point_generation")


def gen(rng, tier):
    worlds = []
    for i in range(rng.choice([1, 1, 2])):
        params = {"resolution": 7, "bvh_chunk_size": 255, "max_iterations": rng.choice([1, 2, 10, 40]), "use_post_stabilization": rng.chance(0.4),
                  "absolute_tolerance": rng.choice([1e-3, 1e-8, 0.3, 5.0]), "relative_tolerance": rng.choice([1e-4, 0.0, 0.02]),
                  "too_small_merit_change": rng.choice([0.1, 1e9]), "nu_increase": rng.choice([1.05, 1.3, 2.0]), "nu_reduce": rng.choice([0.5, 0.9])}
        w = S.gen_world(rng.fork("w", i), n=rng.choice([1, 2, 2, 3]) if i == 0 else 2, params=params, small=rng.chance(0.8), tight=rng.chance(0.6), fixed=0.2, dirichlet=0.2)
        if rng.chance(0.5):
            names = sorted({m["name"] for m in w["materials"]})
            w["interactions"] = [[a, b, 0.0] for j, a in enumerate(names) for b in names[j:] if (a, b) != ("default", "default")]
        worlds.append(w)
    ops = []
    for _ in range(rng.choice([3, 5, 8])):
        k = rng.random()
        op = {"e": rng.randrange(2), "prof": rng.chance(0.7), "op": "step", "n": rng.choice([1, 1, 1, 2]), "seed": rng.randrange(1 << 30), "frac": rng.choice([1.0, 1.0, 1.5, 0.4])}
        if k < 0.2:
            op.update(op="fault", point=F.gen_point(rng))
        elif k < 0.35:
            op["op"] = rng.choice(["type", "density", "velocity"])
        ops.append(op)
    return {"worlds": worlds, "ops": ops, "clock": rng.choice(["normal", "coarse", "frozen", "jumpy", "jumpy"]), "seed": rng.randrange(1 << 30)}


def energies(e):
    """Element mid-point energies of the bodies that are free, from declared materials and current state."""
    kin = pot = ela = 0.0
    sc = 1e-9
    for r in S.ref_bodies(e).values():
        if r.fixed:
            continue
        for k, t in enumerate(r.T):
            m = r.rho * r.vol[k]
            v, x = r.u[t].mean(axis=0), r.x[t].mean(axis=0)
            kin += 0.5 * m * v @ v
            pot -= m * r.g @ x
            sc += abs(m * r.g @ x)
        ela += r.elastic_energy(r.x)
    return kin, pot, ela, sc


def close(a, b, tol, sc=1.0):
    return abs(a - b) <= tol * (sc + abs(b))


def judge(e, entry, dt, ctx, ref, clock_ok):
    kin, pot, ela, sc = energies(e)
    cps = S.contacts(e)
    p = e.params
    check(entry["dt"] == dt, "wrong-dt", lambda: "%r instead of %r" % (entry["dt"], dt))
    check(entry["contact_points"] == len(cps), "wrong-contact-count", lambda: "%r instead of %d" % (entry["contact_points"], len(cps)))
    pen = max([0.0] + [-c[8] for c in cps])
    check(abs(entry["max_penetration"] - pen) <= 1e-12, "wrong-penetration", lambda: "%r instead of %r" % (entry["max_penetration"], pen))
    check(close(entry["kinetic_energy"], kin, 1e-8), "wrong-kinetic-energy", lambda: "%r instead of %r" % (entry["kinetic_energy"], kin))
    check(close(entry["potential_energy"], pot, 1e-8, sc), "wrong-potential-energy", lambda: "%r instead of %r" % (entry["potential_energy"], pot))
    check(close(entry["elastic_energy"], ela, 1e-6), "wrong-elastic-energy", lambda: "%r instead of %r" % (entry["elastic_energy"], ela))
    times = {k: v for k, v in entry.items() if k in TIMES or k.endswith("solver_time")}
    for k, v in times.items():
        check(v >= 0, "negative-time:" + k, lambda: "%s is %r" % (k, v))

    def within(parts, whole):
        s = sum(times.get(k, 0.0) for k in parts)
        check(s <= times[whole] * (1 + 1e-9) + 1e-9, "parts-exceed-whole:" + whole, lambda: "%s sum up to %r, %s is %r" % (parts, s, whole, times[whole]))
    check("stepper_time" in entry and "collision_detection_time" in entry, "times-missing", lambda: sorted(entry))
    pre = p.proximal_solver + "_"
    within(["collision_detection_time", "compute_elastic_forces", "compute_traction_forces", "compute_damping_forces", "compute_external_forces", "compute_jacobian_matrix",
            pre + "solver_time", "apply_post_stabilization"] if "apply_post_stabilization" in times else ["collision_detection_time", "compute_elastic_forces", pre + "solver_time"], "stepper_time")
    if "post_stabilization_solver_time" in times:
        within(["post_stabilization_solver_time"], "apply_post_stabilization")
    within(["update_bvh", "narrow_phase", "contact_determination", "contact_point_reduction"], "collision_detection_time")
    if "contact_determination" in times:
        within([k for k in ("model_space_update", "contact_point_generation") if k in times], "contact_determination")
    check((pre + "exitcode" in entry) == bool(cps), "solver-entry", lambda: "solver entries %s with %d contacts" % (sorted(entry), len(cps)))
    deep = any(c[8] < -p.min_gap_value for c in cps) and p.use_post_stabilization
    check(("post_stabilization_exitcode" in entry) == deep, "solver-entry", lambda: "entries %s, deep contacts: %s" % (sorted(entry), deep))
    codes = []
    for q in (pre, "post_stabilization_"):
        if q + "exitcode" in entry:
            codes.append(solver_record(e, entry, q, ctx))
    if cps:
        # the impulses of the last accepted iterate must be the ones that changed the velocities
        P = S.SoftProblem(ref, {n: r.predict(dt)[1] for n, r in ref.items()}, e, {n: b.u for n, b in e.bodies.items()})
        lam, k = accepted(entry, pre)
        # (which tangent directions the friction impulses refer to is not observable: only their plane is used)
        L, J3 = lam.reshape(-1, 4), P._J.reshape(P.K, 4, -1)
        want = P.W @ (J3[:, 0].T @ L[:, 0])
        sliding = np.abs(L[:, 1:]).max(axis=1) > 0
        if sliding.any():
            B = P.W @ J3[sliding, 1:3].reshape(-1, J3.shape[2]).T
            cs = np.linalg.norm(B, axis=0)
            B = B[:, cs > 0] / cs[cs > 0]
            want = want + B @ np.linalg.lstsq(B, P.du - want, rcond=1e-12)[0]
        size = max(float(np.abs(want).max()), float(np.abs(P.du).max()))
        acc = max(r.predict(dt)[2] for r in ref.values())
        check(np.abs(want - P.du).max() <= 1e-7 * size + 1e-10 * (P.vs + acc), "impulses-differ", lambda: "the impulses the log calls accepted (iteration %s) change velocities by up to %.6g, "
              "observed %.6g, off by %.3g" % (k, np.abs(want).max(), np.abs(P.du).max(), np.abs(want - P.du).max()))
        ctx.count("impulses-compared")
    return codes


def accepted(entry, q):
    it, n = entry[q + "iterations"], len(entry[q + "residuals"])
    lam = np.zeros(entry[q + "lambda"].shape[1])
    k = None
    for j in range(min(it, n)):
        if not entry[q + "reject"][j]:
            lam, k = entry[q + "lambda"][j], j
    return lam, k


def solver_record(e, entry, q, ctx):
    p = e.params
    res, it, code = np.asarray(entry[q + "residuals"]), entry[q + "iterations"], entry[q + "exitcode"]
    rej, lams = np.asarray(entry[q + "reject"]), np.asarray(entry[q + "lambda"])
    check(len(res) == len(rej) == len(lams) == p.max_iterations, "residual-length", lambda: (len(res), len(rej), len(lams)))
    check(np.all(np.isinf(res[it + 1:])), "residual-after-end", lambda: (it, res))
    check((code == 0) == (it == p.max_iterations), "exitcode", lambda: (code, it, p.max_iterations))
    last = np.inf
    sol = np.zeros(lams.shape[1])
    for j in range(min(it + 1, len(res))):
        want = np.abs(lams[j] - sol).max() if lams.shape[1] else 0.0
        check(abs(res[j] - want) <= 1e-12 * (np.abs(lams[j]).max() + np.abs(sol).max() + 1e-300), "residual", lambda: "residual %d is %r, the iterate changed by %r" % (j, res[j], want))
        small = res[j] < p.absolute_tolerance
        slow = abs(res[j] - last) < p.relative_tolerance * last
        if j < it:
            check(not small and not slow, "iterated-after-convergence", lambda: (q, j, res[:it + 1], rej[:it + 1]))
            check(bool(rej[j]) == bool(res[j] > last), "reject-flag", lambda: "iteration %d has residual %r after an accepted one of %r, reject flag %s" % (j, res[j], last, rej[j]))
            if not rej[j]:
                last, sol = res[j], lams[j]
        else:
            check((code == 1) == bool(small) and (code != 2 or bool(slow)), "exitcode", lambda: (code, res[j], last))
            check(not rej[j], "reject-flag", "the converged iteration is flagged as rejected")
    ctx.count("exitcode-%s%d" % ("ps-" if q.startswith("post") else "", code))
    ctx.count("rejections", int(rej.sum()))
    return (code, bool(rej.any()))


def run(case, ctx):
    API, _ = S.mods()
    F.seed_phi(1)
    clock = F.SimClock(Rng("clock", case["seed"]), case["clock"])
    with F.clock_seam(clock):
        es = [S.build(w) for w in case["worlds"]]
        kept = [[] for _ in es]
        first = [None for _ in es]   # was the stepper created by a profiled call?
        faulters = [F.Faulter() for _ in es]
        hist = []

        def log(i):
            return API.get_log(es[i]) if es[i].stepper is not None else []

        def simulate(i, T, prof):
            API.simulate(es[i], T, prof)

        for op in case["ops"]:
            i = op["e"] % len(es)
            e = es[i]
            if S.squashed(e):
                break
            rng = Rng("op", op["seed"])
            n = rng.choice(sorted(e.bodies))
            k, prof = op["op"], op["prof"]
            codes = None
            if k == "type":
                API.set_type(e, n, rng.choice(["fixed", "free"]))
            elif k == "density":
                m = e.bodies[n].material_description
                API.set_mass_density(e, m.name, float(rng.choice([200, 800, 2500])))
            elif k == "velocity":
                API.set_velocity(e, n, np.array(rng.vec(-2, 2)))
            else:
                dt = e.params.time_step
                before = S.snap(e)
                fresh = e.stepper is None
                if k == "fault":
                    T = dt
                    fired = faulters[i].run(lambda: simulate(i, T, prof), op["point"])
                    if fired:
                        ctx.fault("call-failure")
                else:
                    fired = None
                    T = dt * op["n"] * op["frac"]
                if fired:
                    # the entry of the assembly stage may be there when the failing call created the stepper
                    extra = log(i)[len(kept[i]):]
                    check(all("dt" not in x for x in extra) or not S.same_snap(before, S.snap(e)), "entry-for-failed-step", fired)
                    check(len(extra) <= 1 + (fresh and prof), "entries", lambda: "%d entries for one failed step" % len(extra))
                    kept[i] += copy.deepcopy(extra)
                else:
                    steps = 1 if k == "fault" else int(np.ceil(op["n"] * op["frac"] - 1e-9))
                    n0 = len(kept[i])
                    if k == "fault":
                        refs = None
                    done = 0.0
                    for j in range(steps):
                        ref = S.ref_bodies(e) if k != "fault" else None
                        d = min(dt, T - done)
                        fresh = e.stepper is None
                        n0 = len(kept[i])
                        if k != "fault":
                            if j and S.squashed(e):
                                break
                            S.step(e, d, prof)
                        new = log(i)[n0:]
                        want = (1 + fresh if prof else 0) if k != "fault" else None
                        if k == "fault":
                            check(len(new) <= 2 and len([x for x in new if "dt" in x]) == prof, "entries", lambda: "%d entries for one %sprofiled step" % (len(new), "" if prof else "un"))
                        else:
                            check(len([x for x in new if "dt" in x]) == prof and len(new) <= want, "entries", lambda: "%d entries after one %sprofiled step" % (len(new), "" if prof else "un"))
                        if prof and ref is not None and not S.squashed(e):
                            codes = judge(e, new[-1], d, ctx, ref, case["clock"])
                        kept[i] += copy.deepcopy(new)
                        done += d
                        ctx.sim_time += d
            for j in range(len(es)):
                check(len(log(j)) == len(kept[j]), "foreign-entry", lambda: [len(log(x)) for x in range(len(es))])
            hist.append((k, prof, len(e.contact_points), codes))
            ctx.event(k, i, len(kept[i]), digest(S.snap(e)))
        for i in range(len(es)):
            check(digest([sorted(x.items()) for x in log(i)]) == digest([sorted(x.items()) for x in kept[i]]), "entry-changed-later", "an entry of the log changed after it was written")
    ctx.fault("clock:" + case["clock"])
    ctx.sig(case["clock"], hist, [w["params"]["proximal_solver"] for w in case["worlds"]])
