"""C21: a soft body step is a function of the world's setup and state: profiling, clocks, random hash offsets, the history of
the hash grid, other engines, threads, failures before it and arrays the client overwrites never matter."""
import gc

import numpy as np

from sim import faults as F
from sim import soft as S
from sim.core import Rng, check, digest
from sim.pristine import Pristine, PristineFailure
from sim.sched import Scheduler

CASES = {"quick": 170, "thorough": 5000}
SIG_RULE = "distinct (variation, contacts, broad phase, scheme) combinations and thread interleavings"
SHRINK = ("ops",)
CHUNK = 1
REAL = "soft body API and stepping pipeline of several engines in one process, real threads, profiling, timers"
STUB = "thread scheduling (seeded hand-over at calls), clocks, random generators (incl. the hash offset table), injected failures"
VARS = ["plain", "profiling", "clock-frozen", "clock-jumpy", "phi", "phi", "gc", "print", "fault", "fault", "other", "threads", "reload", "churn", "churn", "scribble", "table", "table", "table", "stamp", "away"]


def gen(rng, tier):
    n = rng.choice([1, 2])
    ws = [S.gen_world(rng.fork("w", i), n=rng.choice([2, 2, 3]), tight=rng.chance(0.5), params={"max_iterations": rng.choice([2, 4, 12]), "resolution": 7}, small=rng.chance(0.5),
                      dirichlet=0.15) for i in range(n)]
    for w in ws:
        w["params"]["use_spatial_hashing"] = rng.chance(0.75)
    ops = []
    for _ in range(rng.choice([3, 5])):
        op = {"op": rng.choice(VARS), "e": rng.randrange(n), "seed": rng.randrange(1 << 30)}
        if op["op"] == "fault":
            op["point"] = F.gen_point(rng)
        ops.append(op)
    return {"worlds": ws, "ops": ops, "phi": rng.randrange(1 << 20)}


def ok(e):
    return not S.squashed(e)


def derive_seed(*a):
    return Rng(*a).randrange(1 << 30)


def solo(spec, state, dt, phi):
    """One step of a brand-new engine from ``state``, in a process that has never done anything else."""
    F.seed_phi(phi)
    e = S.build(spec)
    S.load_state(e, state)
    S.step(e, dt)
    return S.snap(e), S.contacts(e)


def run(case, ctx):
    with Pristine() as fresh:
        run_in(case, ctx, fresh)


def run_in(case, ctx, fresh):
    API, _ = S.mods()
    F.seed_phi(case["phi"])
    es = [S.build(w) for w in case["worlds"]]
    dts = [e.params.time_step for e in es]
    faulter = F.Faulter()

    def compare(i, before, what, seed=0):
        try:
            want, cps = fresh(solo, case["worlds"][i], before, dts[i], derive_seed(case["phi"], i, seed))
        except PristineFailure as x:
            check(False, "fresh-engine-fails", lambda: "%s: a step that succeeds in this process fails in a fresh one: %s" % (what, x))
        got = S.snap(es[i])
        check(digest(S.contacts(es[i])) == digest(cps), "contacts-differ:" + what, lambda: "%s: %d contacts, a fresh engine in the same "
              "state finds %d%s" % (what, len(es[i].contact_points), len(cps), "" if len(cps) != len(es[i].contact_points) else " (others, or in another order)"))
        check(S.same_snap(got, want), "depends-on-more-than-its-state:" + what, lambda: "%s: %s" % (what, S.diff_snap(got, want)))
        ctx.sim_time += dts[i]
        ctx.event(what, i, digest(got), len(cps))
        ctx.sig(what, len(cps), es[i].params.use_spatial_hashing, es[i].params.proximal_solver)

    for op in case["ops"]:
        i, k = op["e"] % len(es), op["op"]
        if not all(ok(e) for e in es):
            break
        e, dt = es[i], dts[i]
        before = S.snap(e)
        rng = Rng("op", op["seed"])
        if k == "threads":
            befores = [S.snap(x) for x in es]
            sch = Scheduler(Rng("sched", op["seed"]), rng.choice([5, 30, 150]))
            res = sch.run([(lambda e=x, d=d: S.step(e, d)) for x, d in zip(es, dts)])
            for r in res:
                if r[1] is not None:
                    raise r[1]
            for j in range(len(es)):
                compare(j, befores[j], "threads")
            ctx.fault("preemption", sch.switches)
            ctx.sig("sched", sch.trace)
            continue
        if k == "other":
            # another engine is built, stepped and thrown away in between
            F.seed_phi(op["seed"])
            o = S.build(case["worlds"][-1])
            S.step(o, dts[-1])
            check(S.same_snap(before, S.snap(e)), "engines-share-state", lambda: S.diff_snap(before, S.snap(e)))
        elif k == "fault":
            if faulter.run(lambda: API.simulate(e, dt, rng.chance(0.3)), op["point"]):
                ctx.fault("call-failure")
            S.load_state(e, before)
        elif k == "away":
            # the history of the hash grid: a step somewhere else, then back
            n = sorted(e.bodies)[0]
            if not e.bodies[n].dirichlet_conditions:
                API.set_spatial_coordinates(e, n, before[n][0] + np.array(rng.vec(-2, 2)))
                S.step(e, dt)
                S.load_state(e, before)
        elif k == "stamp":
            e.params.time_stamp += rng.choice([1, 7])
        elif k == "scribble":
            n = sorted(e.bodies)[0]
            a = API.get_material_coordinates(e, n)
            a += 1e3
            x = before[n][0].copy()
            API.set_spatial_coordinates(e, n, x)
            x += 1e3
            g = np.array(e.bodies[n].gravity)
            API.set_gravity(e, n, g)
            g += 1e3
            check(S.same_snap(before, S.snap(e)), "array-shared", lambda: S.diff_snap(before, S.snap(e)))
        elif k == "reload":
            F.seed_phi(op["seed"])
            es[i] = e = S.build(case["worlds"][i])
            S.load_state(e, before)
        elif k == "churn":
            # look-alikes of this engine come and go, then it is built anew (in the memory they left); its materials change and change back
            w = case["worlds"][i]
            for j in range(2):
                es[i] = e = None
                f = rng.choice([0.5, 2.0, 3.0])
                like = dict(w, materials=[dict(m, rho=m["rho"] * f, c=m["c"] + 7.0 * f, E=m["E"] * 0.9) for m in w["materials"]])
                F.seed_phi(op["seed"])
                o = S.build(like)
                S.step(o, dt)
                del o
                gc.collect()
                es[i] = e = S.build(w)
                S.load_state(e, before)
            for f in rng.choice([[2.0, 3.0, 1.0], [0.5, 1.0], [3.0, 2.0, 4.0, 1.0]]):
                for m in w["materials"]:
                    API.set_mass_density(e, m["name"], m["rho"] * f)
                    API.set_viscosity(e, m["name"], m["c"] * f)
                    API.set_elasticity(e, m["name"], m["E"] * f, m["nu"])
                if f != 1.0:
                    S.step(e, dt)
                    S.load_state(e, before)
        elif k == "table":
            e.hash_grid.set_hash_table_size(rng.choice([1, 2, 17, 400]))  # many cells share an entry
            ctx.fault("hash-collisions")
        if k.startswith("clock"):
            with F.clock_seam(F.SimClock(rng, k.split("-")[1])):
                S.step(e, dt, True)
            ctx.fault(k)
        elif k == "print":
            old = np.get_printoptions()
            np.set_printoptions(precision=2, suppress=True)
            try:
                S.step(e, dt, True)
            finally:
                np.set_printoptions(**old)
        else:
            if k == "gc":
                junk = [bytearray(rng.randrange(1, 5000)) for _ in range(50)]
                gc.collect()
                del junk
            S.step(e, dt, k == "profiling")
        compare(i, before, k, op["seed"] if k == "phi" else 0)
        if k == "phi":
            ctx.fault("hash-offsets")
