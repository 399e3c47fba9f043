"""C02: engines are isolated from each other and from their own past: whatever else happens in the process, a world's
next step depends on its own current state only."""
import json

import numpy as np

from sim import faults as F
from sim import rigid as R
from sim.core import Rng, check, digest
from sim.pristine import Pristine, PristineFailure
from sim.sched import Scheduler

CASES = {"quick": 160, "thorough": 4000}
SIG_RULE = "distinct thread interleavings (sequence of hand-overs) and distinct operation orders over the engines"
SHRINK = ("ops",)
CHUNK = 1
REAL = "rigid API and the complete stepping pipeline of several engines in one process, real threads"
STUB = "thread scheduling (seeded hand-over at calls), injected failures in one of the engines"


def gen(rng, tier):
    n = rng.choice([2, 2, 3])
    worlds = [R.gen_world(rng.fork("w", i), n=rng.choice([2, 3]), hinges=rng.chance(0.3), params={
        "max_iterations": 4, "resolution": 8, "use_post_stabilization": rng.chance(0.3)}) for i in range(n)]
    u = rng.random()
    if u < 0.3:  # the same names and shapes in all of them
        worlds = [dict(worlds[0], params=dict(worlds[0]["params"], time_step=w["params"]["time_step"])) for w in worlds]
    elif u < 0.8:  # the same names, for other things
        worlds = [worlds[0]] + [other_values(rng.fork("values", i), worlds[0]) for i in range(1, n)]
    ops = []
    for _ in range(rng.choice([3, 5, 8])):
        k = rng.choice(["step", "step", "step", "threads", "fault", "build", "scribble", "rebuild", "kick", "move", "move", "type"])
        op = {"op": k, "e": rng.randrange(n), "prof": rng.chance(0.3)}
        if k == "fault":
            op["point"] = F.gen_point(rng)
        if k == "threads":
            op["seed"] = rng.randrange(1 << 30)
            op["gap"] = rng.choice([3, 10, 40, 150])
        if k == "type":
            op["b"], op["t"] = rng.randrange(3), rng.choice(["fixed", "free"])
        if k == "move":
            op["b"], op["o"], op["dr"], op["q"] = rng.randrange(3), rng.randrange(3), rng.vec(-0.7, 0.7, 3), rng.quat()
            op["turn"] = rng.chance(0.5)
        if k == "kick":
            op["v"], op["w"] = rng.vec(-1, 1, 3), rng.vec(-1, 1, 3)
            op["b"] = rng.randrange(3)
        ops.append(op)
    return {"worlds": worlds, "ops": ops}


def other_values(rng, world):
    """A world of the same names, in which they stand for something else."""
    w = json.loads(json.dumps(world))
    w["params"].update(time_step=round(rng.uniform(0.002, 0.03), 4), envelope=round(rng.uniform(0.05, 0.3), 3), resolution=rng.choice([6, 8, 9]),
                       use_bounce=rng.chance(0.5))
    for m in w["materials"]:
        mu = round(rng.random() * 1.5, 3)
        m[2], m[3] = round(rng.random(), 3), [mu, mu, mu]
    for f in w["forces"]:
        for k in ("g", "alpha", "beta"):
            if k in f:
                f[k] = round(f[k] * rng.uniform(0.3, 3), 4)
    for s in w["shapes"]:
        s["args"] = [round(a * rng.uniform(0.7, 1.3), 3) for a in s["args"]]
    for b in w["bodies"]:
        b["density"] = round(b.get("density", 1.0) * rng.uniform(0.3, 3), 4)
    for h in w["hinges"]:
        h["axis"] = rng.unit()
    return w


def solo(spec, state, dt, types=None):
    """One step of a brand-new engine from ``state``; the reference for what that step must do.  Computed in a process that
    has never done anything else."""
    API, _ = R.mods()
    e = R.build(spec)
    R.load_state(e, state)
    for n, t in (types or {}).items():
        API.set_body_type(e, n, t)
    API.simulate(e, dt)
    return R.snap(e), R.contacts(e)


def run(case, ctx):
    with Pristine() as fresh:
        run_in(case, ctx, fresh)


def run_in(case, ctx, fresh):
    API, MESH = R.mods()

    def reference(*a):
        try:
            return fresh(solo, *a)
        except PristineFailure as e:
            check(False, "fresh-engine-fails", lambda: "a step that succeeds in this process fails in a fresh one: %s" % e)

    engines = [R.build(w) for w in case["worlds"]]
    types = [dict() for e in engines]
    dts = [e.params.time_step for e in engines]

    def one(i, prof=False):
        before = R.snap(engines[i])
        API.simulate(engines[i], dts[i], prof)
        want, cps = reference(case["worlds"][i], before, dts[i], types[i])
        got = R.snap(engines[i])
        check(R.same_snap(got, want), "depends-on-more-than-its-state",
              lambda: "engine %d took a step that a fresh engine in the same state does not take: %s" % (i, R.diff_snap(got, want)))
        check(digest(R.contacts(engines[i])) == digest(cps), "contacts-depend-on-history",
              lambda: "engine %d: %d contacts, a fresh engine finds %d" % (i, len(engines[i].contact_points), len(cps)))
        ctx.sim_time += dts[i]
        ctx.event("step", i, digest(got))

    for op in case["ops"]:
        i, k = op["e"] % len(engines), op["op"]
        others = [(j, R.snap(e)) for j, e in enumerate(engines) if j != i]
        if k == "step":
            one(i, op["prof"])
        elif k == "threads":
            befores = [R.snap(e) for e in engines]
            sch = Scheduler(Rng("sched", op["seed"]), op["gap"])
            res = sch.run([(lambda e=e, d=d: API.simulate(e, d, op["prof"])) for e, d in zip(engines, dts)])
            for r in res:
                if r[1] is not None:
                    raise r[1]
            for j, e in enumerate(engines):
                want, _ = reference(case["worlds"][j], befores[j], dts[j], types[j])
                got = R.snap(e)
                check(R.same_snap(got, want), "threads-interfere", lambda: "engine %d, schedule %s...: %s" % (
                    j, sch.trace[:20], R.diff_snap(got, want)))
                ctx.sim_time += dts[j]
            ctx.count("thread-switches", sch.switches)
            ctx.fault("preemption", sch.switches)
            ctx.sig("sched", sch.trace)
            ctx.event("threads", sch.trace)
            continue
        elif k == "fault":
            # a failing step of engine i; the others must not notice
            before = R.snap(engines[i])
            probe = R.build(case["worlds"][i])
            R.load_state(probe, before)
            with F.CallInjector() as rec:
                API.simulate(probe, dts[i], op["prof"])
            at = rec.pick(op["point"]["mode"], op["point"]["u"], op["point"]["v"])
            inj = F.CallInjector(at=at, exc=F.make_exc(op["point"]["exc"]))
            try:
                with inj:
                    API.simulate(engines[i], dts[i], op["prof"])
            except BaseException as e:  # noqa
                if not isinstance(e, (Exception, KeyboardInterrupt)):
                    raise
            ctx.fault("call-failure")
            R.load_state(engines[i], before)
            ctx.event("fault", i, inj.fired)
            one(i)
        elif k == "build":
            engines.append(R.build(case["worlds"][i]))
            case["worlds"].append(case["worlds"][i])
            dts.append(dts[i])
            types.append(dict())
            ctx.event("build")
            one(len(engines) - 1)
        elif k == "rebuild":
            before = R.snap(engines[i])
            engines[i] = R.build(case["worlds"][i])
            R.load_state(engines[i], before)
            types[i] = dict()
            one(i)
        elif k == "type":
            names = sorted(engines[i].bodies)
            n = names[op["b"] % len(names)]
            API.set_body_type(engines[i], n, op["t"])
            types[i][n] = op["t"]
            one(i)
        elif k == "move":
            # a client places a body next to another one (fixed bodies are moved like this too)
            names = sorted(engines[i].bodies)
            n, o = names[op["b"] % len(names)], names[op["o"] % len(names)]
            API.set_position(engines[i], n, engines[i].bodies[o].r + np.array(op["dr"]))
            if op["turn"]:
                API.set_orientation(engines[i], n, np.array(op["q"]))
            ctx.event("move", i, n, o)
            one(i)
        elif k == "scribble":
            # the client keeps and overwrites arrays it passed to / got from the API of engine i
            before = R.snap(engines[i])
            n = sorted(engines[i].bodies)[0]
            keep = [API.get_position(engines[i], n), API.get_orientation(engines[i], n),
                    API.get_velocity(engines[i], n), API.get_spin(engines[i], n)]
            API.set_position(engines[i], n, keep[0])
            API.set_velocity(engines[i], n, keep[2])
            API.set_spin(engines[i], n, keep[3])
            for a in keep:
                a[:] = 1e6
            check(R.same_snap(before, R.snap(engines[i])), "client-array-aliased",
                  lambda: R.diff_snap(before, R.snap(engines[i])))
            ctx.event("scribble", i)
            one(i)
        elif k == "kick":
            names = sorted(engines[i].bodies)
            n = names[op["b"] % len(names)]
            API.set_velocity(engines[i], n, np.array(op["v"]))
            API.set_spin(engines[i], n, np.array(op["w"]))
            ctx.event("kick", i, n)
            one(i)
        for j, s in others:
            check(R.same_snap(s, R.snap(engines[j])), "engines-interfere",
                  lambda: "operation %s on engine %d changed engine %d: %s" % (k, i, j, R.diff_snap(s, R.snap(engines[j]))))
    ctx.sig([(o["op"], o["e"]) for o in case["ops"]])
