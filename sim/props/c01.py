"""C01: a rigid body time step that fails part-way leaves the world as it was (or completely advanced), and retrying
it continues on the trajectory of a world that never saw a failure."""
import numpy as np

from sim import faults as F
from sim import rigid as R
from sim.core import InvalidCase, check, digest

CASES = {"quick": 260, "thorough": 6000}
SIG_RULE = "distinct (code site the failure was injected at, whether contacts/hinges were active, exception kind)"
SHRINK = ("ops",)
REAL = "rigid API, stepper, state storage, collision detection, constraint problems, Gauss-Seidel solver, igl, numpy, scipy"
STUB = "failures of library calls (raised by the injector), user defined force type (part of the simulated client)"


def gen(rng, tier):
    world = R.gen_world(rng.fork("world"), n=rng.choice([2, 2, 3]), hinges=rng.chance(0.4), params={
        "max_iterations": rng.choice([3, 8]), "use_post_stabilization": rng.chance(0.5),
        "use_pre_stabilization": rng.chance(0.4), "use_bounce": rng.chance(0.4), "resolution": 8})
    ops = []
    for _ in range(rng.choice([2, 3, 4])):
        k = rng.choice(["fault", "fault", "fault", "force", "step", "multi", "zeromass"])
        op = {"op": k, "prof": rng.chance(0.4)}
        if k in ("fault", "multi"):
            op["point"] = F.gen_point(rng)
        if k == "multi":
            op["n"] = rng.choice([2, 3])
        if k in ("force", "zeromass"):
            op["at"] = rng.choice([1, 1, 2, 3])
            op["body"] = rng.randrange(len(world["bodies"]))
        ops.append(op)
    return {"world": world, "ops": ops}


class Flaky:
    """A user defined force type whose computation fails when the simulator says so."""

    def __init__(self):
        self.force_type, self.name, self.left = "User", "flaky", None

    def compute(self, body, r, q, v, w):
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                raise F.InjectedFault("user force failed")
        return np.array([0.1, -0.2, 0.05]) * body.mass, np.array([0.01, 0.0, -0.02]) * body.mass


def run(case, ctx):
    API, _ = R.mods()
    eng, twin = R.build(case["world"]), R.build(case["world"])
    flakies = []
    for e in (eng, twin):
        f = Flaky()
        e.forces[f.name] = f
        for n in e.bodies:
            API.connect_force(e, n, f.name)
        flakies.append(f)
    dt = eng.params.time_step

    def static(e):
        s = R.full_snap(e)
        for n in s["bodies"]:
            b = s["bodies"][n]
            s["bodies"][n] = b[:2] + b[6:]
        return digest(s)

    def settle(where):
        """After a failure: the state must be one the never-failed twin has too; bring both to the same step."""
        a, b = R.snap(eng), R.snap(twin)
        if R.same_snap(a, b):
            return
        check(False, "half-completed-step", lambda: "%s: %s" % (where, R.diff_snap(a, b)))

    base = static(eng)
    for op in case["ops"]:
        k = op["op"]
        before = R.snap(eng)
        if k == "step":
            API.simulate(eng, dt, op["prof"])
            API.simulate(twin, dt, op["prof"])
            settle("plain step")
            ctx.sim_time += dt
            ctx.event("step", len(eng.contact_points), digest(R.snap(eng)))
            continue
        if k in ("fault", "multi"):
            nsteps = op.get("n", 1)
            rec = F.CallInjector()
            states = [before]
            with rec:
                for _ in range(nsteps):
                    API.simulate(twin, dt, op["prof"])
                    states.append(None)
            # the twin's intermediate states, recomputed from a scratch engine (the recording must not be disturbed)
            mid = R.build(case["world"])
            fm = Flaky()
            mid.forces[fm.name] = fm
            for n in mid.bodies:
                API.connect_force(mid, n, fm.name)
            R.load_state(mid, before)
            for j in range(nsteps):
                API.simulate(mid, dt, op["prof"])
                states[j + 1] = R.snap(mid)
            check(R.same_snap(states[-1], R.snap(twin)), "step-depends-on-history",
                  lambda: R.diff_snap(states[-1], R.snap(twin)))
            at = rec.pick(op["point"]["mode"], op["point"]["u"], op["point"]["v"])
            if at is None:
                raise InvalidCase()
            inj = F.CallInjector(at=at, exc=F.make_exc(op["point"]["exc"]))
            nlog = len(API.get_log(eng))
            raised = False
            try:
                with inj:
                    for _ in range(nsteps):
                        API.simulate(eng, dt, op["prof"])
            except BaseException as e:  # noqa
                if e is not inj.exc:
                    if isinstance(e, Exception) or isinstance(e, KeyboardInterrupt):
                        raised = True
                    else:
                        raise
                raised = True
            if inj.fired is None:
                check(not raised, "unexpected-exception", "a step without a fault raised")
            else:
                ctx.fault("call-failure:" + op["point"]["exc"])
                ctx.sig(inj.fired, bool(eng.contact_points), bool(eng.hinges), op["point"]["exc"])
            after = R.snap(eng)
            hit = [j for j, s in enumerate(states) if R.same_snap(s, after)]
            check(hit, "half-completed-step", lambda: "after a failure at %s the bodies are neither where they were "
                  "nor where a completed step puts them: %s" % (inj.fired, R.diff_snap(states[0], after)))
            check(raised or hit[-1] == nsteps, "swallowed-failure", "the failure at %s was swallowed and steps are missing" % inj.fired)
            check(len(API.get_log(eng)) - nlog <= nsteps, "log-entries", "more profiling entries than steps")
            for _ in range(nsteps - hit[-1]):
                API.simulate(eng, dt, op["prof"])
            settle("retry after a failure at %s" % inj.fired)
            ctx.sim_time += dt * nsteps
            ctx.event("fault", inj.fired, hit[-1], digest(after))
        elif k == "force":
            flakies[0].left = op["at"]
            try:
                API.simulate(eng, dt, op["prof"])
                flakies[0].left = None
                API.simulate(twin, dt, op["prof"])
            except F.InjectedFault:
                ctx.fault("user-force-failure")
                ctx.sig("force", op["at"])
                check(R.same_snap(before, R.snap(eng)), "half-completed-step",
                      lambda: "a failing force: %s" % R.diff_snap(before, R.snap(eng)))
                flakies[0].left = None
                API.simulate(eng, dt, op["prof"])
                API.simulate(twin, dt, op["prof"])
            flakies[0].left = None
            settle("retry after a failing force")
            ctx.event("force", digest(R.snap(eng)))
        elif k == "zeromass":
            names = sorted(eng.bodies)
            b = eng.bodies[names[op["body"] % len(names)]]
            if b.is_fixed:
                continue
            m = b.mass
            b.mass = 0.0
            try:
                API.simulate(eng, dt, op["prof"])
                check(False, "massless-body-accepted", "a free body without mass was simulated")
            except ValueError:
                pass
            b.mass = m
            ctx.fault("missing-mass")
            check(R.same_snap(before, R.snap(eng)), "half-completed-step", lambda: R.diff_snap(before, R.snap(eng)))
            API.simulate(eng, dt, op["prof"])
            API.simulate(twin, dt, op["prof"])
            settle("retry after a missing mass")
            ctx.event("zeromass", digest(R.snap(eng)))
    check(static(eng) == base, "setup-changed", "simulating or failing changed shapes, masses, materials or parameters")
