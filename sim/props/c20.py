"""C20: a soft body time step that fails part-way leaves the world as it was (or completely advanced); retrying continues
on the trajectory of a world that never saw a failure."""
import numpy as np

from sim import faults as F
from sim import soft as S
from sim.core import check, digest

CASES = {"quick": 150, "thorough": 5000}
SIG_RULE = "distinct (code site the failure was injected at, contacts, broad phase, solver scheme, exception kind)"
SHRINK = ("ops",)
REAL = "soft body API, stepper, mechanics, collision detection (hash grid and BVH), all contact solver schemes, igl, numpy, scipy"
STUB = "failures of library calls (raised by the injector), the client's constitutive model (may fail), random hash offsets (lazy table)"


def gen(rng, tier):
    w = S.gen_world(rng.fork("w"), n=rng.choice([1, 2, 2, 2, 3, 3]), tight=rng.chance(0.8), params={"max_iterations": rng.choice([2, 4]), "resolution": 7,
                    "use_post_stabilization": rng.chance(0.7)}, small=rng.chance(0.6))
    ops = []
    for _ in range(rng.choice([2, 3, 4])):
        k = rng.choice(["fault", "fault", "fault", "fault", "step", "multi", "stress", "flat", "prestab"])
        op = {"op": k, "prof": rng.chance(0.4), "body": rng.randrange(3)}
        if k in ("fault", "multi"):
            op["point"] = F.gen_point(rng)
        if k == "multi":
            op["n"] = rng.choice([2, 3])
        if k == "stress":
            op["at"] = rng.choice([1, 2, 5, 9])
        ops.append(op)
    return {"world": w, "ops": ops}


def run(case, ctx):
    API, _ = S.mods()
    F.seed_phi(1)
    eng = S.build(case["world"])
    twin = S.build(case["world"])
    dt = eng.params.time_step

    def static(e):
        return digest(S.declared(e))

    def settle(where):
        a, b = S.snap(eng), S.snap(twin)
        check(S.same_snap(a, b), "half-completed-step", lambda: "%s: %s" % (where, S.diff_snap(a, b)))

    def ok():
        return not S.squashed(twin)

    base = static(eng)
    for op in case["ops"]:
        if not ok():
            break  # the material has been squashed through itself: such a step is rejected, nothing more to see
        k = op["op"]
        before = S.snap(eng)
        if k == "step":
            for e in (eng, twin):
                S.step(e, dt, op["prof"])
            settle("plain step")
            ctx.sim_time += dt
            ctx.event("step", len(eng.contact_points), digest(S.snap(eng)))
        elif k in ("fault", "multi"):
            n = op.get("n", 1)
            states = [before]
            mid = S.build(case["world"])
            S.load_state(mid, before)
            rec = F.CallInjector()
            with rec:
                for _ in range(n):
                    S.step(twin, dt, op["prof"])
            for _ in range(n):
                S.step(mid, dt, op["prof"])
                states.append(S.snap(mid))
            check(S.same_snap(states[-1], S.snap(twin)), "step-depends-on-history", lambda: S.diff_snap(states[-1], S.snap(twin)))
            at = rec.pick(op["point"]["mode"], op["point"]["u"], op["point"]["v"])
            inj = F.CallInjector(at=at, exc=F.make_exc(op["point"]["exc"]))
            nlog = len(API.get_log(eng)) if eng.stepper else 0
            raised = False
            try:
                with inj:
                    for _ in range(n):
                        API.simulate(eng, dt, op["prof"])
            except (Exception, KeyboardInterrupt):
                if inj.fired is None:
                    raise
                raised = True
            after = S.snap(eng)
            if inj.fired is not None:
                ctx.fault("call-failure:" + op["point"]["exc"])
                ctx.sig(inj.fired, bool(twin.contact_points), eng.params.use_spatial_hashing, eng.params.proximal_solver, op["point"]["exc"])
            hit = [j for j, s in enumerate(states) if S.same_snap(s, after)]
            check(hit, "half-completed-step", lambda: "after a failure at %s the bodies are neither where they were nor where a "
                  "completed step puts them: %s" % (inj.fired, S.diff_snap(states[0], after)))
            check(raised or hit[-1] == n, "swallowed-failure", "the failure at %s was swallowed and steps are missing" % inj.fired)
            check((len(API.get_log(eng)) if eng.stepper else 0) - nlog <= n + (nlog == 0), "log-entries", "more profiling entries than steps")
            for _ in range(n - hit[-1]):
                S.step(eng, dt, op["prof"])
            settle("retry after a failure at %s" % inj.fired)
            ctx.sim_time += dt * n
            ctx.event("fault", inj.fired, hit[-1], digest(after))
        elif k == "stress":
            names = sorted(eng.bodies)
            m = eng.bodies[names[op["body"] % len(names)]].material_description
            old = m.constitutive_model
            left = [op["at"]]

            class Flaky:
                energy_density = old.energy_density

                @staticmethod
                def pk1_stress(Fk, lam, mu):
                    left[0] -= 1
                    if left[0] <= 0:
                        raise F.InjectedFault("user constitutive model failed")
                    return old.pk1_stress(Fk, lam, mu)
            API.set_constitutive_model(eng, m.name, Flaky)
            failed = False
            try:
                S.step(eng, dt, op["prof"])
            except F.InjectedFault:
                failed = True
                ctx.fault("user-model-failure")
                check(S.same_snap(before, S.snap(eng)), "half-completed-step", lambda: "a failing constitutive model: %s" % S.diff_snap(before, S.snap(eng)))
            API.set_constitutive_model(eng, m.name, old)
            if failed:
                S.step(eng, dt, op["prof"])
            S.step(twin, dt, op["prof"])
            settle("retry after a failing constitutive model")
            ctx.event("stress", digest(S.snap(eng)))
        elif k == "flat":
            names = sorted(eng.bodies)
            n = names[op["body"] % len(names)]
            if eng.bodies[n].dirichlet_conditions:
                continue
            x = before[n][0].copy()
            x[:, op["body"] % 3] = x[0, op["body"] % 3]
            API.set_spatial_coordinates(eng, n, x)
            flat = S.snap(eng)
            try:
                API.simulate(eng, dt, op["prof"])
                check(False, "degenerate-accepted", "a flat body was simulated")
            except RuntimeError as e:
                if "Degenerate" not in str(e):
                    raise
                ctx.fault("degenerate-element")
                check(S.same_snap(flat, S.snap(eng)), "half-completed-step", lambda: S.diff_snap(flat, S.snap(eng)))
            S.load_state(eng, before)
            for e in (eng, twin):
                S.step(e, dt, op["prof"])
            settle("step after a rejected one")
            ctx.event("flat", digest(S.snap(eng)))
        else:
            # an option that is not available: refused as soon as it would be needed
            eng.params.use_pre_stabilization = True
            try:
                S.step(eng, dt, op["prof"])
                failed = False
            except ValueError:
                failed = True
                ctx.fault("refused-option")
                check(S.same_snap(before, S.snap(eng)), "half-completed-step", lambda: "refused option: %s" % S.diff_snap(before, S.snap(eng)))
            eng.params.use_pre_stabilization = False
            if failed:
                S.step(eng, dt, op["prof"])
            S.step(twin, dt, op["prof"])
            settle("step after a refused option")
            ctx.event("prestab", failed)
    check(static(eng) == base, "setup-changed", "simulating or failing changed meshes, masses, materials or parameters")
