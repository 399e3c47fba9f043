"""C04: simulated time is accounted for exactly: a request for T seconds advances the world by T, in steps no longer
than the configured time step, whatever the sequence of requests, parameter changes and failing steps."""
import math

import numpy as np

from sim import rigid as R
from sim.core import InjectedFault, check

CASES = {"quick": 1600, "thorough": 60000}
SIG_RULE = "distinct (simulator, ratio T/time_step class, failure position) request histories"
SHRINK = ("ops",)
REAL = "simulate() of both simulators; in part of the runs the real steppers and real bodies"
STUB = "in most runs the stepper (the existing seam engine.stepper) is a recording one that may fail at a chosen step"


def gen(rng, tier):
    soft = rng.chance(0.35)
    real = rng.chance(0.06)
    ops = []
    for _ in range(rng.choice([1, 2, 4, 7])):
        k = rng.choice(["sim"] * 6 + ["dt", "bad", "fail"])
        if k == "sim" or k == "fail":
            kind = rng.choice(["mult", "mult", "frac", "tiny", "rand", "decimal", "below", "near"])
            op = {"op": k, "kind": kind, "n": rng.choice([1, 2, 3, 5, 7, 10, 13, 30 if not real else 4]),
                  "f": round(rng.uniform(0.02, 0.98), 6)}
            if k == "fail":
                op["at"] = rng.randrange(0, 6)
        elif k == "dt":
            op = {"op": "dt", "dt": rng.choice([0.01, 0.001, 0.1, 1.0 / 60, 1.0 / 3, 0.03, 0.7, 2.0, 1e-4])}
        else:
            op = {"op": "bad", "T": rng.choice([0.0, -1.0, -1e-12])}
        ops.append(op)
    return {"soft": soft, "real": real, "dt": rng.choice([0.01, 0.001, 0.1, 1.0 / 60, 1.0 / 3, 0.03, 0.7]), "ops": ops,
            "v": rng.vec(-2, 2, 4)}


def duration(op, h):
    k = op["kind"]
    if k == "mult":
        return op["n"] * h
    if k == "decimal":  # as a user writes it
        return round(op["n"] * h, 10)
    if k == "frac":
        return (op["n"] + op["f"]) * h
    if k == "below":
        return op["f"] * h
    if k == "tiny":
        return h * 1e-4 * op["f"]
    if k == "near":
        return op["n"] * h * (1 + (1e-5 if op["f"] > 0.5 else -1e-5) * op["f"])
    return op["f"] * op["n"] * h


class Recorder:
    def __init__(self):
        self.dts, self.log, self.fail_at, self.engines = [], [], None, []

    def step(self, dt, engine, profiling_on=False, *a, **k):
        if self.fail_at is not None and len(self.dts) == self.fail_at:
            raise InjectedFault("step failed")
        self.dts.append(float(dt))
        self.engines.append(engine)


def run(case, ctx):
    if case["soft"]:
        import rainbow.simulators.prox_soft_bodies.api as API
        from sim import faults as F
        F.install_phi_seam()
        F.seed_phi(1)
        e = API.create_engine()
    else:
        import rainbow.simulators.prox_rigid_bodies.api as API
        e = R.build({"params": {"resolution": 8}, "shapes": [{"name": "s", "kind": "box", "args": [1, 1, 1]}],
                     "bodies": [{"name": "b", "shape": "s", "r": [0, 0, 0], "v": case["v"]}]})
    e.params.time_step = case["dt"]
    real = case["real"] and not case["soft"]
    rec = None
    if not real:
        rec = Recorder()
        e.stepper = rec
    pos = np.zeros(3)
    total = 0.0
    for op in case["ops"]:
        h = e.params.time_step
        if op["op"] == "dt":
            e.params.time_step = op["dt"]
            continue
        if rec:
            rec.dts, rec.fail_at = [], None
        before = R.snap(e) if not case["soft"] else None
        if op["op"] == "bad":
            try:
                API.simulate(e, op["T"])
                check(False, "bad-duration-accepted", "simulate(%r) returned normally" % op["T"])
            except ValueError:
                pass
            if rec:
                check(not rec.dts, "bad-duration-stepped", "a rejected duration took %d steps" % len(rec.dts))
            elif before is not None:
                check(R.same_snap(before, R.snap(e)), "bad-duration-stepped", "a rejected duration moved bodies")
            ctx.fault("bad-duration")
            continue
        T = duration(op, h)
        if T <= 0:
            continue
        if op["op"] == "fail" and rec:
            rec.fail_at = op["at"]
            want = steps_for(T, h)
            try:
                API.simulate(e, T)
                failed = False
            except InjectedFault:
                failed = True
            check(failed == (op["at"] < want[0]) or (op["at"] < want[1]) == failed, "failure-hidden",
                  "a failing step was hidden or invented")
            if failed:
                check(len(rec.dts) == op["at"], "steps-after-failure", "%d steps were taken around the failure at step %d" % (len(rec.dts), op["at"]))
                ctx.fault("step-failure")
                ctx.sig(case["soft"], "fail", op["kind"], op["at"])
                total += sum(rec.dts)
                continue
        else:
            API.simulate(e, T)
        if rec:
            d = rec.dts
            check(len(d) > 0, "no-step", "simulate(%r) with time step %r took no step" % (T, h))
            check(min(d) > 0 and all(math.isfinite(x) for x in d), "non-positive-step", str(d[:5]))
            check(max(d) <= h * (1 + 1e-9), "step-too-long", "a step of %r exceeds the time step %r" % (max(d), h))
            check(abs(sum(d) - T) <= 2e-6 * h + 1e-12 * T, "time-lost",
                  "simulate(%r) with time step %r advanced %r in %d steps" % (T, h, sum(d), len(d)))
            lo, hi = steps_for(T, h)
            check(lo <= len(d) <= hi, "step-count", "simulate(%r) with time step %r took %d steps, expected %d" % (T, h, len(d), lo))
            check(all(abs(x - h) <= 1e-9 * h for x in d[:-1]), "short-inner-step", "a step before the last one is short")
            check(all(x is e for x in rec.engines), "wrong-engine", "")
            ctx.event("sim", T, h, len(d))
            total += T
        else:
            API_pos = np.array(e.bodies["b"].r)
            pos = pos + np.array(case["v"]) * T
            check(np.abs(API_pos - pos).max() <= 1e-9 * (1 + np.abs(pos).max()) + 2e-6 * h * 3 * len(case["ops"]), "time-lost",
                  "a freely moving body is at %s after moving for %r more, expected %s" % (API_pos, T, pos))
            ctx.event("sim-real", T, h, API_pos)
            total += T
        ctx.sig(case["soft"], real, op["kind"], op["n"], h)
    ctx.sim_time += total


def steps_for(T, h):
    x = T / h
    lo = max(1, math.ceil(x - 2e-6))
    hi = max(1, math.ceil(x - 1e-7)) if x > 1e-7 else 1
    return min(lo, hi), max(lo, hi)
