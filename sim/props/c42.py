"""C42: the priority queue gives back every index exactly once per time it was put in, the smallest current priority first,
whatever the history of updates (up, down, to equal or the same value), removals, returns and failed calls."""
from sim import faults as F
from sim.core import Rng, check

CASES = {"quick": 1600, "thorough": 80000}
SIG_RULE = "distinct (operation, size, stale entries, outcome)"
SHRINK = ("ops",)
REAL = "the priority queue"
STUB = "priorities that fail to compare at seeded moments"
ASSUMPTIONS = "priorities are totally ordered, indices too (they break ties); an index whose update failed may carry either priority"


class Prio:
    """A priority whose comparison can fail when the simulation says so."""
    budget = None

    def __init__(self, v):
        self.v = v

    def _tick(self):
        if Prio.budget is not None:
            Prio.budget -= 1
            if Prio.budget < 0:
                Prio.budget = None
                raise MemoryError("injected: comparison failed")

    def __lt__(self, o):
        self._tick()
        return self.v < o.v

    def __eq__(self, o):
        self._tick()
        return self.v == o.v

    __hash__ = None


def gen(rng, tier):
    n = rng.choice([1, 3, 8])
    kind = rng.choice(["float", "int", "shared", "objects"])
    ops = []
    for _ in range(rng.choice([5, 15, 60])):
        ops.append({"op": rng.choice(["push", "push", "update", "update", "pop", "pop", "drain"] if rng.chance(0.97) else ["drain"]), "idx": rng.randrange(n),
                    "v": rng.choice([0, 1, 2, 3, -1, 0.5, 2.25]) if rng.chance(0.7) else round(rng.uniform(-5, 5), 3), "fail": rng.randrange(8) if kind == "objects" and rng.chance(0.15) else None})
    return {"kind": kind, "ops": ops}


def run(case, ctx):
    from rainbow.util.heap import Heap
    h = Heap()
    model = {}      # index -> set of possible priorities (one, unless an update failed)
    shared = {}
    Prio.budget = None
    tainted = False

    def value(v):
        if case["kind"] == "int":
            return int(v)
        if case["kind"] == "float":
            return float(str(v))
        if case["kind"] == "objects":
            return Prio(v)
        return shared.setdefault(v, float(v))
    raw = (lambda v: int(v)) if case["kind"] == "int" else (lambda v: v)

    def pop(i):
        got = h.pop()
        if not model:
            check(got is None, "gave-what-was-not-there", lambda: "operation %d: %r" % (i, got))
            return False
        check(got in model, "gave-what-was-not-there" if got is not None else "lost", lambda: "operation %d: %r of %s" % (i, got, model))
        if not tainted:
            best = min((min(v), j) for j, v in model.items())
            check(min(model[got]) == best[0], "not-the-smallest-first", lambda: "operation %d: %r of %s" % (i, got, model))
            check(got == best[1], "tie-not-by-index", lambda: "operation %d: %r of %s" % (i, got, model))
        del model[got]
        return True

    for i, op in enumerate(case["ops"]):
        k = op["op"]
        if tainted:
            break
        if k in ("push", "update"):
            Prio.budget = op["fail"]
            try:
                (h.push if k == "push" else h.update)(op["idx"], value(op["v"]))
                model[op["idx"]] = {raw(op["v"])}
            except MemoryError:
                ctx.fault("comparison-failure")
                model.setdefault(op["idx"], set()).add(raw(op["v"]))
                tainted = True
            finally:
                Prio.budget = None
        elif k == "pop":
            pop(i)
        else:
            while model:
                n = len(model)
                pop(i)
                check(len(model) < n, "lost", "")
            pop(i)
        if not tainted:
            check(bool(h) == bool(model), "emptiness-wrong", lambda: "operation %d: %r with %s" % (i, bool(h), model))
        ctx.sig(k, len(model), op["idx"], case["kind"])
        ctx.event(k, len(model))
    ctx.count("operations", len(case["ops"]))
    if not tainted:
        while model:
            pop(-1)
        check(not h and h.pop() is None, "not-empty-at-the-end")
