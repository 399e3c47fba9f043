"""C40: an insertion into the hash grid reports everything inserted before it into the same cell at the same time stamp, nothing of
another time stamp and nothing that was never inserted, whatever the history of time stamps, table sizes and failed insertions."""
from sim import faults as F
from sim.core import Rng, check

CASES = {"quick": 1600, "thorough": 60000}
SIG_RULE = "distinct (operation, how many reported, cell collided or not, failures before)"
SHRINK = ("ops",)
REAL = "hash grid, hash cells, bounding boxes"
STUB = "random offset table (seeded, drawn when read), failing calls"
ASSUMPTIONS = "time stamps never decrease; the table size changes between time stamps only (the grid documents no rehashing)"


def gen(rng, tier):
    span = rng.choice([1, 3, 20, 3000])
    cells = [[rng.randint(-span, span) for _ in range(3)] for _ in range(rng.choice([1, 2, 4, 10]))]
    if rng.chance(0.4):  # cells that are permutations of each other or of one table size apart
        c = cells[0]
        cells += [[c[1], c[2], c[0]], [c[0] + 1000, c[1], c[2]], [c[0] + 1, c[1] - 1, c[2]], [-x for x in c]]
    ops = []
    crowd = rng.chance(0.06)  # many objects in few cells, at one time stamp
    for _ in range(rng.choice([150, 300, 700]) if crowd else rng.choice([4, 10, 30, 80])):
        k = rng.choice(["insert"] * 8 + ["again", "tick", "tick", "tick", "jump", "size", "grow", "fault", "spoil"])
        if crowd and k != "fault" and rng.chance(0.995):
            k = "insert"
        ops.append({"op": k, "cell": rng.choice(cells), "by": rng.choice([1, 7, 200]), "u": rng.random(), "body": rng.randrange(3)})
    return {"phi": rng.randrange(1 << 20), "ops": ops, "start": rng.choice([0, 0, 1, 50])}


def run(case, ctx):
    import rainbow.geometry.spatial_hashing as H
    from rainbow.geometry.aabb import AABB
    F.install_phi_seam()
    F.seed_phi(case["phi"])
    g = H.HashGird()
    stamp, n, failed = case["start"], 0, 0
    cells = {}      # (cell) -> objects of this time stamp, in order
    live = []       # every object of this time stamp
    maybe = set()   # objects whose insertion failed
    last = None
    for i, op in enumerate(case["ops"]):
        k, cell = op["op"], tuple(op["cell"])
        if k in ("tick", "jump", "size", "grow"):
            stamp += 1 if k == "tick" else op["by"]
            cells, live = {}, []
            if k == "size":
                g.set_hash_table_size([7, 1000, 5000][op["by"] % 3])
            elif k == "grow":
                g.increment_hash_table_size(op["by"])
            continue
        if k == "spoil":
            if last is not None:
                del last[:]
                last.append("spoiled by the caller")
            continue
        if k == "again" and live:
            obj = live[int(op["u"] * len(live)) % len(live)]
        else:
            n += 1
            obj = (n, op["body"], AABB([n, 0, 0], [n + 1, 1, 1]))
        call = lambda: g.insert(cell[0], cell[1], cell[2], obj[0], obj[1], obj[2], stamp)
        if k == "fault":
            inj = F.CallInjector(at=1 + int(op["u"] * 6))
            try:
                with inj:
                    got = call()
            except Exception:
                if inj.fired is None:
                    raise
                ctx.fault("call-failure")
                failed += 1
                maybe.add(obj)
                continue
        else:
            got = call()
        check(isinstance(got, list), "not-a-list", lambda: repr(got))
        want = cells.setdefault(cell, [])
        where = "operation %d, cell %s, time stamp %d" % (i, cell, stamp)
        for o in (want if len(want) < 60 or not i % 40 else want[-3:] + want[:3]):
            check(got.count(o) >= want.count(o), "earlier-insertion-not-reported", lambda: "%s: %s not in %s" % (where, o[:2], [x[:2] for x in got]))
        allowed = {id(o[2]) for o in live} | {id(o[2]) for o in maybe}
        for o in (got if len(got) < 60 or not i % 40 else got[:3] + got[-3:]):
            check(isinstance(o, tuple) and len(o) == 3 and id(o[2]) in allowed, "reported-what-is-not-there", lambda: "%s: %s (stamp %d)" % (where, o[:2], stamp))
            check(any(o == x for x in live) or o in maybe, "reported-object-changed", lambda: "%s: %s" % (where, o[:2]))
        if len(live) > 60 and i % 40:  # the rest is quadratic in the number of objects
            want.append(obj)
            live.append(obj)
            last = got
            continue
        check(len(got) <= len(live) + len(maybe), "reported-twice", lambda: "%s: %s" % (where, [x[:2] for x in got]))
        pos = [next(j for j, x in enumerate(live) if x == o) for o in got if o not in maybe and live.count(o) == 1]
        check(pos == sorted(pos), "order-of-insertion-lost", lambda: "%s: %s" % (where, pos))
        want.append(obj)
        live.append(obj)
        last = got
        ctx.sig(k, len(got), len(got) > len(want), min(failed, 3))
        ctx.event("insert", len(got))
        ctx.count("insertions")
