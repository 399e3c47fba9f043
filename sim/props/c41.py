"""C41: after every refit the traversal of two bounding volume trees reports exactly the pairs of elements whose own volumes overlap,
each once, whatever the sizes of the meshes and of the sub-trees, and whatever refits, failures and deformations came before."""
import numpy as np

from sim import faults as F
from sim.core import Rng, check

CASES = {"quick": 1500, "thorough": 40000}
SIG_RULE = "distinct (directions, sub-tree sizes, elements, overlapping pairs, operation)"
SHRINK = ("ops",)
REAL = "k-DOPs, bounding volume trees, their refitting and traversal"
STUB = "failing numerical library calls"
ASSUMPTIONS = "the directions of the volumes are those of the table of the module; trees are compared with the same number of directions"


def gen_obj(rng):
    n = rng.choice([1, 2, 3, 5, 8, 13, 30])
    if rng.chance(0.03):
        return {"n": rng.choice([70, 100]), "nodes": 100, "size": 3, "seed": rng.randrange(1 << 30), "sub": 1, "spread": rng.choice([1.0, 3.0]), "grid": False}
    return {"n": n, "nodes": rng.choice([3, 4, 10, 3 * n]), "size": rng.choice([3, 3, 4]), "seed": rng.randrange(1 << 30), "sub": rng.choice([1, 2, 3, 4, 7, 8, 15, 61, 150]),
            "spread": rng.choice([0.3, 1.0, 3.0]), "grid": rng.chance(0.25)}


def gen(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 3, 6])):
        k = rng.choice(["deform", "deform", "move", "flat", "far", "fault", "none", "split"])
        ops.append({"op": k, "which": rng.randrange(2), "seed": rng.randrange(1 << 30), "env": rng.choice([0.0, 0.0, 0.05, 0.5]), "u": rng.random(), "refit": rng.choice(["one", "both"])})
    return {"K": rng.choice([3, 4]), "objs": [gen_obj(rng.fork(i)) for i in range(2)], "ops": ops, "env": rng.choice([0.0, 0.1])}


def coords(o):
    r = np.random.RandomState(o["seed"] % (1 << 31))
    X = r.uniform(-1, 1, (o["nodes"], 3)) * o["spread"]
    if o["grid"]:
        X = np.round(X * 2) / 2  # touching volumes
    return X, r.randint(0, o["nodes"], (o["n"], o["size"]))


def volumes(K, X, T, env):
    D = {3: np.eye(3), 4: np.array([[1, 1, 1], [1, 1, -1], [1, -1, 1], [1, -1, -1]], float)}[K]
    P = X @ D.T
    E = P[T]
    return E.min(axis=1) - env, E.max(axis=1) + env


def exact(X, env):
    """Projections of these coordinates are exact: touching is certain."""
    return env == 0 and np.abs(X).max() < 1e6 and np.array_equal(X * 2, np.round(X * 2))


def pairs(a, b, ex=False):
    """certain pairs (touching counts) and pairs the rounding of projections could decide either way"""
    gap = np.maximum(a[0][:, None, :] - b[1][None, :, :], b[0][None, :, :] - a[1][:, None, :]).max(axis=2)
    tol = 1e-12 * max(1.0, np.abs(a[0]).max(), np.abs(b[0]).max())
    return (gap <= 0, gap <= 0) if ex else (gap < -tol, gap <= tol)


def run(case, ctx):
    import rainbow.geometry.kdop_bvh as B
    K = case["K"]
    X, T, env, trees = [], [], [], []
    for o in case["objs"]:
        x, t = coords(o)
        X.append(x), T.append(t), env.append(case["env"])
        trees.append(B.make_bvh(x, t, K, o["sub"], case["env"]))
    stale = [None, None]  # the volumes of a tree are those of these coordinates
    fitted = [volumes(K, X[i], T[i], env[i]) for i in range(2)]
    ex = [exact(X[i], env[i]) for i in range(2)]
    for i, op in enumerate([{"op": "none", "which": 0, "seed": 0, "env": case["env"], "u": 0, "refit": "none"}] + case["ops"]):
        k, w = op["op"], op["which"]
        r = np.random.RandomState(op["seed"] % (1 << 31))
        if k == "deform":
            X[w] = X[w] + (r.normal(0, 0.3, X[w].shape) if r.rand() < 0.6 else r.randint(-2, 3, X[w].shape) / 2)
        elif k == "move":
            X[w] = X[w] + (r.uniform(-2, 2, 3) if r.rand() < 0.5 else r.randint(-4, 5, 3) / 2)
        elif k == "flat":
            X[w] = X[w].copy()
            X[w][:, r.randint(3)] = 0.0
        elif k == "far":
            X[w] = X[w] + np.array([1e6, 0, 0]) * r.randint(0, 2)
        elif k == "split":
            X[w] = X[w].copy()
            X[w][: len(X[w]) // 2] += 50
        if k == "fault":
            inj = F.CallInjector(at=1 + int(op["u"] * 3 * len(T[w])))
            try:
                with inj:
                    B.refit_bvh(X[w] + 3.0, T[w], trees[w], K, op["env"])
            except Exception:
                if inj.fired is None:
                    raise
                ctx.fault("call-failure")
        if i:
            for j in ((w,) if op["refit"] == "one" else (0, 1)):
                keep = X[j].copy()
                B.refit_bvh(X[j], T[j], trees[j], K, op["env"])
                check(np.array_equal(keep, X[j]), "refit-changed-coordinates")
                fitted[j] = volumes(K, X[j], T[j], op["env"])
                ex[j] = exact(X[j], op["env"])
        for a, b in ((0, 1), (1, 0), (0, 0)):
            sure, may = pairs(fitted[a], fitted[b], ex[a] and ex[b])
            got = B.traversal(trees[a], trees[b])
            where = "operation %d (%s): %d and %d elements in sub-trees of %d and %d" % (i, k, len(T[a]), len(T[b]), case["objs"][a]["sub"], case["objs"][b]["sub"])
            check(len(set(got)) == len(got), "pair-reported-twice", lambda: "%s: %s" % (where, got))
            rep = np.zeros(sure.shape, bool)
            for p, q in got:
                check(0 <= p < len(T[a]) and 0 <= q < len(T[b]), "no-such-element", lambda: "%s: %s" % (where, (p, q)))
                rep[p, q] = True
            check(not np.any(sure & ~rep), "overlapping-pair-missed", lambda: "%s: %s" % (where, np.argwhere(sure & ~rep)[:4].tolist()))
            check(not np.any(rep & ~may), "separated-pair-reported", lambda: "%s: %s" % (where, np.argwhere(rep & ~may)[:4].tolist()))
            ctx.count("pairs", len(got))
            ctx.sig(K, case["objs"][a]["sub"], len(T[a]), len(got), k)
            ctx.event("traversal", sorted(got))
