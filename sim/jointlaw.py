"""Independent reference of hinge joints: what the client declared, the joint equations and a plain sweep."""
import numpy as np

from . import rigid as R


class HingeModel:
    """Hinges as the client declared them, frozen into the frames of the two bodies at the time of the call."""

    def __init__(self):
        self.h = {}

    def set(self, engine, name, parent, child, origin, axis, mode):
        P, C = engine.bodies[parent], engine.bodies[child]
        Rp, Rc = R.q_mat(P.q), R.q_mat(C.q)
        o, a = np.array(origin, float), np.array(axis, float)
        if mode == "model":
            Rs = R.q_mat(P.shape.q)
            o, a = Rs.T @ (o - np.array(P.shape.r)), Rs.T @ a
        if mode in ("body", "model"):
            o, a = Rp @ o + np.array(P.r), Rp @ a
        a = a / np.linalg.norm(a)
        self.h[name] = (parent, child, Rp.T @ (o - np.array(P.r)), Rc.T @ (o - np.array(C.r)), Rp.T @ a, Rc.T @ a)


def errors(hinge, rb):
    """World anchors' distance vector (parent minus child) and n_child x n_parent."""
    p, c, ap, ac, xp, xc = hinge
    P, C = rb[p], rb[c]
    d = P.r + P.R @ ap - C.r - C.R @ ac
    return d, np.cross(C.R @ xc, P.R @ xp)


def rows(hinges, rb, idx):
    """Six rows per hinge would be dependent: five, with any basis of the plane orthogonal to the parent's axis."""
    out, err, ids = [], [], []
    for name, h in hinges.items():
        p, c, ap, ac, xp, xc = h
        P, C = rb[p], rb[c]
        n = P.R @ xp
        t = np.cross(n, [1, 0, 0] if abs(n[0]) < 0.6 else [0, 1, 0])
        t /= np.linalg.norm(t)
        b = np.cross(n, t)
        J = np.zeros((5, 6 * len(idx)))
        i, j = 6 * idx[p], 6 * idx[c]
        J[0:3, i:i + 3] = np.eye(3)
        J[0:3, i + 3:i + 6] = -R.star(P.R @ ap)
        J[0:3, j:j + 3] -= np.eye(3)
        J[0:3, j + 3:j + 6] += R.star(C.R @ ac)
        for k, x in ((3, t), (4, b)):
            J[k, i + 3:i + 6] = x
            J[k, j + 3:j + 6] = -x
        d, u = errors(h, rb)
        out.append(J)
        err.append(np.concatenate([d, [t @ u, b @ u]]))
        ids.append(name)
    return np.vstack(out), np.concatenate(err), ids


def mass_blocks(rb, names):
    n = len(names)
    W, M = np.zeros((6 * n, 6 * n)), np.zeros((6 * n, 6 * n))
    for k, name in enumerate(names):
        b = rb[name]
        if not b.fixed:
            W[6 * k:6 * k + 3, 6 * k:6 * k + 3] = np.eye(3) / b.mass
            W[6 * k + 3:6 * k + 6, 6 * k + 3:6 * k + 6] = b.Iinv
            M[6 * k:6 * k + 3, 6 * k:6 * k + 3] = np.eye(3) * b.mass
            M[6 * k + 3:6 * k + 6, 6 * k + 3:6 * k + 6] = b.I
    return W, M


def solves(A, b, iters, tol, nu=0.9):
    """Does the block sweep with backed-off r-factors (reduce them and take the sweep back when the change grew) solve the
    problem within ``iters`` sweeps?  Returns the number of sweeps or None."""
    K = len(b) // 5
    d = np.diag(A).copy()
    d[d <= 1e-14 * max(d.max(), 1e-300)] = 1.0
    r = 1.0 / d
    x, last = np.zeros(len(b)), np.inf
    for it in range(iters):
        old = x.copy()
        for k in range(K):
            s = slice(5 * k, 5 * k + 5)
            x[s] = x[s] - r[s] * (A[s] @ x + b[s])
        m = np.abs(x - old).max()
        if not np.isfinite(m):
            return None
        if m > last:
            r = r * nu
            x = old
        else:
            last = m
            if m < tol:
                return it
    return None


class JointStep:
    def __init__(self, hinges, rb, pre, dt, params):
        self.names = list(rb)
        idx = {n: i for i, n in enumerate(self.names)}
        self.J, self.err, self.ids = rows(hinges, rb, idx)
        self.W, self.M = mass_blocks(rb, self.names)
        self.rate = params.gap_reduction / dt if params.use_pre_stabilization else 0.0
        self.u0 = np.concatenate([np.concatenate(pre[n]) for n in self.names])
        self.A = self.J @ self.W @ self.J.T
        self.b = self.J @ self.u0 + self.rate * self.err

    def tame(self):
        """The documented scheme solves this problem well within the iteration limit."""
        return solves(self.A, self.b, 200, 1e-11)

    def residual(self, vel):
        """(equation residual, residual of explaining the velocity change by joint impulses, scale)."""
        u = np.concatenate([np.concatenate(vel[n]) for n in self.names])
        res = np.abs(self.J @ u + self.rate * self.err).max()
        du = u - self.u0
        B = self.W @ self.J.T
        # weigh by the mass so that light and heavy bodies count alike
        w, V = np.linalg.eigh(self.M)
        h = (V * np.sqrt(np.maximum(w, 0))) @ V.T
        x = np.linalg.lstsq(h @ B, h @ du, rcond=1e-12)[0]
        r = np.abs(h @ B @ x - h @ du).max()
        return res, r, np.abs(h @ du).max()
