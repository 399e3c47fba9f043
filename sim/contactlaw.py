"""Oracle for contact problems: given what the bodies did, is there *any* set of contact impulses the contact law allows
that explains it?  (Non-negative normal impulses acting only where the law's normal velocity is zero, friction inside the
cone while sticking and exactly opposite to sliding.)  Independent of how, or in which form, the impulses were found."""
import numpy as np
from scipy.optimize import nnls

_dirs = None


def directions():
    """Vertices of a polytope that contains the unit ball (subdivided icosahedron, scaled outwards)."""
    global _dirs
    if _dirs is None:
        g = (1 + 5 ** 0.5) / 2
        v = []
        for a in (-1, 1):
            for b in (-g, g):
                v += [(0, a, b), (a, b, 0), (b, 0, a)]
        v = np.array(v, float)
        v /= np.linalg.norm(v, axis=1)[:, None]
        pts = list(v)
        for i in range(12):
            for j in range(i):
                if v[i] @ v[j] > 0.4:
                    m = v[i] + v[j]
                    pts.append(m / np.linalg.norm(m))
        pts = np.array(pts)
        from scipy.spatial import ConvexHull
        h = ConvexHull(pts)
        inr = (-h.equations[:, 3]).min()
        _dirs = pts / inr
    return _dirs


def frame(n):
    n = n / np.linalg.norm(n)
    a = np.eye(3)[np.argmin(np.abs(n))]
    s = np.cross(n, a)
    s /= np.linalg.norm(s)
    return n, s, np.cross(n, s)


def rows(p, n, ra, rb):
    """4 x 12 map (vA wA vB wB) -> (normal, s, t, spin) relative velocity; B moves along +n away from A."""
    n, s, t = frame(n)
    J = np.zeros((4, 12))
    for i, d in enumerate((n, s, t)):
        J[i, 0:3] = -d
        J[i, 3:6] = -np.cross(p - ra, d)
        J[i, 6:9] = d
        J[i, 9:12] = np.cross(p - rb, d)
    J[3, 3:6] = -n
    J[3, 9:12] = n
    return J


def explain(Js, idx, Minv_half, dp_scaled, wn, wf, mu, tol_v, impulse_floor=0.0):
    """Js: list of 4x12 rows; idx: list of (ia, ib) dof offsets or None for immovable; Minv_half: block matrix mapping
    impulses to scaled velocity; dp_scaled = M^(1/2) (u_after - u_predicted).
    wn: contact-law normal velocities; wf: (K,3) sliding velocities.  Returns the relative residual."""
    cols = []
    n = dp_scaled.shape[0]
    D = directions()

    def col(k, w4):
        v = np.zeros(n)
        f = w4 @ Js[k]
        a, b = idx[k]
        if a is not None:
            v[a:a + 6] += f[0:6]
        if b is not None:
            v[b:b + 6] += f[6:12]
        return Minv_half @ v

    for k in range(len(Js)):
        if wn[k] > tol_v:
            continue  # separating: no impulse at all
        if mu[k] == 0:
            cols.append(col(k, np.array([1.0, 0, 0, 0])))
            continue
        s = np.linalg.norm(wf[k])
        if s > 20 * tol_v:
            d = wf[k] / s
            cols.append(col(k, np.concatenate([[1.0], -mu[k] * d])))
        else:
            for d in D:
                cols.append(col(k, np.concatenate([[1.0], mu[k] * d])))
    ref = np.linalg.norm(dp_scaled)
    if ref <= impulse_floor:
        return 0.0
    if not cols:
        return 1.0
    A = np.array(cols).T
    sc = np.linalg.norm(A, axis=0)
    sc[sc == 0] = 1.0
    try:
        x, res = nnls(A / sc, dp_scaled / ref, maxiter=50 * A.shape[1])
    except RuntimeError:
        return None
    return res


class StepProblem:
    """The contact problem of one step of a rigid world, rebuilt from observable data only: the state before the step,
    the contact points the step reported, the materials, and the velocities after the step."""

    def __init__(self, rb, pre, engine, dt, new_vel, contact_list=None):
        from . import rigid as R
        self.dt = dt
        self.free = [n for n in rb if not rb[n].fixed]
        self.off = {n: 6 * j for j, n in enumerate(self.free)}
        self.rb = rb
        N = 6 * len(self.free)
        self.Mh, self.Mih, self.W = np.zeros((N, N)), np.zeros((N, N)), np.zeros((N, N))
        self.du = np.zeros(N)
        self.upre = np.zeros(N)
        for n in self.free:
            b, o = rb[n], self.off[n]
            self.Mh[o:o + 3, o:o + 3] = np.eye(3) * b.mass ** .5
            self.Mih[o:o + 3, o:o + 3] = np.eye(3) * b.mass ** -.5
            self.Mh[o + 3:o + 6, o + 3:o + 6] = b.R @ np.diag(b.inertia ** .5) @ b.R.T
            self.Mih[o + 3:o + 6, o + 3:o + 6] = b.R @ np.diag(b.inertia ** -.5) @ b.R.T
            self.upre[o:o + 6] = np.concatenate(pre[n])
            self.du[o:o + 6] = np.concatenate(new_vel[n]) - self.upre[o:o + 6]
        self.W = self.Mih @ self.Mih
        self.cps = contact_list if contact_list is not None else R.contacts(engine)
        K = len(self.cps)
        self.K = K
        self.Js, self.idx, self.mu, self.e = [], [], np.zeros(K), np.zeros(K)
        self.v_old, self.v_pre, self.v_new = np.zeros((K, 4)), np.zeros((K, 4)), np.zeros((K, 4))
        self.gap = np.zeros(K)
        mats = {tuple(sorted(k)): v for k, v in engine.surfaces_interactions.storage.items()}
        for k, (A, B, p, n, g) in enumerate(self.cps):
            J = rows(p, n, rb[A].r, rb[B].r)
            self.Js.append(J)
            self.idx.append((self.off.get(A), self.off.get(B)))
            it = mats.get(tuple(sorted((engine.bodies[A].material, engine.bodies[B].material))))
            if it is None:
                it = mats[("default", "default")]
            self.mu[k] = it.mu[0]
            self.e[k] = it.epsilon if engine.params.use_bounce else 0.0
            self.gap[k] = g
            old = np.concatenate([rb[A].v, rb[A].w, rb[B].v, rb[B].w])
            prd = np.concatenate(pre[A] + pre[B])
            new = np.concatenate(tuple(new_vel[A]) + tuple(new_vel[B]))
            self.v_old[k], self.v_pre[k], self.v_new[k] = J @ old, J @ prd, J @ new
        # the velocity scale of this step
        self.vs = max([1e-3] + [float(np.abs(np.concatenate([b.v, b.w])).max()) for b in rb.values()] +
                      [float(np.abs(np.concatenate(pre[n])).max()) for n in pre])
        self.bias = np.zeros(K)
        p = engine.params
        if p.use_pre_stabilization:
            for k in range(K):
                if self.gap[k] < -p.min_gap_value and self.v_old[k, 0] <= 0.0:
                    self.bias[k] = max(-p.max_gap_value / dt, self.gap[k] * p.gap_reduction / dt)
        self.borderline = p.use_pre_stabilization and any(
            0 < abs(self.v_old[k, 0]) < 1e-9 * self.vs or abs(self.gap[k] + p.min_gap_value) < 1e-9 for k in range(K))

    def J(self):
        N = len(self.du)
        out = np.zeros((4 * self.K, N))
        for k in range(self.K):
            a, b = self.idx[k]
            if a is not None:
                out[4 * k:4 * k + 4, a:a + 6] += self.Js[k][:, 0:6]
            if b is not None:
                out[4 * k:4 * k + 4, b:b + 6] += self.Js[k][:, 6:12]
        return out

    def small_mass(self):
        """The smallest effective mass of a free body at these contacts."""
        return min([self.rb[n].mass for n in self.free] + [float(self.rb[n].inertia.min()) for n in self.free] or [1.0])

    def wn(self):
        return self.v_new[:, 0] + self.e * self.v_old[:, 0] + self.bias

    def impulse_size(self):
        return float(np.linalg.norm(self.Mh @ self.du))

    def rounding(self):
        return 1e-13 * np.linalg.norm(self.Mh @ np.abs(self.upre))

    def admissible_residual(self, floor=None):
        """How far the velocity change is from anything non-adhesive contacts with this friction could cause."""
        return explain(self.Js, self.idx, self.Mih, self.Mh @ self.du, np.full(self.K, -1.0), np.zeros((self.K, 3)),
                       self.mu, 1.0, self.rounding() if floor is None else floor)

    def law_residual(self, tol_v, floor=None):
        cols = []
        D = directions()
        wn, wf = self.wn(), self.v_new[:, 1:]
        J = self.J()
        for k in range(self.K):
            if wn[k] > tol_v:
                continue
            Jk = J[4 * k:4 * k + 4]
            if self.mu[k] == 0:
                cols.append(np.array([1.0, 0, 0, 0]) @ Jk)
                continue
            s = np.linalg.norm(wf[k])
            for d in D:
                if s > 20 * tol_v and (d @ wf[k]) / s > 0.35:
                    continue  # friction never pushes along the sliding direction
                cols.append(np.concatenate([[1.0], self.mu[k] * d]) @ Jk)
        y = self.Mh @ self.du
        ref = np.linalg.norm(y)
        if ref <= (self.rounding() if floor is None else floor):
            return 0.0
        if not cols:
            return 1.0
        A = self.Mih @ np.array(cols).T
        sc = np.linalg.norm(A, axis=0)
        sc[sc == 0] = 1.0
        try:
            return nnls(A / sc, y / ref, maxiter=50 * A.shape[1])[1]
        except RuntimeError:
            return None

    def impulses(self):
        """The impulses themselves, when the velocity change determines them; else None."""
        J = self.J()
        A = J @ self.W @ J.T
        if A.shape[0] == 0:
            return None
        d = np.sqrt(np.maximum(np.diag(A), 1e-300))
        As = A / d[:, None] / d[None, :]
        if np.linalg.cond(As) > 1e6:
            return None
        return (np.linalg.solve(As, (J @ self.du) / d) / d).reshape(-1, 4)

    def tame(self, iters, tol):
        """Does the plain sweep (no step-size control) contract monotonically on this problem, from rest?  Returns the
        number of sweeps or None.  A property of the problem, used to tell which steps must satisfy the law exactly."""
        if self.K == 0:
            return 0
        J = self.J()
        WJT = self.W @ J.T
        b = J @ self.upre
        for k in range(self.K):
            # rows of immovable bodies are not in J; take the complete relative velocity
            b[4 * k:4 * k + 4] = self.v_pre[k]
        b[0::4] += self.e * self.v_old[:, 0] + self.bias
        A = J @ WJT
        diag = np.diag(A).copy()
        diag[diag == 0] = 1.0
        r = 1.0 / diag
        x = np.zeros(4 * self.K)
        last = np.inf
        for it in range(iters):
            old = x.copy()
            for k in range(self.K):
                s = slice(4 * k, 4 * k + 4)
                z = x[s] - r[s] * (A[s] @ x + b[s])
                xn = max(0.0, z[0])
                f = z[1:]
                rad = self.mu[k] * xn
                nf = np.linalg.norm(f)
                if xn <= 0 or rad == 0:
                    f = np.zeros(3)
                elif nf > rad:
                    f = f * (rad / nf)
                x[s] = np.concatenate([[xn], f])
            m = np.abs(x - old).max()
            if m < tol:
                self.x_ref = x
                return it
            if m > last * 0.98:
                return None
            last = m
        return None
