"""Independent geometry for the oracles: distances, winding numbers, trilinear fields, slabs."""
import numpy as np


def tri_closest(P, A, B, C):
    """Squared distances of points P (n,3) to triangles (m,3 each): array (n, m)."""
    n, m = len(P), len(A)
    out = np.full((n, m), np.inf)
    for (X, Y) in ((A, B), (B, C), (C, A)):
        d = Y - X
        L = np.maximum((d * d).sum(1), 1e-300)
        w = P[:, None, :] - X[None]
        t = np.clip((w * d[None]).sum(2) / L[None], 0, 1)
        e = w - t[:, :, None] * d[None]
        out = np.minimum(out, (e * e).sum(2))
    ab, ac = B - A, C - A
    nrm = np.cross(ab, ac)
    nn = (nrm * nrm).sum(1)
    ok = nn > 1e-300
    nn = np.where(ok, nn, 1.0)
    w = P[:, None, :] - A[None]
    g = (np.cross(ab[None], w) * nrm[None]).sum(2) / nn[None]
    b = (np.cross(w, ac[None]) * nrm[None]).sum(2) / nn[None]
    inside = (g >= 0) & (b >= 0) & (1 - g - b >= 0) & ok[None]
    h = (w * nrm[None]).sum(2)
    out = np.where(inside, np.minimum(out, h * h / nn[None]), out)
    return out


def winding(P, A, B, C):
    a, b, c = A[None] - P[:, None], B[None] - P[:, None], C[None] - P[:, None]
    la, lb, lc = (np.linalg.norm(x, axis=2) for x in (a, b, c))
    num = (a * np.cross(b, c)).sum(2)
    den = la * lb * lc + (a * b).sum(2) * lc + (b * c).sum(2) * la + (c * a).sum(2) * lb
    return 2 * np.arctan2(num, den).sum(1) / (4 * np.pi)


def signed_distance(P, V, T):
    A, B, C = V[T[:, 0]], V[T[:, 1]], V[T[:, 2]]
    d = np.sqrt(tri_closest(P, A, B, C).min(axis=1))
    return np.where(winding(P, A, B, C) > 0.5, -d, d)


class Field:
    """Trilinear interpolation of a nodal field given as nodes on a regular box (independent of the code's index order:
    the nodal values are looked up through their coordinates)."""

    def __init__(self, lo, hi, shape, values):
        self.lo, self.hi, self.n = np.asarray(lo, float), np.asarray(hi, float), np.asarray(shape, int)
        self.h = (self.hi - self.lo) / (self.n - 1)
        self.v = np.asarray(values, float).reshape(tuple(self.n[::-1])).transpose(2, 1, 0)  # x fastest in memory

    def cell(self, p):
        i = np.clip(np.floor((p - self.lo) / self.h).astype(int), 0, self.n - 2)
        return i, (p - self.lo) / self.h - i

    def value_grad(self, p):
        i, s = self.cell(np.asarray(p, float))
        d = self.v[i[0]:i[0] + 2, i[1]:i[1] + 2, i[2]:i[2] + 2]
        wx, wy, wz = (np.array([1 - x, x]) for x in s)
        dx = np.array([-1.0, 1.0])
        val = np.einsum("ijk,i,j,k", d, wx, wy, wz)
        g = np.array([np.einsum("ijk,i,j,k", d, dx, wy, wz), np.einsum("ijk,i,j,k", d, wx, dx, wz),
                      np.einsum("ijk,i,j,k", d, wx, wy, dx)]) / self.h
        return float(val), g

    def near_face(self, p, tol=1e-7):
        """Is p so close to a cell boundary that the one sided gradient is ambiguous?"""
        s = (np.asarray(p, float) - self.lo) / self.h
        return bool(np.any(np.abs(s - np.round(s)) < tol))

    def gradients(self, p, tol=1e-6):
        """Gradients of all cells that p may belong to, up to round-off."""
        out = []
        for off in np.ndindex(2, 2, 2):
            q = np.asarray(p, float) + (np.array(off) * 2 - 1) * tol * self.h
            i, _ = self.cell(q)
            s = (np.asarray(p, float) - self.lo) / self.h - i
            d = self.v[i[0]:i[0] + 2, i[1]:i[1] + 2, i[2]:i[2] + 2]
            wx, wy, wz = (np.array([1 - x, x]) for x in s)
            dx = np.array([-1.0, 1.0])
            out.append(np.array([np.einsum("ijk,i,j,k", d, dx, wy, wz), np.einsum("ijk,i,j,k", d, wx, dx, wz),
                                 np.einsum("ijk,i,j,k", d, wx, wy, dx)]) / self.h)
        return out


def injective(candidates):
    """Can every item get a candidate of its own?  Returns the index of an item that cannot, or None."""
    owner = {}

    def place(i, seen):
        for c in candidates[i]:
            if c in seen:
                continue
            seen.add(c)
            if c not in owner or place(owner[c], seen):
                owner[c] = i
                return True
        return False
    for i in range(len(candidates)):
        if not place(i, set()):
            return i
    return None
