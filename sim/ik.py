"""Inverse kinematics for the simulator: random histories over the public API and an independent model of skeletons."""
import numpy as np

from . import rigid as R

CODES = ["XZX", "XYX", "YXY", "YZY", "ZYZ", "ZXZ", "XZY", "XYZ", "YXZ", "YZX", "ZYX", "ZXY"]
BAD_CODES = ["XXY", "ZZZ", "xyz", "XY", "", "XYZX", "ABC"]


def mods():
    import rainbow.simulators.inverse_kinematics.api as IK
    return IK


def rot(axis, a):
    """Rotation matrix about a coordinate axis; complex angles are allowed."""
    c, s = np.cos(a), np.sin(a)
    i = "XYZ".index(axis)
    j, k = (i + 1) % 3, (i + 2) % 3
    M = np.zeros((3, 3), dtype=type(c) if isinstance(c, complex) else np.result_type(c))
    M[i, i] = 1
    M[j, j], M[j, k], M[k, j], M[k, k] = c, -s, s, c
    return M


class Skel:
    """Model: what was declared, and the poses of the last update."""

    def __init__(self):
        self.parent, self.code, self.ang, self.t = [], [], [], []
        self.pose = []  # (rotation matrix, position) of the last update

    def add(self, parent, ang, t, code):
        self.parent.append(parent)
        self.ang.append(np.array(ang, float))
        self.t.append(np.array(t, float))
        self.code.append(code)
        self.pose.append((np.eye(3), np.zeros(3)))

    def __len__(self):
        return len(self.parent)

    def forward(self, angles=None):
        a = np.concatenate(self.ang) if angles is None else angles
        out = []
        for i in range(len(self)):
            Rp, tp = (np.eye(3), np.zeros(3)) if self.parent[i] < 0 else out[self.parent[i]]
            c = self.code[i]
            out.append((Rp @ rot(c[0], a[3 * i]) @ rot(c[1], a[3 * i + 1]) @ rot(c[2], a[3 * i + 2]), tp + Rp @ self.t[i]))
        return out

    def update(self):
        self.pose = self.forward()

    def path(self, i):
        p = []
        while i >= 0:
            p.append(i)
            i = self.parent[i]
        return p[::-1]

    def leaves(self):
        return [i for i in range(len(self)) if i not in self.parent]

    def children(self, i):
        return [k for k in range(len(self)) if self.parent[k] == i]


def effectors(m, chains, pose):
    """chains: (path, goal, tool)"""
    return np.array([pose[p[-1]][1] + pose[p[-1]][0] @ tool for p, goal, tool in chains])


def objective(m, chains, angles):
    e = effectors(m, chains, m.forward(angles))
    return sum(0.5 * ((g - x) @ (g - x)) for x, (_, g, _) in zip(e, chains))


def jacobian(m, chains, angles):
    """Complex-step derivative of the end effectors."""
    J = np.zeros((3 * len(chains), len(angles)))
    for i in range(len(angles)):
        a = angles.astype(complex)
        a[i] += 1e-30j
        J[:, i] = effectors(m, chains, m.forward(a)).imag.ravel() / 1e-30
    return J


def gradient(m, chains, angles):
    e = effectors(m, chains, m.forward(angles))
    r = np.concatenate([g - x for x, (_, g, _) in zip(e, chains)])
    return -jacobian(m, chains, angles).T @ r


def hessian(m, chains, angles, h=1e-4):
    n = len(angles)
    H = np.zeros((n, n))
    for i in range(n):
        d = np.zeros(n)
        d[i] = h
        # fourth order central difference of exact gradients
        H[:, i] = (8 * (gradient(m, chains, angles + d) - gradient(m, chains, angles - d)) -
                   (gradient(m, chains, angles + 2 * d) - gradient(m, chains, angles - 2 * d))) / (12 * h)
    return H


def snap(s):
    return [(b.idx, b.parent, list(b.children), b.euler_code, float(b.alpha), float(b.beta), float(b.gamma), np.array(b.t, float), np.array(b.t_wcs, float),
             np.array(b.q_wcs, float)) for b in s.bones]


def gen_angle(rng):
    u = rng.random()
    if u < 0.15:
        return 0.0
    if u < 0.3:
        return rng.choice([np.pi / 2, np.pi, -np.pi / 2, -np.pi])
    if u < 0.4:
        return round(rng.uniform(-40, 40), 6)
    return round(rng.uniform(-3.2, 3.2), 6)


q_mat = R.q_mat
