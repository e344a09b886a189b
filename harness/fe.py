"""Solves the specification's weak forms (Warping.tla) on a six-node triangle mesh.

Only interpolation, quadrature and a linear solve: every load, integrand and
result comes from the specification.  Straight-sided elements; the integration
rule is exact for the degrees that occur.
"""

from __future__ import annotations

import numpy as np
import terms
from scipy.sparse import csc_matrix
from scipy.sparse.linalg import splu

# seven points, exact for polynomials of degree 5
_R = 15**0.5
_A, _B = (6 - _R) / 21, (6 + _R) / 21
RULE = ([((1 / 3, 1 / 3, 1 / 3), 0.225)]
        + [(p, (155 - _R) / 1200) for p in ((_A, _A, 1 - 2 * _A), (_A, 1 - 2 * _A, _A), (1 - 2 * _A, _A, _A))]
        + [(p, (155 + _R) / 1200) for p in ((_B, _B, 1 - 2 * _B), (_B, 1 - 2 * _B, _B), (1 - 2 * _B, _B, _B))])


def shape(L):
    """Values and d/dL of the quadratic shape functions (corners, then sides 12 23 31)."""
    a, b, c = L
    N = np.array([a * (2 * a - 1), b * (2 * b - 1), c * (2 * c - 1), 4 * a * b, 4 * b * c, 4 * c * a])
    d = np.array([[4 * a - 1, 0, 0], [0, 4 * b - 1, 0], [0, 0, 4 * c - 1],
                  [4 * b, 4 * a, 0], [0, 4 * c, 4 * b], [4 * c, 0, 4 * a]])
    return N, d


class Mesh:
    """Nodes, elements with the mid-side nodes in the order 12, 23, 31."""

    def __init__(self, nodes, tris):
        self.nodes = np.asarray(nodes, float)
        t = np.asarray(tris, int).copy()
        p = self.nodes
        c = p[t[:, :3]]
        # corners counter-clockwise
        cr = ((c[:, 1, 0] - c[:, 0, 0]) * (c[:, 2, 1] - c[:, 0, 1])
              - (c[:, 1, 1] - c[:, 0, 1]) * (c[:, 2, 0] - c[:, 0, 0]))
        neg = cr < 0
        t[neg, 1], t[neg, 2] = t[neg, 2].copy(), t[neg, 1].copy()
        c = p[t[:, :3]]
        mids = p[t[:, 3:]]
        want = 0.5 * (c[:, [0, 1, 2]] + c[:, [1, 2, 0]])
        d = np.linalg.norm(want[:, :, None, :] - mids[:, None, :, :], axis=3)
        pick = d.argmin(axis=2)
        size = np.linalg.norm(c[:, 1] - c[:, 0], axis=1)
        self.straight = bool((d.min(axis=2) <= 1e-6 * size[:, None]).all())
        self.t = np.concatenate([t[:, :3], np.take_along_axis(t[:, 3:], pick, axis=1)], axis=1)
        self.c = c
        self.area = 0.5 * np.abs(cr)
        x, y = c[:, :, 0], c[:, :, 1]
        # gradients of the barycentric coordinates
        gx = np.stack([y[:, 1] - y[:, 2], y[:, 2] - y[:, 0], y[:, 0] - y[:, 1]], 1)
        gy = np.stack([x[:, 2] - x[:, 1], x[:, 0] - x[:, 2], x[:, 1] - x[:, 0]], 1)
        self.gx = gx / (2 * self.area)[:, None]
        self.gy = gy / (2 * self.area)[:, None]
        self.N, self.px, self.py, self.Bx, self.By, self.w = [], [], [], [], [], []
        for L, w in RULE:
            N, d = shape(L)
            self.N.append(N)
            self.px.append(x @ np.array(L))
            self.py.append(y @ np.array(L))
            self.Bx.append(self.gx @ d.T)
            self.By.append(self.gy @ d.T)
            self.w.append(w * self.area)
        self.N = np.array(self.N)            # q, 6
        self.px, self.py = np.array(self.px), np.array(self.py)  # q, el
        self.Bx, self.By = np.array(self.Bx), np.array(self.By)  # q, el, 6
        self.w = np.array(self.w)            # q, el


def solve(mesh: Mesh, E, env, tab, problems=("om", "psi", "phi")):
    """env: the section's scalars (floats) in the specification's names."""
    m = mesh
    aw = m.w * E[None, :]
    env = dict(env, _float=True)
    env["ax"], env["ay"] = m.px - env["cx"], m.py - env["cy"]
    env["aw"] = aw
    terms.run_defs(tab["defs"]["loads"], env)
    n = len(m.nodes)
    k = (np.einsum("qe,qei,qej->eij", aw, m.Bx, m.Bx) + np.einsum("qe,qei,qej->eij", aw, m.By, m.By))
    rows = np.repeat(m.t, 6, axis=1).ravel()
    cols = np.tile(m.t, (1, 6)).ravel()
    K = csc_matrix((k.ravel(), (rows, cols)), shape=(n, n))
    used = np.unique(m.t)
    free = used[1:]
    lu = splu(K[free][:, free].tocsc())
    for u in problems:
        f = (np.einsum("qe,qe,qei->ei", aw, env[u + "_gx"] + 0 * aw, m.Bx)
             + np.einsum("qe,qe,qei->ei", aw, env[u + "_gy"] + 0 * aw, m.By)
             + np.einsum("qe,qe,qi->ei", aw, env[u + "_s"] + 0 * aw, m.N))
        F = np.zeros(n)
        np.add.at(F, m.t, f)
        x = np.zeros(n)
        x[free] = lu.solve(F[free])
        # one step of refinement
        r = F - K @ x
        x[free] += lu.solve(r[free])
        x[used] -= x[used].mean()
        env[u + "_nodes"] = x
        ue = x[m.t]
        env[u] = np.einsum("qi,ei->qe", m.N, ue)
        env[u + "_x"] = np.einsum("qei,ei->qe", m.Bx, ue)
        env[u + "_y"] = np.einsum("qei,ei->qe", m.By, ue)
    if len(problems) < 3:
        return env
    terms.run_defs(tab["defs"]["solved"], env)
    # how much of each field is quadratic within an element: bounds what a rule of
    # degree three leaves out of the integrals of squares
    env["slackI"] = 5 * float((E * m.area * _quad(env["om_nodes"][m.t])).sum())
    for s, (a, b), kk in (("slackX", ("sx_x", "sx_y"), "kxx"), ("slackY", ("sy_x", "sy_y"), "kyy")):
        env[s] = 5 * float((E * m.area * (_quadq(env[a]) + _quadq(env[b]))).sum()) if env["nu"] else 0.0
    return env


def shear_fields(mesh: Mesh, E, e, tab, pts, load):
    """Specified shear stresses at barycentric points of every element: arrays (point, element)."""
    env = {k: e[k] for k in ("J", "Ds", "Ixx", "Iyy", "Ixy", "nu")}
    env.update(load, _float=True)
    x, y = mesh.c[:, :, 0], mesh.c[:, :, 1]
    L = np.array(pts)
    env["ax"], env["ay"] = L @ x.T - e["cx"], L @ y.T - e["cy"]
    env["pE"] = E[None, :] + 0 * env["ax"]
    terms.run_defs(tab["defs"]["loads"], env)
    d = np.array([shape(p)[1] for p in pts])  # q, 6, 3
    Bx = np.einsum("qik,ek->qei", d, mesh.gx)
    By = np.einsum("qik,ek->qei", d, mesh.gy)
    for u in ("om", "psi", "phi"):
        ue = e[u + "_nodes"][mesh.t]
        env[u + "_x"] = np.einsum("qei,ei->qe", Bx, ue)
        env[u + "_y"] = np.einsum("qei,ei->qe", By, ue)
    for dd in tab["defs"]["solved"]:
        if dd["name"] in ("sx_x", "sx_y", "sy_x", "sy_y"):
            env[dd["name"]] = terms.ev(dd["term"], env)
    return terms.run_defs(tab["defs"]["shearstress"], env)


def _quad(ue):
    """Square of the largest deviation from linearity at the sides' middles."""
    lin = 0.5 * (ue[:, [0, 1, 2]] + ue[:, [1, 2, 0]])
    return np.abs(ue[:, 3:] - lin).max(axis=1) ** 2


def _fit():
    # quadratic part of a quadratic from its values at the seven points
    P = np.array([[1, a, b, a * a, a * b, b * b] for (a, b, c), _ in RULE])
    return np.linalg.pinv(P)


_PINV = _fit()


def _quadq(v):
    co = _PINV @ v  # 6, el
    # coefficients of aa, ab, bb: deviation from linear at the sides' middles
    dev = np.stack([co[3] - co[4] + co[5], co[5], co[3]]) / 4
    return np.abs(dev).max(axis=0) ** 2


def lattice_mesh(case, pl, refine=0):
    """The specification's own triangulation: the quarters of the solid cells."""
    tris, lab = [], []
    for n, r in enumerate(case["regs"]):
        for t in r["tris"]:
            tris.append([tuple(4 * x for x in p) for p in t])
            lab.append(n)
    sc = 4
    for _ in range(refine):
        nt, nl = [], []
        tris = [[tuple(2 * x for x in p) for p in t] for t in tris]
        sc *= 2
        for t, l in zip(tris, lab):
            m = [tuple((t[i][k] + t[(i + 1) % 3][k]) // 2 for k in (0, 1)) for i in range(3)]
            for q in ([t[0], m[0], m[2]], [m[0], t[1], m[1]], [m[2], m[1], t[2]], m):
                nt.append(q)
                nl.append(l)
        tris, lab = nt, nl
    ids: dict = {}
    el = []

    def node(p):
        return ids.setdefault(p, len(ids))

    for t in tris:
        m = [tuple((t[i][k] + t[(i + 1) % 3][k]) // 2 for k in (0, 1)) for i in range(3)]
        c = [node(p) for p in t]
        s = [node(p) for p in m]  # sides 12, 23, 31
        # library order: corners, then the nodes opposite the corners
        e = [*c, s[1], s[2], s[0]]
        if pl.det < 0:
            e = [c[0], c[2], c[1], s[1], s[0], s[2]]
        el.append(e)
    from fractions import Fraction

    nodes = np.array([pl((Fraction(p[0], sc), Fraction(p[1], sc))) for p in ids])
    return nodes, np.array(el), np.array(lab)
