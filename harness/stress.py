"""Shared by C13 and C14: loads, nodes and regions of a lattice section."""

from __future__ import annotations

import itertools
import math
from fractions import Fraction

import c05
import common
import numpy as np
import real
import terms
import tlc

COMPONENTS = ["sig_zz_n", "sig_zz_mxx", "sig_zz_myy", "sig_zz_m11", "sig_zz_m22", "sig_zx_mzz",
              "sig_zy_mzz", "sig_zx_vx", "sig_zy_vx", "sig_zx_vy", "sig_zy_vy"]


def load_words(chk, acts, maxlen, sim, tag=0):
    cfg = tlc.cfg_text({"MAXLEN": maxlen},
                       {"ACTS": acts, "SIZES": "Sizes", "FACTORS": "Factors"}, ["Emit", "Combination"])
    r = tlc.run("Actions", cfg, simulate=sim, depth=maxlen + 2, seed=chk.seed * 7 + tag, heap="2g")
    return chk.tlc(r, f"{maxlen} loads over {acts}" + (f" simulate {sim}" if sim else " exhaustive"))


class Where:
    """Which materials' regions contain a point, from the lattice."""

    def __init__(self, case, t, scheme, pl):
        self.grid = c05.Grid(case["grid"])
        self.lab = case["lab"]
        self.t, self.scheme = t, scheme
        p = pl
        d = float(p.det)
        self.inv = (float(p.e) / d, -float(p.b) / d, -float(p.c) / d, float(p.a) / d,
                    float(p.tx), float(p.ty))

    def lattice(self, q):
        a, b, c, d, tx, ty = self.inv
        x, y = q[0] - tx, q[1] - ty
        return (a * x + b * y, c * x + d * y)

    def labels(self, q, eps=1e-7):
        return {self.lab[k - 1] for k in self.grid.quarters_at(self.lattice(q), eps)} - {0}

    def mats(self, q, eps=1e-7):
        """Materials (name and modulus) at a point, with their moduli."""
        out = {}
        for l in self.labels(q, eps):
            m = real.mat_for(self.t, self.scheme, l) or real.DEFAULT_REC
            E = m["E"][0] / m["E"][1]
            out[(m["name"], E)] = E
        return out

    def void_points(self, pl):
        """Points strictly inside void quarters and outside the lattice."""
        g = self.grid
        out = []
        for j in range(g.ny):
            for i in range(g.nx):
                x0, x1, y0, y1 = g.X[i], g.X[i + 1], g.Y[j], g.Y[j + 1]
                c = ((x0 + x1) / 2, (y0 + y1) / 2)
                w = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
                for part in range(4):
                    if self.lab[4 * (j * g.nx + i) + part] == 0:
                        a, b = w[part], w[(part + 1) % 4]
                        q = tuple((a[k] + b[k] + 2 * c[k]) / 4 for k in (0, 1))
                        out.append(pl(q_frac(q)))
        m = (g.X[-1] - g.X[0]) + (g.Y[-1] - g.Y[0])
        out += [pl((g.X[0] - m, g.Y[0])), pl((g.X[-1] + 1, g.Y[-1] + 1)), pl((g.X[0], g.Y[-1] + m))]
        return out


def tie(res, members):
    """Which material each result belongs to; ``members``: its nodes per (name, modulus).

    Results name their material; materials of one name are told apart by where they have stress.
    """
    out = [None] * len(res)
    for name in {r["material"] for r in res}:
        rs = [k for k, r in enumerate(res) if r["material"] == name]
        ms = sorted(m for m in members if m[0] == name)
        if len(rs) != len(ms):
            return None
        on = []
        for k in rs:
            z = sum(np.abs(np.asarray(v, float)) for c, v in res[k].items() if c in COMPONENTS)
            on.append(set(np.flatnonzero(z)))
        best = min(itertools.permutations(range(len(ms))),
                   key=lambda p: sum(len(o ^ members[ms[i]]) for o, i in zip(on, p)))
        for k, i in zip(rs, best):
            out[k] = ms[i]
    return out if sorted(x for x in out) == sorted(members) else None


def q_frac(q):
    return (Fraction(q[0]), Fraction(q[1]))


BARY = [(0.6, 0.3, 0.1), (0.2, 0.35, 0.45), (1 / 3, 1 / 3, 1 / 3)]


def inner_points(case, pl, rng):
    """[(point, lattice triangle's label)] strictly inside lattice triangles."""
    out = []
    for r in case["regs"]:
        for tr in r["tris"]:
            w = rng.choice(BARY)
            q = tuple(sum(w[n] * tr[n][k] for n in range(3)) for k in (0, 1))
            out.append((pl(q_frac(q)), r["lab"]))
    return out


def kwargs(load, scale):
    return {a: float(v) * scale for a, v in load.items() if v}


def stress_env(t, env, load, scale, pts, mods):
    e = dict(env)
    for a, n in (("n", "N"), ("mxx", "Mxx"), ("myy", "Myy"), ("m11", "M11"), ("m22", "M22"),
                 ("vx", "Vx"), ("vy", "Vy"), ("mzz", "Mzz")):
        e[n] = Fraction(load[a]) * Fraction(scale)
    e["px"] = [p[0] for p in pts]
    e["py"] = [p[1] for p in pts]
    e["pE"] = list(mods)
    return terms.run_defs(t["defs"]["stress"], e)


def floatenv(env):
    """The exact environment with the quantities of the stress terms in floating point."""
    e = dict(env)
    for k in ("cx", "cy", "EA", "Ixx", "Iyy", "Ixy", "I11", "I22", "phi"):
        e[k] = float(env[k])
    return e
