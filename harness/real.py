"""Realises abstract (lattice) sections as library objects."""

from __future__ import annotations

import zlib
import os
import sys
from fractions import Fraction
from typing import Any

REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, REPO + "/src")

from shapely import Polygon  # noqa: E402


def signed2(ring: list[tuple[int, int]]) -> int:
    return sum(
        a[0] * b[1] - b[0] * a[1] for a, b in zip(ring, ring[1:] + ring[:1])
    )


def chain(edges: list[Any]) -> list[list[tuple[int, int]]]:
    """Directed edges (set on the left) to closed rings."""
    nxt = {tuple(a): tuple(b) for a, b in edges}
    if len(nxt) != len(edges):
        raise ValueError("pinched boundary")
    out = []
    todo = sorted(nxt)
    seen: set[tuple[int, int]] = set()
    for s in todo:
        if s in seen:
            continue
        ring = []
        p = s
        while p not in seen:
            seen.add(p)
            ring.append(p)
            p = nxt[p]
        out.append(ring)
    return out


def _corner(a, b, c) -> bool:
    return (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]) != 0


def merge_collinear(ring, keep=frozenset()):
    """Drops vertices in the middle of straight edges (except those kept)."""
    n = len(ring)
    out = []
    for i in range(n):
        a, b, c = ring[i - 1], ring[i], ring[(i + 1) % n]
        if b in keep or _corner(a, b, c):
            out.append(b)
    return out


def corners(edges_list) -> set[tuple[int, int]]:
    """Vertices at which some region's boundary turns."""
    out = set()
    for edges in edges_list:
        for ring in chain(edges):
            out |= set(merge_collinear(ring))
    return out


class Placement:
    def __init__(self, p: dict[str, int]):
        self.p = p
        d = p["d"]
        self.a, self.b = Fraction(p["a"], d), Fraction(p["b"], d)
        self.c, self.e = Fraction(p["c"], d), Fraction(p["e"], d)
        self.tx, self.ty = Fraction(p["tx"]), Fraction(p["ty"])
        self.det = self.a * self.e - self.b * self.c
        self.s2 = abs(self.det)  # area scale

    def exact(self, q):
        x, y = Fraction(q[0]), Fraction(q[1])
        return (self.a * x + self.b * y + self.tx, self.c * x + self.e * y + self.ty)

    def __call__(self, q):
        x, y = self.exact(q)
        return (float(x), float(y))

    def env(self) -> dict[str, Fraction]:
        p = self.p
        return {
            "pa": Fraction(p["a"]), "pb": Fraction(p["b"]), "pc": Fraction(p["c"]),
            "pe": Fraction(p["e"]), "pd": Fraction(p["d"]),
            "tx": self.tx, "ty": self.ty,
        }


IDENT = Placement({"a": 1, "b": 0, "c": 0, "e": 1, "d": 1, "tx": 0, "ty": 0})


def region_rings(edges, merge=True, keep=frozenset()):
    """(exterior, [holes]) in lattice coordinates for one connected region."""
    ext, holes = None, []
    for r in chain(edges):
        rr = merge_collinear(r, keep) if merge else r
        if signed2(r) > 0:
            if ext is not None:
                raise ValueError("region with two exteriors")
            ext = rr
        else:
            holes.append(rr)
    return ext, holes


def polygon(edges, pl: Placement = IDENT, merge=True, keep=frozenset()) -> Polygon:
    ext, holes = region_rings(edges, merge, keep)
    return Polygon([pl(p) for p in ext], [[pl(p) for p in h] for h in holes])


def material(rec: dict[str, Any], k: int = 1):
    """A library material; ``k`` scales the elastic modulus."""
    from sectionproperties.pre import Material

    return Material(
        name=rec["name"],
        elastic_modulus=rec["E"][0] * k / rec["E"][1],
        poissons_ratio=rec["nu"][0] / rec["nu"][1],
        yield_strength=rec["fy"][0] / rec["fy"][1],
        density=rec["rho"][0] / rec["rho"][1],
        color=color(rec),
    )


def color(rec):
    """A colour of its own for every material."""
    return f"#{zlib.crc32(repr((rec['name'], rec['E'])).encode()) & 0xFFFFFF:06x}"


def mat_for(tab, scheme, lab):
    """Material record (or None for the default material) of a label."""
    m = scheme[lab - 1] if scheme else 0
    return tab.get("default") if m == 0 else tab["materials"][m - 1]


DEFAULT_REC = {"name": "default", "E": [1, 1], "nu": [0, 1], "fy": [1, 1], "rho": [1, 1]}


def geometry(case, tab, scheme=None, pl: Placement = IDENT, merge=True, order=None,
             force_compound=False):
    """Library geometry of a lattice section; one Geometry per region."""
    from sectionproperties.pre import CompoundGeometry, Geometry

    regs = case["regs"]
    idx = list(range(len(regs))) if order is None else order
    # a vertex of one region in the middle of another's straight edge is only
    # exactly on that edge when the placed coordinates are integers; otherwise
    # the description itself would have slivers, so the vertex is kept in both
    keep = frozenset() if pl.p["d"] == 1 else corners([r["edges"] for r in regs])
    geoms = []
    for i in idx:
        m = mat_for(tab, scheme, regs[i]["lab"])
        poly = polygon(regs[i]["edges"], pl, merge, keep)
        geoms.append(Geometry(poly) if m is None else Geometry(poly, material(m)))
    if len(geoms) == 1 and not force_compound:
        return geoms[0]
    return CompoundGeometry(geoms)


def leaf_env(case, tab, scheme, pl: Placement, defs=("placed", "weighted", "centroidal", "principal")):
    """Environment of the specification's formulas for a lattice section."""
    import terms

    env: dict[str, Any] = dict(pl.env())
    regs = case["regs"]
    for k, n in enumerate(["lA", "lX", "lY", "lXX", "lYY", "lXY"]):
        env[n] = [Fraction(r["int"][k]) for r in regs]
    mats = [mat_for(tab, scheme, r["lab"]) or DEFAULT_REC for r in regs]
    for n, k in (("mE", "E"), ("mNu", "nu"), ("mRho", "rho"), ("mFy", "fy")):
        # the library is given floats; the oracle uses exactly those floats
        env[n] = [Fraction(m[k][0] / m[k][1]) for m in mats]
    vs = sorted({tuple(e[0]) for r in regs for e in r["edges"]})
    env["vx0"] = [Fraction(v[0]) for v in vs]
    env["vy0"] = [Fraction(v[1]) for v in vs]
    env["plen2"] = [Fraction(x) for x in case["ext"]]
    for d in defs:
        terms.run_defs(tab["defs"][d], env)
    return env


def mesh_size(kind: int, area: float):
    """(mesh_sizes, min_angle, coarse) for a mesh kind."""
    return [
        (0.0, 30, True),
        (0.0, 30, False),
        (area / 6, 30, False),
        (area / 15, 20, False),
        (area / 40, 30, False),
        (area / 120, 30, False),
    ][kind]


def make_mesh(geom, kind: int):
    ms, ang, coarse = mesh_size(kind, abs(geom.geom.area))
    geom.create_mesh(mesh_sizes=[ms], min_angle=ang, coarse=coarse)
    return geom
