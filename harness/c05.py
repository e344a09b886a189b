"""C05: set operations are exact and keep materials and descriptions."""

from __future__ import annotations

import json
import os
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import common
import core
import life
import numpy as np
import real
import tlc

MATS = {m: (f"m{m}", 10.0 * m, 0.1 * m, 3.0 * m, 1.0 * m, "red") for m in range(1, 9)}
GRIDS = {"G2a": [0, 4, 10], "G2b": [0, 6, 8], "G3a": [0, 2, 8, 12], "G3b": [-6, 0, 4, 6],
         "G3w": [0, 8, 10, 18], "G4a": [0, 2, 8, 10, 16], "G4b": [-8, -4, 0, 6, 8], "G2c": [-4, 2, 4], "G5a": [0, 2, 6, 8, 14, 16]}
SYM = {"sub": "-", "or": "|", "and": "&", "xor": "^", "add": "+"}


def mk_material(m):
    from sectionproperties.pre import Material
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    return DEFAULT_MATERIAL if m == 9 else Material(*MATS[m])


class Place:
    """Placement with exactly representable coordinates."""

    def __init__(self, p):
        self.p = p  # (a, b, c, e, denominator (power of two), tx, ty)

    def __call__(self, v):
        a, b, c, e, d, tx, ty = self.p
        return ((a * v[0] + b * v[1]) / d + tx, (c * v[0] + e * v[1]) / d + ty)

    def back(self, v):
        a, b, c, e, d, tx, ty = self.p
        x, y = (v[0] - tx) * d, (v[1] - ty) * d
        det = a * e - b * c
        return ((e * x - b * y) / det, (a * y - c * x) / det)


PLACES = [(1, 0, 0, 1, 1, 0, 0), (0, -1, 1, 0, 1, 30, -7), (1, 0, 0, -1, 4, 0.5, 2), (20, 0, 0, 20, 1, -700, 10),
          (1, 0, 0, 1, 1, -3000, 2000), (1, 1, -1, 1, 2, 3, 4), (1, 0, 0, 1, 64, 0, 0)]


class Grid:
    def __init__(self, grid):
        self.X, self.Y = (GRIDS[g] if isinstance(g, str) else g for g in grid)
        self.nx, self.ny = len(self.X) - 1, len(self.Y) - 1
        self.verts = {(x, y) for x in self.X for y in self.Y} | {
            ((self.X[i] + self.X[i + 1]) // 2, (self.Y[j] + self.Y[j + 1]) // 2)
            for i in range(self.nx) for j in range(self.ny)}

    def quarters_at(self, p, eps=1e-9):
        """Numbers of the quarters whose closure contains the point."""
        out = []
        for j in range(self.ny):
            for i in range(self.nx):
                x0, x1, y0, y1 = self.X[i], self.X[i + 1], self.Y[j], self.Y[j + 1]
                u = 2 * (p[0] - x0) / (x1 - x0) - 1
                v = 2 * (p[1] - y0) / (y1 - y0) - 1
                if max(abs(u), abs(v)) > 1 + eps:
                    continue
                base = 4 * (j * self.nx + i)
                for part, (s, t) in enumerate([(-v, u), (u, v), (v, u), (-u, v)]):
                    if s >= abs(t) - eps:
                        out.append(base + part + 1)
        return out

    def pieces(self, ring):
        """Directed lattice edges of a closed ring of lattice points."""
        out = []
        for a, b in zip(ring, ring[1:] + ring[:1]):
            dx, dy = b[0] - a[0], b[1] - a[1]
            on = []
            for v in self.verts:
                if dx * (v[1] - a[1]) == dy * (v[0] - a[0]):
                    t = (v[0] - a[0]) * dx + (v[1] - a[1]) * dy
                    if 0 <= t <= dx * dx + dy * dy:
                        on.append((t, v))
            on.sort()
            out += list(zip([v for _, v in on], [v for _, v in on][1:]))
        return out


def lattice_ring(coords, place, verts):
    out = []
    for c in list(coords)[:-1]:
        p = place.back(c)
        q = (round(p[0]), round(p[1]))
        if max(abs(p[0] - q[0]), abs(p[1] - q[1])) > 1e-7 or q not in verts:
            return None
        out.append(q)
    return out


def poly_edges(poly, place, grid):
    """Directed lattice edges of a polygon (set on the left), or None."""
    det = place.p[0] * place.p[3] - place.p[1] * place.p[2]
    out = []
    for k, lr in enumerate([poly.exterior, *poly.interiors]):
        r = lattice_ring(lr.coords, place, grid.verts)
        if r is None:
            return None
        if (real.signed2(r) > 0) != (k == 0):
            r = r[::-1]
        out += grid.pieces(r)
    return sorted(out)


def parts(g):
    return list(getattr(g, "geoms", [g]))


def build(p, place, cps=False, tol=None):
    """A pool entry as a library geometry."""
    from sectionproperties.pre import CompoundGeometry, Geometry

    geoms = []
    for r in p["regs"]:
        ext, holes = real.region_rings(r["edges"])
        poly = real.Polygon([place(v) for v in ext], [[place(v) for v in h] for h in holes])
        m = p["mats"][r["lab"] - 1]
        kw = {} if tol is None else {"tol": tol}
        if cps:
            t = r["tris"][len(r["tris"]) // 2]
            kw["control_points"] = place((sum(v[0] for v in t) / 3, sum(v[1] for v in t) / 3))
        geoms.append(Geometry(poly, **kw) if m == 9 else Geometry(poly, mk_material(m), **kw))
    return geoms[0] if len(geoms) == 1 else CompoundGeometry(geoms)


def check_result(cmp, what, g, exp, place, grid, mesh=True, apart=False):
    """The geometry is exactly the specified regions, and is meshable."""
    from shapely import Point

    ps = [p for p in parts(g) if not p.geom.is_empty]
    regs = exp["regs"]
    if not regs:
        cmp.true(f"{what}: empty result specified, got {g.geom.wkt[:100]}", g.geom.is_empty)
        return
    whole = ps
    if apart and len(ps) > len(regs):
        # operands whose extents are disjoint are collected as they are: adjacent
        # regions of one of them may stay apart
        from types import SimpleNamespace

        from shapely.ops import unary_union

        u = unary_union([p.geom for p in ps])
        cmp.true(f"{what}: regions do not overlap", abs(u.area - sum(p.geom.area for p in ps)) <= 1e-9 * u.area)
        ps = [SimpleNamespace(geom=q, material=ps[0].material) for q in getattr(u, "geoms", [u])
              if all(p.material == ps[0].material for p in ps)]
    cmp.eq(f"{what}: number of regions", len(ps), len(regs))
    if cmp.fails:
        return
    left = [(sorted(((tuple(a), tuple(b)) for a, b in r["edges"])), r) for r in regs]
    match = []
    for p in ps:
        e = poly_edges(p.geom, place, grid)
        k = next((k for k, (x, r) in enumerate(left) if x == e and (
            r["mat"] == 0 or p.material == mk_material(r["mat"]))), None)
        if k is None:
            cmp.true(f"{what}: region {p.geom.wkt[:160]} of {p.material.name} is not specified", False)
            return
        match.append(left.pop(k)[1])
        cmp.true("", True)
    scale = abs(place.p[0] * place.p[3] - place.p[1] * place.p[2]) / place.p[4] ** 2
    # description
    cps = g.control_points
    cmp.eq(f"{what}: number of control points", len(cps), len(whole))
    for p, c in zip(parts(g), cps):
        cmp.true(f"{what}: control point {c} inside its region", p.geom.contains(Point(c)))
    if exp["touching"]:
        return
    comps = [set(h) for h in exp["holes"]]
    cmp.eq(f"{what}: number of holes", len(g.holes), len(comps))
    seen = set()
    for h in g.holes:
        at = set(grid.quarters_at(place.back(h)))
        k = next((k for k, c in enumerate(comps) if at and at <= c), None)
        cmp.true(f"{what}: hole point {h} in a void of its own", k is not None and k not in seen)
        seen.add(k)
    if mesh and not cmp.fails:
        import copy

        m = copy.deepcopy(g)
        m.create_mesh([0.0], coarse=True)
        v = np.array(m.mesh["vertices"])
        t = np.array(m.mesh["triangles"])[:, :3]
        a = np.array(m.mesh["triangle_attributes"]).reshape(-1).astype(int)
        P = v[t]
        ar = 0.5 * ((P[:, 1, 0] - P[:, 0, 0]) * (P[:, 2, 1] - P[:, 0, 1])
                    - (P[:, 2, 0] - P[:, 0, 0]) * (P[:, 1, 1] - P[:, 0, 1]))
        for i, r in enumerate(match if whole is ps else []):
            e = scale * r["area2"] / 2
            cmp.near(f"{what}: meshed area of region {i}", ar[a == i].sum(), e, 1e-9 * e)
        tot = scale * sum(r["area2"] for r in match) / 2
        cmp.near(f"{what}: meshed area", ar.sum(), tot, 1e-9 * tot)


def operate(op, g, h):
    return {"sub": lambda: g - h, "or": lambda: g | h, "and": lambda: g & h,
            "xor": lambda: g ^ h, "add": lambda: g + h}[op]()


def replay(case):
    import warnings

    import shapely

    warnings.simplefilter("ignore")
    cmp = core.Cmp()
    place, grid = Place(case["place"]), Grid(case["grid"])
    objs = {}

    def obj(k):
        if k not in objs:
            o = build(case["pool"][k], place, case["cps"], tol=13 if case["cps"] else None)
            objs[k] = (o, life.snapshot(o))
        return objs[k][0]

    g = obj(str(case["start"]))
    chain = []
    what = "g"
    for s in case["hist"]:
        h = obj(str(s["k"]))
        what += f" {SYM[s['op']]} p{s['k']}"
        g2 = operate(s["op"], g, h)
        apart = s["op"] in ("or", "xor") and not g.geom.is_empty and not shapely.box(*g.geom.bounds).intersects(shapely.box(*h.geom.bounds))
        check_result(cmp, what, g2, s["res"], place, grid, apart=apart)
        if not hasattr(g, "geoms") and not hasattr(g2, "geoms") and not g2.geom.is_empty:
            cmp.eq(f"{what}: number of decimals of the coordinates", g2.tol, g.tol)
        if cmp.fails:
            return cmp.result()
        chain.append((g2, life.snapshot(g2)))
        g = g2
    for k, (o, s) in objs.items():
        cmp.eq(f"operand p{k} unchanged", life.diff(s, life.snapshot(o)), [])
    for k, (o, s) in enumerate(chain):
        cmp.eq(f"result {k} unchanged by later operations", life.diff(s, life.snapshot(o)), [])
    return cmp.result(operations=len(case["hist"]))


def words(chk, grid, recs, maxlen, first, sim=None, k=0):
    path = Path(os.environ.get("TMPDIR", "/tmp")) / f"setpool_{os.getpid()}_{k}.ndjson"
    path.write_text("\n".join(json.dumps({"lab": r["lab"], "mats": r["mats"]}) for r in recs) + "\n")
    cfg = tlc.cfg_text({"MAXLEN": maxlen}, {"GX": grid[0], "GY": grid[1], "FIRST": first},
                       ["Emit", "RegionsConnected", "RegionsDisjoint"],
                       properties=["InclusionExclusion"])
    r = tlc.run("SetOps", cfg, simulate=sim, depth=maxlen + 2, seed=chk.seed * 10 + k,
                env={"POOLFILE": str(path)}, heap="3g")
    path.unlink()
    rr = chk.tlc(r, f"expressions of {maxlen} operators over {len(recs)} sections on {grid}"
                 + (f" simulate {sim}" if sim else " exhaustive"))
    out = []
    for x in rr:
        use = {str(n): recs[n - 1] for n in {x["start"], *(s["k"] for s in x["hist"])}}
        out.append({"start": x["start"], "hist": x["hist"], "pool": use, "grid": grid,
                    "place": chk.rng.choice(PLACES), "cps": chk.rng.random() < 0.3})
    return out


def pools(chk, fams, sizes):
    cands = common.sections(chk, [dict(f) for f in fams], laws=False)
    return [pool(chk, c, n) for c, n in zip(cands, sizes)]


def pool(chk, cand, n):
    out = []
    for s in common.sample(chk, cand, n):
        mats = chk.rng.choice([[9, 9, 9], [1, 2, 3], [4, 9, 4], [5, 5, 6]])
        out.append({"lab": s["lab"], "mats": mats,
                    "regs": [{k: r[k] for k in ("lab", "edges", "tris")} for r in s["regs"]]})
    return out


PLANS = [
    # grid, codes, pool size, word length, first, simulate
    (dict(X="G2a", Y="G2b", codes="CodesHalf1"), 26, 1, "FirstAll", None),
    (dict(X="G2a", Y="G2b", codes="CodesHalf2"), 30, 1, "FirstAll", None),
    (dict(X="G3b", Y="G3w", codes="CodesRing1", sim=120), 16, 1, "FirstAll", None),
    (dict(X="G3b", Y="G3w", codes="CodesRing2", sim=120), 16, 1, "FirstAll", None),
    (dict(X="G3a", Y="G3b", codes="CodesHalf2", sim=120), 24, 3, "FirstAll", 5),
    (dict(X="G5a", Y="G3w", codes="CodesSieve2", sim=100), 12, 1, "FirstAll", None),
    (dict(X="G5a", Y="G3w", codes="CodesSieve1", sim=60), 12, 1, "FirstAll", None),
    (dict(X="G4a", Y="G4b", codes="CodesHalf2", sim=60), 16, 4, "FirstAll", 4),
    (dict(X="G2a", Y="G2b", codes="CodesFine1", sim=200), 20, 2, "FirstFew", 12),
]
# sections with two voids are cut in two by bands between the voids
BAND = dict(X="G5a", Y="G3w", codes="CodesBand")


def run(chk: core.Check):
    th = chk.thorough
    common.tab()
    recs = pools(chk, [p[0] for p in PLANS] + [BAND], [p[1] * 2 if th else p[1] for p in PLANS] + [8])
    for (fam, *_), r in zip(PLANS, recs):
        if "Sieve" in fam["codes"]:
            r += recs[-1]

    def go(k):
        fam, n, ln, first, sim = PLANS[k]
        return words(chk, [fam["X"], fam["Y"]], recs[k], ln, first,
                     sim * 10 if sim and th else sim, k)

    with ThreadPoolExecutor(6) as ex:
        groups = list(ex.map(go, range(len(PLANS))))
    for (fam, n, ln, first, sim), cases in zip(PLANS, groups):
        chk.replay(f"{ln} operator(s), {fam['X']}x{fam['Y']} {fam['codes']}", "c05:replay",
                   common.sample(chk, cases, 20000 if th else 1300))
    chk.assumptions += ["coordinates are exactly representable, so that shared edges coincide exactly"]
