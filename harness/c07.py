"""C07: splitting and offsetting give exactly the pieces and outlines requested."""

from __future__ import annotations

import json
import math
import os
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from pathlib import Path

import c05
import common
import core
import life
import numpy as np
import real
import tlc

SPLIT_PLACES = [((1, 0, 0, 1), 1, 0, 0), ((0, -1, 1, 0), 1, 30, -7), ((1, 0, 0, -1), 4, 0.5, 2), ((1, 0, 0, 1), 0.05, -700, 10),
                ((1, 0, 0, 1), 1, -3000, 2000), ((1, 1, -1, 1), 2, 3, 4), ((-1, 0, 0, -1), 64, 0, 0),
                ((0, 1, 1, 0), 1, 5, 5)]


def place_of(lin, d, tx, ty):
    a, b, c, e = lin
    return c05.Place((a, b, c, e, d, tx, ty))


def rat(v):
    return (Fraction(v[0], v[2]), Fraction(v[1], v[2]))


def area2(poly):
    return sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(poly, poly[1:] + poly[:1]))


# ---------------------------------------------------------------- splitting
def cell_polys(piece, place):
    from shapely import Polygon

    out = []
    for c in piece["cells"]:
        out.append(Polygon([tuple(map(float, place(rat(v)))) for v in c]))
    return out


def check_pieces(cmp, what, groups, step, case, place, k, tol):
    """groups: the returned (top, bottom); every piece is one specified piece."""
    scale = abs(place.p[0] * place.p[3] - place.p[1] * place.p[2]) / Fraction(place.p[4]) ** 2
    top = step["top"][k]
    mats = case["pool"]["mats"]
    for gname, group, side in (("first", groups[0], top), ("second", groups[1], -top)):
        want = [p for p in step["pieces"] if p["s"][-1] == side]
        cmp.eq(f"{what}: pieces in the {gname} group", len(group), len(want))
        if cmp.fails:
            return
        left = [(p, cell_polys(p, place), float(scale * sum(abs(area2([rat(v) for v in c])) for c in p["cells"]) / 2))
                for p in want]
        for g in group:
            ok = None
            for i, (p, cells, ar) in enumerate(left):
                # same set: it covers every cell, and has no further area
                if abs(g.geom.area - ar) > 1e-9 * ar + tol:
                    continue
                wide = g.geom.buffer(1e-8 * ar ** 0.5, join_style="mitre")  # (overlays may lose slight ones)
                if all(wide.covers(c) for c in cells):
                    ok = i
                    break
            cmp.true(f"{what}: piece {g.geom.wkt[:200]} of the {gname} group is not specified", ok is not None)
            if ok is None:
                return
            p, cells, ar = left.pop(ok)
            m = mats[p["lab"] - 1]
            cmp.true(f"{what}: material of a piece: got {g.material.name}", g.material == c05.mk_material(m))
            cmp.true(f"{what}: piece is valid", g.geom.is_valid and g.geom.geom_type == "Polygon")


def replay_split(case):
    from sectionproperties.pre import CompoundGeometry

    cmp = core.Cmp()
    k = case["lin"]
    lin, d, tx, ty = SPLIT_PLACES[k]
    place = place_of(lin, d, tx, ty)
    g = c05.build(case["pool"], place)
    snap = life.snapshot(g)
    first = g
    index = case["parts"].index(list(lin))
    x0, y0, x1, y1 = g.geom.bounds
    D = max(x1 - x0, y1 - y0)
    tol = 1e-11 * D * (1 + max(abs(x) for x in (x0, y0, x1, y1)))
    what = "g"
    for n, step in enumerate(case["hist"]):
        p, q = place(step["p"]), place(step["q"])
        mode = case["modes"][n]
        if mode == "points":
            if case["zero"] and tuple(p) != (0, 0):
                pass
            groups = g.split_section(tuple(p), tuple(q))
        else:
            v = (q[0] - p[0], q[1] - p[1])
            f = {"vector": 1.0, "long": 1000.0, "short": 0.001, "array": 1.0}[mode]
            v = (v[0] * f, v[1] * f)
            groups = g.split_section(point_i=tuple(p), vector=np.array(v) if mode == "array" else v)
        what += f" split at {p} {q} ({mode})"
        check_pieces(cmp, what, groups, step, case, place, index, tol * 10**n)
        if cmp.fails:
            return cmp.result()
        g = CompoundGeometry([*groups[0], *groups[1]])
    cmp.eq("the geometry is unchanged", life.diff(snap, life.snapshot(first)), [])
    return cmp.result(splits=len(case["hist"]))


# ---------------------------------------------------------------- offsetting
def seg_dist(p, segs):
    """Distances of a point to many segments (n, 4)."""
    a, b = segs[:, :2], segs[:, 2:]
    ab = b - a
    t = np.clip(((p - a) * ab).sum(1) / (ab * ab).sum(1), 0, 1)
    return np.hypot(*((a + t[:, None] * ab) - p).T)


def check_designation(cmp, what, g, new, ps, cps):
    """Each region is designated by a point inside it: the assigned one if that remains inside."""
    from shapely import Point

    cmp.true(f"{what}: each region is designated by one point inside it: {new.control_points}",
             all(len(p.control_points) == 1 and p.geom.contains(Point(p.control_points[0])) for p in ps))
    if cps and len(c05.parts(new)) == 1:
        at = Point(g.control_points[0])
        gap = new.geom.boundary.distance(at)
        if new.geom.contains(at) and gap > 1e-6 * new.geom.area**0.5:
            cmp.eq(f"{what}: the assigned point stays", tuple(map(float, new.control_points[0])),
                   tuple(map(float, g.control_points[0])))
            cmp.true(f"{what}: the point stays an assigned one", new.assigned_control_point is not None)


def replay_offset(case):
    from shapely import Point, prepare

    cmp = core.Cmp()
    lin, d, tx, ty = SPLIT_PLACES[case["lin"]]
    place = place_of(lin, d, tx, ty)
    op = case["op"]
    cps = not case["multi"] and (op["amt"] + op["res"] + case["lin"]) % 3 != 0
    g = c05.build(case["pool"], place, cps=cps)
    snap = life.snapshot(g)
    k = float(abs(place.p[0] * place.p[3] - place.p[1] * place.p[2])) ** 0.5 / float(place.p[4])
    amt = op["amt"] / 2 * k
    what = f"offset_perimeter({amt}, {op['where']!r}, {op['res']})"
    kw = {"where": op["where"]}
    if op["res"] != 12 or case["explicit"]:
        kw["resolution"] = op["res"]
    if op["where"] == "exterior" and not case["explicit"]:
        del kw["where"]
    if op["refused"]:
        try:
            g.offset_perimeter(amount=amt, **kw)
            cmp.true(f"{what} without holes is refused", False)
        except ValueError:
            cmp.true("", True)
        return cmp.result()
    rows = op["rows"]
    inside = sum(1 for r in rows for s in r if 0 < s < 9)
    if not inside:
        return cmp.result(nothing_left=1)
    new = g.offset_perimeter(amount=amt, **kw)
    cmp.eq("the geometry is unchanged", life.diff(snap, life.snapshot(g)), [])
    # (an amount of exactly half a width leaves remnants of no area)
    big = max((p.geom.area for p in c05.parts(new)), default=0)
    ps = [p for p in c05.parts(new) if p.geom.area > 1e-12 * big]
    polys = []
    for p in ps:
        cmp.true(f"{what}: regions are valid polygons", p.geom.geom_type == "Polygon" and p.geom.is_valid)
        polys.append(p.geom)
        prepare(p.geom)
    mats = case["pool"]["mats"]
    check_designation(cmp, what, g, new, ps, cps)
    # membership and material of every sample point
    ox, oy = case["origin"]
    D = max(np.ptp([c[0] for p in polys for c in p.exterior.coords]), 1e-9)
    eps = 1e-9 * D
    for j, row in enumerate(rows):
        for i, s in enumerate(row):
            if s == 9:
                continue
            P = Point(place((ox + i, oy + j)))
            hit = [n for n, q in enumerate(polys) if q.contains(P)]
            if s == 0:
                ok = not hit or all(polys[n].boundary.distance(P) <= eps for n in hit)
            else:
                ok = len(hit) == 1 or (not hit and min(q.boundary.distance(P) for q in polys) <= eps)
            cmp.true(f"{what}: point {P.wkt} is {'inside' if hit else 'outside'}, specified {'inside' if s else 'outside'}", ok)
            if s and len(hit) == 1:
                m = mats[s - 1] if case["multi"] else next(x for x in [mats[case["lab"] - 1]])
                cmp.true(f"{what}: material at {P.wkt}: got {ps[hit[0]].material.name}",
                         ps[hit[0]].material == c05.mk_material(m))
            if cmp.fails:
                return cmp.result()
    for a in range(len(polys)):
        for b in range(a):
            cmp.true(f"{what}: regions overlap", polys[a].intersection(polys[b]).area <= 1e-9 * polys[a].area)
    # every boundary point is on a kept perimeter or at the amount from a moved one
    def seg(es):
        return np.array([[*map(float, place(e[0])), *map(float, place(e[1]))] for e in es]).reshape(-1, 4)

    ext, hole = seg(case["ext"]), seg(case["hole"])
    moved, kept = {"exterior": (ext, hole), "interior": (hole, ext),
                   "all": (np.vstack([ext, hole]), np.zeros((0, 4)))}[op["where"]]
    if case["multi"]:  # the outlines of regions inside remain
        kept = np.vstack([kept, *(seg(r["edges"]) for r in case["pool"]["regs"])])
    a = abs(amt)
    low = a * math.cos(1.5 * math.pi / 4 / op["res"]) - 1e-9 * D
    R = max(abs(x) for x in polys[0].bounds)
    tol = 1e-9 * D + 1e-12 * R
    exact = verts = 0
    for q in polys:
        for ring in [q.exterior, *q.interiors]:
            c = np.array(ring.coords)
            for v, w in zip(c[:-1], c[1:]):
                if np.hypot(*(w - v)) <= 1e-6 * D:
                    continue
                for P, at in ((v, "vertex"), ((v + w) / 2, "edge")):
                    dm = seg_dist(P, moved)
                    onk = len(kept) and seg_dist(P, kept).min() <= tol
                    ok = onk or (low <= dm.min() <= a + tol) or (
                        op["where"] == "interior" and ((dm >= low) & (dm <= a + tol)).any())
                    if at == "vertex" and not onk:
                        verts += 1
                        exact += bool((abs(dm - a) <= tol).any())
                    cmp.true(f"{what}: {at} {P.tolist()} is {dm.min()} from the perimeter, specified {a}", ok)
    # (a vertex may be where two chords meet)
    cmp.true(f"{what}: {exact} of {verts} moved vertices are at the amount", 2 * exact >= verts)
    return cmp.result(points=len(rows) * len(rows[0]))


# ---------------------------------------------------------------- generation
def pool_file(k, recs):
    path = Path(os.environ.get("TMPDIR", "/tmp")) / f"c07pool_{os.getpid()}_{k}.ndjson"
    path.write_text("\n".join(json.dumps({"lab": r["lab"]}) for r in recs) + "\n")
    return path


def splits(chk, grid, recs, maxlen, maxd, sim, k):
    path = pool_file(f"s{k}", recs)
    cfg = tlc.cfg_text({"MAXLEN": maxlen, "MAXD": maxd}, {"GX": grid[0], "GY": grid[1], "FIRST": "FirstAll"},
                       ["Emit", "LawSides", "LawCover", "LawTwice"])
    r = tlc.run("Splits", cfg, simulate=sim, depth=maxlen + 2, seed=chk.seed * 10 + k,
                env={"POOLFILE": str(path)}, heap="3g")
    path.unlink()
    return chk.tlc(r, f"{maxlen} splits of {len(recs)} sections on {grid}, directions to {maxd}"
                   + (f" simulate {sim}" if sim else " exhaustive"))


def offsets(chk, grid, recs, amts, ress, k):
    path = pool_file(f"o{k}", recs)
    cfg = tlc.cfg_text({"RESS": "{" + ", ".join(map(str, ress)) + "}"},
                       {"GX": grid[0], "GY": grid[1], "FIRST": "FirstAll", "AMTS": amts},
                       ["Emit", "LawMonotone", "LawGrow", "LawInterior"])
    r = tlc.run("Offsets", cfg, env={"POOLFILE": str(path)}, heap="3g")
    path.unlink()
    return chk.tlc(r, f"offsets {amts} of {len(recs)} sections on {grid} exhaustive")


SPLITS = [
    # family, sections, words, direction bound, simulate, cases
    (dict(X="G2a", Y="G2b", codes="CodesHalf1"), 7, 1, 12, None, 700),
    (dict(X="G2c", Y="G2a", codes="CodesFine2", sim=60), 4, 1, 8, None, 300),
    (dict(X="G3b", Y="G3w", codes="CodesRing2", sim=60), 3, 1, 6, None, 350),
    (dict(X="G5a", Y="G3w", codes="CodesSieve2", sim=60), 2, 1, 3, None, 300),
    (dict(X="G3a", Y="G3b", codes="CodesHalf2", sim=60), 4, 1, 3, None, 300),
    (dict(X="G2a", Y="G2b", codes="CodesHalf2"), 10, 2, 3, 5, 400),
]
OFFS = [
    # family (one or several regions), sections, amounts, cases
    (dict(X="G2a", Y="G2b", codes="CodesHalf1", conn=True), 8, "AmtsUsual", 350),
    (dict(X="G3b", Y="G3w", codes="CodesRing1", conn=True, sim=80), 4, "AmtsUsual", 220),
    (dict(X="G3a", Y="G3w", codes="CodesRect1", conn=True, sim=80), 5, "AmtsUsual", 220),
    (dict(X="G5a", Y="G3w", codes="CodesSieve1", conn=True), 5, "AmtsUsual", 220),
    (dict(X="G2c", Y="G2a", codes="CodesFine2", conn=True, minlab=2, sim=60), 7, "AmtsErode", 200),
    (dict(X="G3b", Y="G3w", codes="CodesRing2", conn=True, minlab=2, sim=80), 5, "AmtsErode", 200),
]


def run(chk: core.Check):
    th = chk.thorough
    common.tab()
    plans = SPLITS + OFFS
    pools = c05.pools(chk, [p[0] for p in plans], [p[1] * 4 if th else p[1] for p in plans])

    def go(k):
        fam = plans[k][0]
        grid = [fam["X"], fam["Y"]]
        if k < len(SPLITS):
            _, _, ln, maxd, sim, _ = SPLITS[k]
            return splits(chk, grid, pools[k], ln, maxd, sim * 5 if sim and th else sim, k)
        _, _, amts, _ = plans[k]
        return offsets(chk, grid, pools[k], amts, [1, 2, 3, 12, 16] if th else [1, 3, 12], k)

    with ThreadPoolExecutor(6) as ex:
        groups = list(ex.map(go, range(len(plans))))
    for k, recs in enumerate(groups):
        fam = plans[k][0]
        n = plans[k][-1] * (10 if th else 1)
        cases = []
        for r in common.sample(chk, recs, n):
            case = {"pool": pools[k][r["start"] - 1], "lin": chk.rng.randrange(len(SPLIT_PLACES))}
            if k < len(SPLITS):
                case |= {"hist": r["hist"], "parts": r["parts"], "zero": False,
                         "modes": [chk.rng.choice(["points", "points", "vector", "long", "short", "array"])
                                   for _ in r["hist"]]}
            else:
                labs = {x["lab"] for x in case["pool"]["regs"]}
                case |= {"op": r["op"], "ext": r["ext"], "hole": r["hole"], "origin": r["origin"],
                         "multi": r["multi"], "explicit": chk.rng.random() < 0.5, "lab": min(labs)}
            cases.append(case)
        kind = "split" if k < len(SPLITS) else "offset"
        chk.replay(f"{kind} {fam['X']}x{fam['Y']} {fam['codes']}", f"c07:replay_{kind}", cases)
    chk.assumptions += ["lines through integer points of the lattice and around it; amounts in halves of the lattice unit"]
