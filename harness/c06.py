"""C06: point, facet and vertex-level descriptions round-trip to the same region."""

from __future__ import annotations

import json
import os
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import c04
import c05
import common
import core
import life
import real
import tlc
from shapely import Point, Polygon

# placements along the axes, so that an x coordinate stays one
PLACES = [(1, 0, 0, 1, 1, 0, 0), (1, 0, 0, -1, 4, 0, 2), (-20, 0, 0, 20, 1, -700, 0),
          (1, 0, 0, 1, 1, -3000, 2000), (1, 0, 0, 1, 64, 0, 0), (1, 0, 0, 1, 1, 12, -9)]


def strip(ring):
    return real.merge_collinear([tuple(p) for p in ring])


def placed(rings, place):
    return [[[place(v) for v in r] for r in reg] for reg in rings]


def describe(regs, step, cps, mats):
    """(points, facets, control points, holes) of regions given as placed rings."""
    points, facets, holes = [], [], []
    order = list(range(len(regs)))
    if step["order"] == "reversed":
        order.reverse()
    index = {}
    for i in order:
        for k, ring in enumerate(regs[i]):
            s = step["start"] % len(ring)
            rr = ring[s:] + ring[:s]
            if step["rev"] == "all" or step["rev"] == ("ext" if k == 0 else "int"):
                rr = rr[::-1]
            ids = []
            for p in rr:
                if step["share"] and p in index:
                    ids.append(index[p])
                else:
                    index[p] = len(points)
                    ids.append(len(points))
                    points.append(p)
            facets += list(zip(ids, ids[1:] + ids[:1]))
            if k > 0:
                holes.append(Polygon(ring).representative_point().coords[0])
    return points, facets, [cps[i] for i in order], holes, [mats[i] for i in order], order


def check_regions(cmp, what, g, rings, mats, place):
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    ps = c05.parts(g)
    cmp.eq(f"{what}: number of regions", len(ps), len(rings))
    if cmp.fails:
        return
    regs = placed(rings, place)
    R = 1 + max(abs(c) for reg in regs for r in reg for p in r for c in p)
    for i, (p, reg) in enumerate(zip(ps, regs)):
        got = Polygon(strip(c04.ring_of(p.geom.exterior)),
                      [strip(c04.ring_of(h)) for h in p.geom.interiors])
        cmp.true(f"{what}: outline of region {i}: got {p.geom.wkt[:300]}, specified {rings[i]}",
                 c04.same_polygon(got, strip(reg[0]), [strip(h) for h in reg[1:]], 1e-11 * R))
        want = mats[i] if mats[i] is not None else DEFAULT_MATERIAL
        cmp.true(f"{what}: material of region {i}: got {p.material.name}", p.material == want)


def segs(pairs):
    return sorted(tuple(sorted(e)) for e in pairs)


def check_description(cmp, what, g, rings, place, voids, grid=None):
    """Points, facets, holes and control points of the geometry itself."""
    regs = placed(rings, place)
    polys = [Polygon(r[0], r[1:]) for r in regs]
    pts = [tuple(map(float, p)) for p in g.points]
    cmp.true(f"{what}: facets refer to points", all(0 <= i < len(pts) for f in g.facets for i in f))
    if cmp.fails:
        return
    if grid is not None:
        # facets cut into lattice pieces are exactly the boundaries' pieces
        got = set()
        for a, b in g.facets:
            r = c05.lattice_ring([pts[a], pts[b], pts[a]], place, grid.verts)
            if r is None:
                cmp.true(f"{what}: facet {pts[a]} {pts[b]} joins vertices", False)
                return
            got |= {frozenset(e) for e in grid.pieces(r)}
        exp = {frozenset(e) for reg in rings for ring in reg
               for e in grid.pieces([tuple(v) for v in ring])}
        cmp.true(f"{what}: facets are the boundaries of the regions", got == exp)
    else:
        exp = segs((r[k], r[(k + 1) % len(r)]) for reg in regs for r in reg for k in range(len(r)))
        got = segs((pts[a], pts[b]) for a, b in g.facets)
        near = len(got) == len(exp) and all(
            abs(x - y) <= 1e-11 * (1 + abs(y)) for e, f in zip(got, exp) for p, q in zip(e, f)
            for x, y in zip(p, q))
        cmp.true(f"{what}: facets {got} are the boundaries of the regions {exp}", near)
    cps = g.control_points
    cmp.eq(f"{what}: number of control points", len(cps), len(polys))
    for p, c in zip(polys, cps):
        cmp.true(f"{what}: control point {c} inside its region", p.contains(Point(c)))
    cmp.eq(f"{what}: number of holes", len(g.holes), len(voids))
    seen = set()
    for h in g.holes:
        k = next((k for k, v in enumerate(voids) if v.contains(Point(h))), None)
        cmp.true(f"{what}: hole point {h} in a void of its own", k is not None and k not in seen)
        seen.add(k)


def replay(case):
    from sectionproperties.pre import CompoundGeometry, Geometry

    cmp = core.Cmp()
    rec = case["rec"]
    place = c05.Place(case["place"])
    mats = [c05.mk_material(m) if m != 9 else None for m in rec["mats"]]
    regs = placed(rec["rings"], place)
    grid = c05.Grid(case["grid"])
    geoms = []
    for i, r in enumerate(regs):
        kw = {} if mats[i] is None else {"material": mats[i]}
        if case["cp"]:
            kw["control_points"] = place(rec["cps"][i])
        geoms.append(Geometry(Polygon(r[0], r[1:]), **kw))
    single = len(geoms) == 1
    g = geoms[0] if single else CompoundGeometry(geoms)
    cur = [list(range(len(regs)))][0]  # regions of g in the order of the record
    voids0 = [Polygon([place(v) for v in h]) for h in rec["voids"]]
    check_description(cmp, "start", g, rec["rings"], place, voids0, grid)
    snaps = [(g, life.snapshot(g))]
    assigned = case["cp"]
    for n, s in enumerate(case["hist"]):
        what = f"step {n + 1} ({s['op']})"
        if s["op"] == "describe":
            now = placed(s["rings"], place)
            cps = [Polygon(r[0], r[1:]).representative_point().coords[0] for r in now]
            pts, fac, cp, holes, ms, order = describe(now, s, cps, mats)
            what += f" start {s['start']} rev {s['rev']} share {s['share']} order {s['order']}"
            if single and not case["via_compound"]:
                kw = {} if mats[0] is None else {"material": mats[0]}
                g2 = Geometry.from_points(pts, fac, cp, holes or case["empty"], **kw)
            else:
                kw = {} if all(m is None for m in mats) else {
                    "materials": [m if m is not None else c05.mk_material(9) for m in ms]}
                g2 = CompoundGeometry.from_points(pts, fac, cp, holes or case["empty"], **kw)
            rings = [s["rings"][i] for i in order]
            cur = order
            assigned = True
        else:
            idx = []
            pts = [tuple(p) for p in g.points]
            for p in s["pts"]:
                q = place(p)
                k = [i for i, x in enumerate(pts) if max(abs(x[0] - q[0]), abs(x[1] - q[1])) < 1e-9]
                if len(k) != 1:
                    cmp.true(f"{what}: vertex {q} is listed once", False)
                    return cmp.result()
                idx.append(k[0])
            a, b, c, e, d, tx, ty = place.p
            kw = {"dx": s["args"]["dx"] * a / d, "dy": s["args"]["dy"] * e / d}
            if s["args"]["ax"]:
                kw["abs_x"] = a * s["args"]["ax"][0] / d + tx
            if s["args"]["ay"]:
                kw["abs_y"] = e * s["args"]["ay"][0] / d + ty
            what += f" {s['pts']} {s['args']}"
            src = c05.parts(g)[0]
            old_cp = src.assigned_control_point
            g2 = src.shift_points(idx[0] if len(idx) == 1 and case["int"] else idx, **kw)
            rings = s["rings"]
            if assigned and old_cp is not None and g2.geom.contains(old_cp):
                now = g2.assigned_control_point
                cmp.true(f"{what}: assigned control point {old_cp} kept",
                         now is not None and now.distance(old_cp) < 1e-9)
        ms = [mats[i] for i in cur]
        check_regions(cmp, what, g2, rings, ms, place)
        if cmp.fails:
            return cmp.result()
        if s["op"] == "describe" and len(s["rings"]) > 1:
            voids = voids0
        else:
            voids = [Polygon(h) for reg in placed(rings, place) for h in reg[1:]]
        check_description(cmp, what, g2, rings, place, voids)
        for i, (p, x) in enumerate(zip(c05.parts(g2), s["area2"] if len(rings) == 1 else
                                       [s["area2"][k] for k in cur])):
            e = x / 2 * abs(place.p[0] * place.p[3]) / place.p[4] ** 2
            cmp.near(f"{what}: area of region {i}", p.calculate_area(), e, 1e-9 * e)
        if cmp.fails:
            return cmp.result()
        g = g2
        snaps.append((g, life.snapshot(g)))
    for k, (o, s) in enumerate(snaps):
        cmp.eq(f"geometry {k} unchanged by later calls", life.diff(s, life.snapshot(o)), [])
    return cmp.result(steps=len(case["hist"]))


def pool(chk, fam, n, cand):
    out = []
    for s in common.sample(chk, [c for c in cand if len(c["regs"]) <= (9 if fam["codes"] == "CodesNest" else 4)], n):
        rings = []
        for r in s["regs"]:
            ext, holes = real.region_rings(r["edges"])
            rings.append([ext, *holes])
        voids = []
        for h in s["holes"]:
            (v,) = [r for r in real.chain(h["edges"]) if real.signed2(r) > 0]
            voids.append(v)
        hole_rings = sum(len(r) - 1 for r in rings)
        vset = {frozenset(real.merge_collinear(v)) for v in voids}
        plain = all(frozenset(h) in vset for r in rings for h in r[1:])
        mats = chk.rng.choice([[9, 9, 9], [1, 2, 3], [4, 9, 4]])
        out.append({"rings": rings, "voids": voids, "plain": plain, "nholes": hole_rings,
                    "area2": [r["int"][0] for r in s["regs"]],
                    "mats": [mats[r["lab"] - 1] for r in s["regs"]],
                    "cps": [[sum(v[k] for v in r["tris"][0]) / 3 for k in (0, 1)] for r in s["regs"]]})
    return out


PLANS = [
    (dict(X="G2a", Y="G2b", codes="CodesHalf1"), 20, 1, "OpsAll", None),
    (dict(X="G2a", Y="G2b", codes="CodesHalf2"), 40, 1, "OpsDescribe", None),
    (dict(X="G3b", Y="G3w", codes="CodesRing1", sim=200), 14, 1, "OpsAll", None),
    (dict(X="G3b", Y="G3w", codes="CodesRing2", sim=200), 30, 1, "OpsDescribe", None),
    (dict(X="G5a", Y="G5a", codes="CodesNest", sim=150), 25, 1, "OpsDescribe", None),
    (dict(X="G3b", Y="G3w", codes="CodesRing1", sim=200), 40, 4, "OpsAll", 5),
    (dict(X="G3a", Y="G3b", codes="CodesHalf1", sim=200), 40, 5, "OpsAll", 8),
    (dict(X="G5a", Y="G3w", codes="CodesSieve2", sim=60), 25, 1, "OpsDescribe", None),
    (dict(X="G5a", Y="G3w", codes="CodesSieve1"), 12, 2, "OpsAll", 4),
    (dict(X="G4a", Y="G4b", codes="CodesRing1", sim=80), 20, 3, "OpsAll", 4),
]


def words(chk, grid, recs, maxlen, ops, sim, k):
    path = Path(os.environ.get("TMPDIR", "/tmp")) / f"ringpool_{os.getpid()}_{k}.ndjson"
    path.write_text("\n".join(json.dumps({x: r[x] for x in ("rings", "area2", "plain")})
                              for r in recs) + "\n")
    cfg = tlc.cfg_text({"MAXLEN": maxlen}, {"OPS": ops}, ["Emit", "AllValid", "PoolArea"],
                       properties=["OthersStay"])
    r = tlc.run("Vertices", cfg, simulate=sim, depth=maxlen + 2, seed=chk.seed * 10 + k,
                env={"POOLFILE": str(path)}, heap="3g")
    path.unlink()
    rr = chk.tlc(r, f"{maxlen} step(s) of {ops} over {len(recs)} sections on {grid}"
                 + (f" simulate {sim}" if sim else " exhaustive"))
    return [{"rec": recs[x["sec"] - 1], "hist": x["hist"], "grid": grid,
             "place": chk.rng.choice(PLACES), "cp": chk.rng.random() < 0.4,
             "int": chk.rng.random() < 0.5, "via_compound": chk.rng.random() < 0.25,
             "empty": chk.rng.choice([None, []])} for x in rr]


def run(chk: core.Check):
    th = chk.thorough
    common.tab()
    cands = common.sections(chk, [dict(p[0]) for p in PLANS], laws=False)
    pools = [pool(chk, f, n * 3 if th else n, c) for (f, n, *_), c in zip(PLANS, cands)]

    def go(k):
        fam, _, ln, ops, sim = PLANS[k]
        return words(chk, [fam["X"], fam["Y"]], pools[k], ln, ops, sim * 8 if sim and th else sim, k)

    with ThreadPoolExecutor(6) as ex:
        groups = list(ex.map(go, range(len(PLANS))))
    for (fam, n, ln, ops, sim), cases in zip(PLANS, groups):
        chk.replay(f"{ln} step(s) of {ops}, {fam['X']}x{fam['Y']} {fam['codes']}", "c06:replay",
                   common.sample(chk, cases, 30000 if th else 1300))
