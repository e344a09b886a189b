"""C04: transformations are exact rigid motions of the whole description."""

from __future__ import annotations

import json
import math
import os
from fractions import Fraction
from pathlib import Path

import common
import core
import life
import real
import tlc
from shapely import Point

# weight (elastic modulus) of each label
WEIGHTS = {"0": [1, 1, 1], "1": [1, 3, 2], "2": [5, 1, 2]}


def frac(r):
    return Fraction(r["n"], r["d"])


class Motion:
    """The specification's motion as a map on points."""

    def __init__(self, m):
        q = m["q"]
        self.lin = [Fraction(m[k], q) for k in ("a", "b", "c", "e")]
        self.t = (frac(m["tx"]), frac(m["ty"]))
        self.det = self.lin[0] * self.lin[3] - self.lin[1] * self.lin[2]

    def __call__(self, p):
        a, b, c, e = self.lin
        x, y = Fraction(p[0]), Fraction(p[1])
        return (float(a * x + b * y + self.t[0]), float(c * x + e * y + self.t[1]))


def cyc_match(got, exp, tol):
    """got and exp are the same closed ring (same direction)."""
    if len(got) != len(exp):
        return False
    n = len(exp)
    for s in range(n):
        if all(abs(got[(s + k) % n][0] - exp[k][0]) <= tol
               and abs(got[(s + k) % n][1] - exp[k][1]) <= tol for k in range(n)):
            return True
    return False


def ccw(r):
    a = sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(r, r[1:] + r[:1]))
    return r if a > 0 else r[::-1]


def ring_of(lr):
    return ccw([(float(x), float(y)) for x, y in list(lr.coords)[:-1]])


def same_polygon(poly, ext, holes, tol):
    """The library polygon has exactly these rings."""
    if not cyc_match(ring_of(poly.exterior), ccw(ext), tol):
        return False
    left = [ring_of(r) for r in poly.interiors]
    if len(left) != len(holes):
        return False
    for h in holes:
        k = next((k for k, r in enumerate(left) if cyc_match(r, ccw(h), tol)), None)
        if k is None:
            return False
        del left[k]
    return True


def tri_centroid(reg, k):
    t = reg["tris"][(5 * k) % len(reg["tris"])]
    return (Fraction(sum(p[0] for p in t), 3), Fraction(sum(p[1] for p in t), 3))


def build(rec, cp=0, dec=12):
    """Library geometry of a pool entry, vertices rounded to dec decimals."""
    from sectionproperties.pre import CompoundGeometry, Geometry, Material

    geoms = []
    for i, r in enumerate(rec["sec"]["regs"]):
        poly = real.polygon(r["edges"])
        kw = {}
        if rec["mat"][i]:
            kw["material"] = Material(f"m{rec['mat'][i]}", rec["w"][i], 0.25, 5.0 * rec["mat"][i], 1.5, "red")
        if cp:
            p = tri_centroid(r, cp)
            kw["control_points"] = (float(p[0]), float(p[1]))
        geoms.append(Geometry(poly, tol=dec, **kw))
    return geoms[0] if rec["single"] else CompoundGeometry(geoms)


def parts(g):
    return list(getattr(g, "geoms", [g]))


def check_state(cmp, what, g, rec, m, cp, full, dec=12, steps=0):
    sec = rec["sec"]
    ps = parts(g)
    regs = sec["regs"]
    cmp.eq(f"{what}: number of regions", len(ps), len(regs))
    if len(ps) != len(regs):
        return
    R = 1 + max(abs(c) for v in rec["verts"] for c in m(v))
    # every step rounds the vertices to the decimals of the geometry
    tol = 2e-11 * R + (4.0 * steps * 10.0**-dec if dec < 12 else 0.0)
    for p in ps:
        cmp.eq(f"{what}: decimals of the vertices", p.tol, dec)
        if dec < 12:
            xs = [c for q in p.points for c in q]
            cmp.true(f"{what}: vertices rounded to {dec} decimals", all(abs(c - round(c, dec)) < 1e-12 * R for c in xs))
    for i, (p, r) in enumerate(zip(ps, regs)):
        ext, holes = real.region_rings(r["edges"])
        cmp.true(f"{what}: outline of region {i}: got {p.geom.wkt[:200]}",
                 same_polygon(p.geom, [m(v) for v in ext], [[m(v) for v in h] for h in holes], tol))
        want = rec["mat"][i]
        cmp.true(f"{what}: material of region {i}: got {p.material.name}",
                 (p.material.name == f"m{want}" and p.material.elastic_modulus == rec["w"][i]
                  and p.material.yield_strength == 5.0 * want) if want
                 else p.material.name == "default")
        if cp:
            e = m(tri_centroid(r, cp))
            a = p.assigned_control_point
            cmp.true(f"{what}: assigned control point of region {i}: got "
                     f"{a.wkt if a is not None else None}, specified {e}",
                     a is not None and math.hypot(a.x - e[0], a.y - e[1]) <= tol)
            c = p.control_points[0]
            cmp.true(f"{what}: control point of region {i}: got {tuple(c)}, specified {e}",
                     math.hypot(c[0] - e[0], c[1] - e[1]) <= tol)
    if full:
        # one control point inside every region; one hole point inside every void
        cps = g.control_points
        cmp.eq(f"{what}: number of control points", len(cps), len(regs))
        polys = [real.polygon(r["edges"]) for r in regs]
        moved = [type(q)([m(v) for v in q.exterior.coords], [[m(v) for v in h.coords] for h in q.interiors])
                 for q in polys]
        for i, c in enumerate(cps[: len(regs)]):
            cmp.true(f"{what}: control point {i} inside its region", moved[i].contains(Point(c)))
        voids = []
        for h in sec["holes"]:
            for ring in real.chain(h["edges"]):
                if real.signed2(ring) > 0:
                    voids.append(real.Polygon([m(v) for v in ring]))
        solid = moved
        cmp.eq(f"{what}: number of holes", len(g.holes), len(voids))
        seen = set()
        for h in g.holes:
            pt = Point(h)
            k = next((k for k, v in enumerate(voids)
                      if v.contains(pt) and not any(s.intersects(pt) for s in solid)), None)
            cmp.true(f"{what}: hole point {h} in a void of its own", k is not None and k not in seen)
            seen.add(k)
        # points and facets describe the outlines
        pts = [tuple(map(float, p)) for p in g.points]
        edges = {frozenset((round(pts[a][0], 8), round(pts[a][1], 8),) for a in f) for f in g.facets}
        cmp.true(f"{what}: facets join distinct points", all(len(e) == 2 for e in edges))


def apply(g, step, others, rec):
    op, a = step["op"], step["args"]

    def pt(name):
        return {"center": "center", "origin": (0, 0), "point": (7.0, -2.5)}[name]

    tgt = (-1.5, 11.0)
    if op == "shift":
        return g.shift_section(float(frac(a[0])), float(frac(a[1])))
    if op == "rotate":
        cs, about, rad = a
        ang = math.atan2(cs[1], cs[0])
        return g.rotate_section(ang if rad else math.degrees(ang), pt(about), rad)
    if op == "mirror":
        return g.mirror_section(a[0], pt(a[1]))
    if op == "align":
        t = tgt if a[0] == "point" else others[0 if a[0] == "geom" else 1]
        return g.align_to(t, a[1], a[2])
    if op == "center":
        if a[0] == "none":
            return g.align_center()
        return g.align_center(tgt if a[0] == "point" else others[0 if a[0] == "geom" else 1])
    if op == "assign":
        raise AssertionError
    raise KeyError(op)


def replay(case):
    cmp = core.Cmp()
    rec = case["rec"]
    dec = case.get("dec", 12)
    g = build(rec, case["cp0"], dec)
    others = [build(o) for o in case["others"]]
    snaps = [(g, life.snapshot(g))] + [(o, life.snapshot(o)) for o in others]
    kind = type(g)
    check_state(cmp, "start", g, rec, Motion({"a": 1, "b": 0, "c": 0, "e": 1, "q": 1,
                                              "tx": {"n": 0, "d": 1}, "ty": {"n": 0, "d": 1}}),
                case["cp0"], False, dec)
    for k, step in enumerate(case["hist"]):
        m = Motion(step["m"])
        what = f"after step {k + 1} ({step['op']} {json.dumps(step['args'])})"
        if step["op"] == "assign":
            p = m(tri_centroid(rec["sec"]["regs"][0], step["cp"]))
            g2 = g.assign_control_point(p)
        else:
            g2 = apply(g, step, others, rec)
        cmp.true(f"{what}: a new geometry of the same kind", type(g2) is kind and g2 is not g)
        check_state(cmp, what, g2, rec, m, step["cp"], dec == 12 and k == len(case["hist"]) - 1, dec, k + 1)
        g = g2
        snaps.append((g, life.snapshot(g)))
        if cmp.fails:
            return cmp.result()
    for k, (o, s) in enumerate(snaps):
        cmp.eq(f"geometry {k} unchanged by the later calls", life.diff(s, life.snapshot(o)), [])
    return cmp.result(steps=len(case["hist"]))


FAMILIES = [
    dict(X="G2a", Y="G2b", codes="CodesHalf2"),
    dict(X="G3b", Y="G3a", codes="CodesRing2", sim=200),
    dict(X="G3a", Y="G3b", codes="CodesHalf1", sim=100),
    dict(X="G5a", Y="G5a", codes="CodesNest", sim=60),
    dict(X="G5a", Y="G3w", codes="CodesSieve2", sim=60),
]


def pool(chk, n):
    out = []
    for grp in common.sections(chk, FAMILIES, laws=False):
        cand = [s for s in grp if len(s["regs"]) <= 5]
        # a spread over single and compound sections with and without holes
        for want in ((True, False), (True, True), (False, False), (False, True)):
            sub = [s for s in cand if (len(s["regs"]) == 1, len(s["holes"]) > 0) == want]
            for s in common.sample(chk, sub, n):
                w = WEIGHTS[str(chk.rng.randrange(3))]
                mats = chk.rng.choice([[0, 0, 0], [1, 2, 3], [1, 0, 2]])
                # the default material's modulus is one
                ws = [w[r["lab"] - 1] if mats[r["lab"] - 1] else 1 for r in s["regs"]]
                out.append({
                    "sec": s, "mat": [mats[r["lab"] - 1] for r in s["regs"]], "w": ws,
                    "single": len(s["regs"]) == 1 and chk.rng.random() < 0.8,
                    "verts": sorted({tuple(e[0]) for r in s["regs"] for e in r["edges"]}),
                    "int": [r["int"] for r in s["regs"]],
                })
    chk.rng.shuffle(out)
    return out


def words(chk, recs, maxlen, poolset, ops="OpsAll", sim=None, k=0):
    path = Path(os.environ.get("TMPDIR", "/tmp")) / f"pool_{os.getpid()}_{k}.ndjson"
    path.write_text("\n".join(json.dumps({x: r[x] for x in ("verts", "int", "w", "single")})
                              for r in recs) + "\n")
    cfg = tlc.cfg_text({"MAXLEN": maxlen}, {"POOL": poolset, "OTHERS": "Others1", "OPS": ops},
                       ["Emit", "Rigid"], properties=["Orientation", "Aligned", "KeepsBox"])
    r = tlc.run("Motions", cfg, simulate=sim, depth=maxlen + 2, seed=chk.seed * 10 + k,
                env={"POOLFILE": str(path)}, heap="3g")
    path.unlink()
    rr = chk.tlc(r, f"words of {maxlen} over {poolset} of {len(recs)}"
                 + (f" simulate {sim}" if sim else " exhaustive"))
    return [{"rec": recs[x["sec"] - 1], "others": [recs[1], recs[2]], "cp0": x["cp0"],
             "hist": x["hist"], "dec": chk.rng.choice([12, 12, 12, 6, 4, 3])} for x in rr]


def run(chk: core.Check):
    common.tab()
    th = chk.thorough
    pl = pool(chk, 40 if th else 8)
    a = words(chk, pl, 1, "PoolAll", k=1)
    chk.replay("every single transformation", "c04:replay", common.sample(chk, a, 10**9 if th else 6000))
    b = words(chk, pl[:1] + pl[5:9], 2, "Pool1", k=2)
    chk.replay("every pair of transformations", "c04:replay", common.sample(chk, b, 10**9 if th else 3000))
    c = []
    for j, n in enumerate((3, 5, 8)):
        c += common.sample(chk, words(chk, pl, n, "PoolAll", sim=400 if th else 40, k=3 + j),
                           20000 if th else 1200)
    chk.replay("long sequences", "c04:replay", c)
    chk.assumptions += ["angles are those with rational sine and cosine in the specification's list"]
