"""C17: concrete sections contain exactly the reinforcement that was requested."""

from __future__ import annotations

import json
import math

import core
import real  # noqa: F401  (puts the working tree on the path)
import tlc

SCALES = [1.0, 6.5, 0.004, 25.4]


def polygon_by_area(area, n, x, y):
    from shapely import Polygon

    r = math.sqrt(2 * area / (n * math.sin(2 * math.pi / n)))
    return Polygon([(x + r * math.cos(2 * math.pi * k / n), y + r * math.sin(2 * math.pi * k / n))
                    for k in range(n)])


def arg(s, n):
    for a in s["args"]:
        if a["n"] == n:
            return a["v"]
    return None


def places(row, f, n):
    """The bars of one row."""
    out = []
    for k in range(n):
        if (row["a"] and k == 0) or (row["b"] and k == n - 1):
            continue
        t = k / (n - 1) if n > 1 else 0.0
        out.append((0.25 * f * (row["x0"] + t * (row["x1"] - row["x0"])),
                    0.25 * f * (row["y0"] + t * (row["y1"] - row["y0"]))))
    return out


def distinct(pts, near):
    """Bars at the same place are one bar."""
    out = []
    for p in pts:
        if not any(math.dist(p, q) <= near for q in out):
            out.append(p)
    return out


def counts(row, s):
    """Admissible numbers of bars in a row: as specified, or one more where
    rounding decides whether the length is a whole number of spacings."""
    ns = [row["n"], row["m"]]
    sp = arg(s, "spacing")
    length = abs(row["x1"] - row["x0"]) + abs(row["y1"] - row["y0"])
    if sp and row["n"] > 1 and length == 4 * sp * (row["n"] - 1):
        ns.append(row["n"] + 1)
    return ns


def wanted(s, f, size, present):
    """[(x, y, area)] of the bars requested; present(x, y): is there a bar?"""
    out = []
    if isinstance(s["rows"], dict):
        for nm, rows in s["rows"].items():
            pts = [p for r in rows for p in places(r, f, r["n"])]
            out += [(x, y, arg(s, "area_" + nm) * f * f) for x, y in pts]
        return out
    a = arg(s, "area_bar") * f * f
    pts = []
    for r in s["rows"]:
        alts = [places(r, f, n) for n in counts(r, s)]
        full = [q for q in alts if all(present(*p) for p in q)]
        pts += max(full, key=len) if full else alts[0]
    if s["grid"]:
        x0, y0, x1, y1, nx, ny = s["grid"]
        pts += [(0.25 * f * (x0 + (x1 - x0) * i / (nx - 1)), 0.25 * f * (y0 + (y1 - y0) * j / (ny - 1)))
                for i in range(nx) for j in range(ny)]
    if s["ring"]:
        r, n = s["ring"]
        pts += [(0.25 * f * r * math.cos(2 * math.pi * k / n), 0.25 * f * r * math.sin(2 * math.pi * k / n))
                for k in range(n)]
    return [(x, y, a) for x, y in distinct(pts, 1e-9 * size)]


def call(s, f, mats, given):
    import sectionproperties.pre.library as lib

    kw = {}
    for a in s["args"]:
        k, v = a["k"], a["v"]
        kw[a["n"]] = v * f if k == "len" else v * f * f if k == "area" else v
    if given:
        kw["conc_mat"], kw["steel_mat"] = mats
    return getattr(lib, s["fn"])(**kw)


def replay(case):
    from shapely import Polygon
    from shapely.ops import unary_union

    from sectionproperties.pre import CompoundGeometry, Material
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    cmp = core.Cmp()
    s = case["s"]
    f = case["scale"]
    tag = f"{s['fn']}({', '.join(str(a['n']) + '=' + str(a['v']) for a in s['args'])}) x {f:g}"
    mats = [Material("conc", 30e3, 0.2, 32.0, 2.4e-6, "grey"), Material("steel", 200e3, 0.3, 500.0, 7.85e-6, "red")]
    if not s["ok"]:
        try:
            call(s, 2.0 ** case["pow"], mats, case["given"])
            cmp.true(f"{tag}: inadmissible request accepted", False)
        except ValueError:
            cmp.true("refused", True)
        return cmp.result()
    try:
        g = call(s, f, mats, case["given"])
    except ValueError as e:
        cmp.true(f"{tag}: refused: {e}", False)
        return cmp.result()
    conc, steel = mats if case["given"] else (DEFAULT_MATERIAL, DEFAULT_MATERIAL)
    if s["disc"]:
        gross = polygon_by_area(s["disc"][0] * f * f, s["disc"][1], 0, 0)
    else:
        loops = [Polygon([(0.25 * f * q["x"], 0.25 * f * q["y"]) for q in lp]) for lp in s["loops"]]
        gross = unary_union(loops) if len(loops) > 1 else loops[0]
    size = max(abs(v) for v in gross.bounds)
    got = list(g.geoms) if isinstance(g, CompoundGeometry) else [g]
    nc = arg(s, "n_circle")

    def match(bars):
        """(unmatched bars, surplus small regions, regions left)."""
        left = list(got)
        miss = []
        used = []
        for x, y, a in bars:
            w = polygon_by_area(a, nc, x, y)
            hit = None
            for c in left:
                b = c.geom.bounds
                if all(abs(p - q) < 1e-7 * size for p, q in zip(b, w.bounds)):
                    if c.geom.symmetric_difference(w).area <= 1e-9 * gross.area + 1e-7 * a:
                        hit = c
                        break
            if hit is None:
                miss.append((x, y))
            else:
                left.remove(hit)
                used.append((hit, w))
        return miss, left, used

    def present(x, y):
        w = polygon_by_area(arg(s, "area_bar") * f * f, nc, x, y).bounds
        return any(all(abs(p - q) < 1e-7 * size for p, q in zip(c.geom.bounds, w)) for c in got)

    bars = wanted(s, f, size, present)
    miss, left, used = match(bars)
    for x, y in miss[:3]:
        cmp.true(f"{tag}: no bar of the requested size at ({x:.6g}, {y:.6g}) ({len(miss)} of {len(bars)} missing)", False)
    cmp.true("bars", not miss)
    for c, w in used:
        cmp.true(f"{tag}: bar material {c.material.name}", c.material == steel)
        cmp.near(f"{tag}: bar area", c.geom.area, w.area, 1e-9 * w.area + 1e-10 * gross.area)
        if not s["disc"]:
            cmp.true(f"{tag}: bar outside the section", gross.buffer(1e-9 * size).covers(c.geom))
    cmp.true(f"{tag}: more bars than requested", len(left) <= len(s["loops"]) + (2 if s["fn"] == "concrete_tee_section" else 1))
    cut = gross
    if used:
        cut = gross.difference(unary_union([w for _, w in used]))
    for c in left:
        cmp.true(f"{tag}: concrete material {c.material.name}", c.material == conc)
    if not miss:
        rest = unary_union([c.geom for c in left])
        d = rest.symmetric_difference(cut).area
        cmp.true(f"{tag}: the concrete differs over an area of {d:.6g} of {gross.area:.6g}", d <= 1e-8 * gross.area)
        tot = sum(c.geom.area for c in got)
        cmp.near(f"{tag}: concrete and steel make up the gross area", tot, gross.area, 1e-8 * gross.area)
        cmp.near(f"{tag}: concrete", sum(c.geom.area for c in left), gross.area - sum(a for *_, a in bars), 1e-8 * gross.area)
    return cmp.result(**{s["fn"]: 1, "bars": len(bars)})


def run(chk: core.Check):
    cfg = tlc.cfg_text({"Deep": "FALSE"}, {"Fams": "ConcFams"}, ["CLaw", "CEmit"], spec="CSpec")
    recs = chk.tlc(tlc.run("Concrete", cfg, workers=4, heap="6g", timeout=1200), "concrete sections")
    by = {}
    for r in recs:
        by.setdefault((r["fam"], r["s"]["ok"]), []).append(r)
    cases = []
    cap = 260 if not chk.thorough else 10**9
    for key in sorted(by):
        rs = sorted(by[key], key=lambda r: json.dumps(r["s"]["args"]))
        if len(rs) > cap:
            rs = chk.rng.sample(rs, cap)
        for r in rs:
            cases.append({"s": r["s"], "scale": chk.rng.choice(SCALES), "given": chk.rng.random() < 0.8,
                          "pow": chk.rng.randrange(-6, 11)})
    chk.replay("concrete sections against the requested reinforcement", "c17:replay", cases, chunk=16)
    chk.assumptions.append("bars with room beside each other; four scales")
