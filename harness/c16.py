"""C16: library sections have exactly the shape their dimensions describe."""

from __future__ import annotations

import json
import math
from fractions import Fraction

import core
import real
import terms
import tlc

LIB = ["primitive_sections", "steel_sections", "nastran_sections", "bridge_sections", "timber_sections"]
SCALES = [1.0, 0.1, 25.4, 1000.0, 0.003]


def find(fn):
    import importlib

    for m in LIB:
        mod = importlib.import_module(f"sectionproperties.pre.library.{m}")
        if hasattr(mod, fn):
            return getattr(mod, fn)
    raise AttributeError(fn)


def val(t) -> float:
    """A coordinate: whole half units, or a term in half units."""
    return 0.5 * float(t if isinstance(t, (int, float)) else terms.ev(t, {"_float": True}))


def fillet(p0, p, p1, r, n):
    """Points of the arc of radius r tangent to p0-p and p-p1."""
    u = (p0[0] - p[0], p0[1] - p[1])
    v = (p1[0] - p[0], p1[1] - p[1])
    lu, lv = math.hypot(*u), math.hypot(*v)
    u, v = (u[0] / lu, u[1] / lu), (v[0] / lv, v[1] / lv)
    half = 0.5 * math.atan2(abs(u[0] * v[1] - u[1] * v[0]), u[0] * v[0] + u[1] * v[1])
    b = (u[0] + v[0], u[1] + v[1])
    lb = math.hypot(*b)
    c = (p[0] + b[0] / lb * r / math.sin(half), p[1] + b[1] / lb * r / math.sin(half))
    tl = r / math.tan(half)
    a0 = math.atan2(p[1] + u[1] * tl - c[1], p[0] + u[0] * tl - c[0])
    a1 = math.atan2(p[1] + v[1] * tl - c[1], p[0] + v[0] * tl - c[0])
    da = (a1 - a0 + math.pi) % (2 * math.pi) - math.pi
    return [(c[0] + r * math.cos(a0 + da * i / (n - 1)), c[1] + r * math.sin(a0 + da * i / (n - 1)))
            for i in range(n)]


def loop(items, nr, f):
    """The points of one loop of the specified outline, scaled by f."""
    out = []
    m = len(items)
    xy = [(val(i["x"]), val(i["y"])) for i in items]
    for k, i in enumerate(items):
        if i["c"] == "e":
            a, b = xy[k]
            n = i["r"]
            out += [(a * math.cos(2 * math.pi * q / n), b * math.sin(2 * math.pi * q / n)) for q in range(n)]
            continue
        r = val(i["r"])
        if i["c"] == "a":
            a, s = 2 * val(i["a"]), 2 * val(i["s"])
            for q in range(nr if r else 1):
                th = math.radians(a + s * q / max(nr - 1, 1))
                out.append((xy[k][0] + r * math.cos(th), xy[k][1] + r * math.sin(th)))
        elif r:
            out += fillet(xy[k - 1], xy[k], xy[(k + 1) % m], r, nr)
        else:
            out.append(xy[k])
    # touching arcs: coincident points are one point
    near = 1e-9 * max(max(abs(x), abs(y)) for x, y in out)
    one = [q for k, q in enumerate(out) if math.dist(q, out[k - 1]) > near]
    return [(x * f, y * f) for x, y in one]


def poly(region, nr, f):
    from shapely import Polygon

    rings = [loop(g, nr, f) for g in region["rings"]]
    p = Polygon(rings[0])
    for h in rings[1:]:
        p = p - Polygon(h)
    return p


def call(fn, args, f, mats, given, positional):
    kw = {}
    for a in args:
        k, n, v = a["k"], a["n"], a["v"]
        kw[n] = {"len": lambda: v * f, "area": lambda: v * f * f, "deg": lambda: float(v), "cnt": lambda: v,
                 "none": lambda: None, "lens": lambda: [x * f for x in v],
                 "mats": lambda: [mats[x] for x in v]}[k]()
    if given and not any(a["k"] == "mats" for a in args):
        kw["material"] = mats[0]
    func = find(fn)
    if positional and not any(a["k"] == "none" for a in args) and not any(a["n"] == "t_w" and len(args) == 7 for a in args):
        mat = kw.pop("material", None)
        return func(*kw.values()) if mat is None else func(*kw.values(), material=mat)
    return func(**kw)


def same_material(a, b):
    return a == b


def replay(case):
    from shapely import affinity

    from sectionproperties.pre import CompoundGeometry, Geometry
    from sectionproperties.pre.pre import DEFAULT_MATERIAL

    cmp = core.Cmp()
    s = case["s"]
    f = case["scale"] if s["scaled"] else 1.0
    fn = s["fn"]
    tag = f"{fn}({', '.join(str(a['n']) + '=' + str(a['v']) for a in s['args'])}) x {f:g}"
    mats = real_mats()
    if not s["ok"]:
        f = 2.0 ** case["pow"] if s["scaled"] else 1.0    # equal dimensions stay equal
        try:
            call(fn, s["args"], f, mats, case["given"], False)
            cmp.true(f"{tag}: inadmissible dimensions accepted", False)
        except ValueError:
            cmp.true("refused", True)
        except RuntimeError as e:
            cmp.true(f"{tag}: {e!r} instead of the documented refusal", False)
        return cmp.result()
    g = call(fn, s["args"], f, mats, case["given"], case["pos"])
    want = [(poly(r, s["nr"], f), r["mat"]) for r in s["regions"]]
    for w, _ in want:
        if not w.is_valid or w.geom_type != "Polygon":
            raise AssertionError(f"{tag}: the specified outline is not a polygon")
    got = list(g.geoms) if isinstance(g, CompoundGeometry) else [g]
    cmp.true(f"{tag}: a {type(g).__name__}", isinstance(g, Geometry) or len(want) > 1)
    cmp.eq(f"{tag}: regions", len(got), len(want))
    if len(got) != len(want):
        return cmp.result()
    total = sum(w.area for w, _ in want)
    tol = 1e-9 * total
    size = max(max(abs(v) for v in w.bounds) for w, _ in want)

    def apart(dx, dy):
        """Unmatched area when the specified regions are moved by (dx, dy)."""
        left = list(got)
        d = 0.0
        for w, _ in want:
            w = affinity.translate(w, dx, dy)
            c = min(left, key=lambda q: q.geom.symmetric_difference(w).area)
            left.remove(c)
            d += c.geom.symmetric_difference(w).area
        return d

    dx = dy = 0.0
    d = apart(0, 0)
    # the recorded placement: the lower left corner (of the bottom flange, of
    # the flange without the web) at the origin
    if d > tol and fn.startswith("nastran_"):
        dx = -min(w.bounds[0] for w, _ in want)
        dy = -min(w.bounds[1] for w, _ in want)
        if fn == "nastran_tee1":
            dx -= s["args"][1]["v"] * f
        if fn == "nastran_i":
            dx -= 0.5 * max(s["args"][2]["v"] - s["args"][1]["v"], 0) * f
        if apart(dx, dy) <= tol:
            cmp.true(f"{fn}: the section is drawn with its lower left corner at the origin", False)
        else:
            dx = dy = 0.0
            cmp.true(f"{tag}: outline differs over an area of {d:.6g} of {total:.6g}", False)
    else:
        cmp.true(f"{tag}: outline differs over an area of {d:.6g} of {total:.6g}", d <= tol)
    # region by region: bounds, holes, material
    left = list(got)
    for w, m in want:
        w = affinity.translate(w, dx, dy)
        c = min(left, key=lambda q: q.geom.symmetric_difference(w).area)
        left.remove(c)
        cmp.near(f"{tag}: area", c.geom.area, w.area, tol)
        cmp.eq(f"{tag}: holes", len(c.geom.interiors), len(w.interiors))
        for x, y, nm in zip(c.geom.bounds, w.bounds, ("x_min", "y_min", "x_max", "y_max")):
            cmp.near(f"{tag}: {nm}", x, y, 1e-9 * size)
        if any(a["k"] == "mats" for a in s["args"]):
            mat = mats[m]
        else:
            mat = mats[0] if case["given"] else DEFAULT_MATERIAL
        cmp.true(f"{tag}: material {c.material.name}", c.material == mat)
    rp = list(g.recovery_points)
    cmp.eq(f"{tag}: number of recovery points", len(rp), len(s["rec"]))
    for k, (a, b) in enumerate(zip(rp, s["rec"])):
        x, y = (a.x, a.y) if hasattr(a, "x") else a
        cmp.near(f"{tag}: recovery point {'CDEF'[k]} x", x, val(b[0]) * f, 1e-9 * size)
        cmp.near(f"{tag}: recovery point {'CDEF'[k]} y", y, val(b[1]) * f, 1e-9 * size)
    return cmp.result(**{fn: 1})


def real_mats():
    from sectionproperties.pre import Material

    return [Material("m%d" % k, 200e3 / (k + 1), 0.3 - 0.1 * k, 250.0 + k, 7.85e-6 * (k + 1), c)
            for k, c in enumerate(["grey", "tan", "brown"])]


def run(chk: core.Check):
    cfg = tlc.cfg_text({"Deep": "TRUE" if chk.thorough else "FALSE"}, {"Fams": "AllFams"}, ["Law", "Emit"])
    recs = chk.tlc(tlc.run("Shapes", cfg, workers=4, heap="6g", timeout=1200), "library sections")
    by = {}
    for r in recs:
        by.setdefault((r["fam"], r["s"]["ok"]), []).append(r)
    cases = []
    cap = 400 if not chk.thorough else 10**9
    for key in sorted(by):
        rs = sorted(by[key], key=lambda r: json.dumps(r["s"]["args"]))
        if len(rs) > cap:
            rs = chk.rng.sample(rs, cap)
        for r in rs:
            cases.append({"s": r["s"], "scale": chk.rng.choice(SCALES), "given": chk.rng.random() < 0.7, "pow": chk.rng.randrange(-6, 11),
                          "pos": chk.rng.random() < 0.3})
    chk.replay("library sections against their specified shape", "c16:replay", cases, chunk=32)
    chk.assumptions.append("dimensions up to 30 units, at five scales; the I girders and super-T girders at their own size")
