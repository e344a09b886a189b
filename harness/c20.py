"""C20: plots show the geometry, mesh and values of the section they are drawn for."""

from __future__ import annotations

import math
import warnings
from collections import Counter

import numpy as np

import common
import core
import life
import tlc


# ------------------------------------------------------- reading a picture
def segments(lines):
    """All straight pieces drawn by lines, as unordered pairs of points."""
    out = Counter()
    for ln in lines:
        xy = np.ma.filled(np.ma.asarray(ln.get_xydata(), float), np.nan)
        for a, b in zip(xy[:-1], xy[1:]):
            if not (np.isnan(a).any() or np.isnan(b).any()):
                out[frozenset((tuple(a), tuple(b)))] += 1
    return out


def shown(ln):
    return ln.get_linestyle() not in ("None", "", " ") and len(ln.get_xydata()) > 1


def pieces(ax):
    """Straight pieces of a picture that are neither principal axes nor contours."""
    from matplotlib.collections import LineCollection

    out = segments([ln for ln in ax.lines if shown(ln) and not str(ln.get_label()).endswith("axis")])
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for q in c.get_segments():
                for a, b in zip(q[:-1], q[1:]):
                    out[frozenset((tuple(map(float, a)), tuple(map(float, b))))] += 1
    return out


def marked(ax):
    """(label, style, points) of everything drawn as markers."""
    from matplotlib.collections import PathCollection

    out = []
    for ln in ax.lines:
        if ln.get_marker() not in ("None", "", " ", None):
            out.append((ln.get_label(), (ln.get_marker(), str(ln.get_color())), ln.get_xydata()))
    for c in ax.collections:
        if isinstance(c, PathCollection):
            out.append((c.get_label(), (c.get_paths()[0].vertices.tobytes(), c.get_facecolor().tobytes(),
                                        c.get_edgecolor().tobytes()), c.get_offsets()))
    return out


def triangles(ax):
    """Filled triangles of a picture with their colours."""
    from matplotlib.tri import TriContourSet

    out = []
    for c in ax.collections:
        if isinstance(c, TriContourSet):
            continue
        paths = c.get_paths()
        if type(c).__name__ != "PolyCollection":
            continue
        c.update_scalarmappable()
        cols = c.get_facecolor()
        for i, p in enumerate(paths):
            out.append((frozenset(map(tuple, p.vertices[:3])), tuple(cols[i % len(cols)])))
    return out


def bands(cs):
    """(low, high, polygons) of filled contours."""
    out = []
    for lo, hi, p in zip(cs.levels[:-1], cs.levels[1:], cs.get_paths()):
        out.append((lo, hi, [q for q in p.to_polygons(closed_only=True) if len(q) > 2]))
    return out


def inside(polys, pts):
    from matplotlib.path import Path

    n = np.zeros(len(pts), int)
    for q in polys:
        n += Path(q).contains_points(pts)
    return n % 2 == 1


def contour_sets(ax, filled):
    from matplotlib.tri import TriContourSet

    return [c for c in ax.collections if isinstance(c, TriContourSet) and bool(c.filled) == filled]


# ------------------------------------------------------------ comparisons
class Pic:
    def __init__(self, cmp, s, what):
        self.cmp, self.s, self.what = cmp, s, what
        sec = s.sec
        self.xy = np.asarray(sec.mesh_nodes, float)
        self.tri = np.asarray(sec.mesh_elements)[:, :3]
        self.mid = self.xy[self.tri].mean(axis=1)
        self.mats = list(dict.fromkeys(sec.materials))
        self.elmat = [self.mats.index(e.material) for e in sec.elements]

    def outline(self, ax, keep):
        want = {frozenset((tuple(self.xy[t[i]]), tuple(self.xy[t[i - 1]])))
                for t, k in zip(self.tri, keep) if k for i in range(3)}
        got = set(pieces(ax))
        self.cmp.eq(f"{self.what}: drawn element edges (extra, missing)",
                    (len(got - want), len(want - got)), (0, 0))

    def fill(self, ax, keep):
        from matplotlib.colors import to_rgba

        got = dict(triangles(ax))
        want = {frozenset(map(tuple, self.xy[t])): to_rgba(self.mats[m].color)
                for t, m, k in zip(self.tri, self.elmat, keep) if k}
        self.cmp.eq(f"{self.what}: number of filled elements", len(triangles(ax)), len(want))
        bad = [k for k in want if k not in got or not np.allclose(got[k], want[k], atol=1e-9)]
        self.cmp.true(f"{self.what}: {len(bad)} of {len(want)} elements not in the colour of their material",
                      not bad)
        leg = ax.get_legend()
        marks = [t for t in (leg.get_texts() if leg else [])]
        names = [t.get_text() for t in marks]
        if self.what.startswith("mesh"):
            self.cmp.eq(f"{self.what}: legend", sorted(names), sorted(m.name for m in self.mats))

    def contours(self, ax, cs_list, values, own, lims, absent):
        """values: per group the nodal values; own: per group the elements it shows."""
        cmp = self.cmp
        allz = np.concatenate([v[self.tri[e]].mean(axis=1) for v, e in zip(values, own)])
        rng = float(allz.max() - allz.min()) if len(allz) else 0.0
        ends = np.concatenate([v[self.tri[e]].ravel() for v, e in zip(values, own)])
        big = float(np.abs(ends).max())
        if float(ends.max() - ends.min()) <= 1e-4 * big or big < 1e-9:
            return
        bs = [(lo, hi, polys) for cs in cs_list for lo, hi, polys in bands(cs)]
        cover = []
        for lo, hi, polys in bs:
            cover.append((lo, hi, inside(polys, self.mid)))
        for v, e in zip(values, own):
            z = v[self.tri[e]].mean(axis=1)
            bad = []
            n = 0
            for el, zi in zip(e, z):
                ins = [(lo, hi) for lo, hi, m in cover if m[el]]
                levels = {x for lo, hi, _ in cover for x in (lo, hi)}
                w = min((hi - lo for lo, hi, _ in cover), default=1.0)
                if min(abs(zi - x) for x in levels) < 0.03 * w + 1e-9 * big:
                    continue
                n += 1
                if lims and not lims[0] <= zi <= lims[1]:
                    ok = not ins
                else:
                    ok = len(ins) >= 1 and all(lo <= zi <= hi for lo, hi in ins)
                if not ok:
                    bad.append((el, float(zi), ins[:2]))
            cmp.n += n
            cmp.true(f"{self.what}: {len(bad)} of {n} elements in a band that does not hold their value, "
                     f"e.g. {bad[:1]}", not bad)
        bad = [el for el in absent if any(m[el] for _, _, m in cover)]
        cmp.true(f"{self.what}: {len(bad)} elements of materials not asked for are coloured", not bad)

    def mark(self, ax, label, pos):
        pts = [tuple(map(float, p)) for lab, _, xy in marked(ax) if lab == label for p in xy]
        if pos is None:
            self.cmp.eq(f"{self.what}: {label} is marked", pts, [])
            return
        self.cmp.eq(f"{self.what}: number of marks {label}", len(pts), 1)
        if len(pts) == 1:
            for g, w in zip(pts[0], pos):
                self.cmp.near(f"{self.what}: {label}", g, float(w), 1e-12 * (1 + abs(float(w))))


def component(name):
    return lambda d: np.asarray(d[name], float)


def draw(case, s, req, layers, cmp):
    import matplotlib.pyplot as plt

    sec = s.sec
    what = " ".join(str(v) for v in req.values())
    pic = Pic(cmp, s, what)
    ne = len(sec.elements)
    k = req["k"]
    everything = np.ones(ne, bool)
    if k in ("contour", "vector", "mohr"):
        a = case["acts"]
        load = s.act(req["load"]) if req["load"] != "All" else dict(
            n=a[0], mxx=a[1], myy=a[2], m11=a[3], m22=a[4], vx=a[5], vy=a[6], mzz=a[7])
        sp = sec.calculate_stress(**load)
        before = life.stress_arrays(sp)
    if k == "contour":
        sel = range(len(pic.mats)) if req["mats"] == "all" else [0 if req["mats"] == "first" else len(pic.mats) - 1]
        value = layers[0]["value"]
        vals = [np.asarray(before[g][value], float) for g in sel]
        own = [[e for e in range(ne) if pic.elmat[e] == g] for g in sel]
        lims = None
        if req["limits"]:
            z = np.concatenate([v[pic.tri[e]].ravel() for v, e in zip(vals, own)])
            lo, hi = float(z.min()), float(z.max())
            lims = (lo + 0.2 * (hi - lo), hi - 0.3 * (hi - lo))
            if hi - lo <= 1e-4 * max(abs(lo), abs(hi)):
                lims = None
        kw = {} if req["mats"] == "all" else {"material_list": [pic.mats[g] for g in sel]}
        ax = sp.plot_stress(stress=req["name"], stress_limits=lims, normalize=req["norm"], render=False, **kw)
        absent = [e for e in range(ne) if pic.elmat[e] not in sel]
        pic.contours(ax, contour_sets(ax, True), vals, own, lims, absent)
        pic.outline(ax, everything)
    elif k == "vector":
        ax = sp.plot_stress_vector(stress=req["name"], normalize=req["norm"], render=False)
        from matplotlib.quiver import Quiver

        qs = [c for c in ax.collections if isinstance(c, Quiver)]
        want, got = [], []
        cx, cy = layers[0]["value"], layers[0]["on"]
        for d in before:
            for i, (u, v) in enumerate(zip(d[cx], d[cy])):
                if u or v:
                    want.append((*map(float, pic.xy[i]), float(u), float(v)))
        for q in qs:
            for x, y, u, v, c in zip(q.X, q.Y, q.U, q.V, np.asarray(q.get_array())):
                if u or v:
                    got.append((float(x), float(y), float(u), float(v)))
                cmp.near(f"{what}: colour value of the arrow at {(x, y)}", float(c), math.hypot(u, v),
                         1e-12 * math.hypot(u, v))
        cmp.true(f"{what}: {len(got)} arrows differ from the {len(want)} reported", sorted(got) == sorted(want))
        cmp.eq(f"{what}: scales of the arrows", len({q.scale for q in qs}), 1)
        lim = {tuple(float(x) for x in q.get_clim()) for q in qs}
        top = max((math.hypot(g[2], g[3]) for g in want), default=0.0)
        if top:      # there are arrows
            cmp.eq(f"{what}: colour scales of the arrows", len(lim), 1)
            cmp.true(f"{what}: colour scale {max(lim)} does not reach {top}", max(lim)[1] >= top * (1 - 1e-9))
        pic.outline(ax, everything)
    elif k == "mohr":
        from matplotlib.patches import Circle

        els = [case["pick"][0] % ne, case["pick"][1] % ne]
        for el in els:
            x, y = map(float, pic.mid[el])
            d = before[pic.elmat[el]]
            zz, zx, zy = (float(np.asarray(d[c], float)[pic.tri[el]].mean()) for c in ("sig_zz", "sig_zx", "sig_zy"))
            r = math.hypot(zz / 2, math.hypot(zx, zy))
            s1, s2, s3 = sorted([0.0, zz / 2 + r, zz / 2 - r], reverse=True)
            tol = 1e-8 * max(np.abs(np.asarray(d[c], float)).max() for c in ("sig_zz", "sig_zx", "sig_zy")) + 1e-300
            pair = {"23": (s2, s3), "13": (s1, s3), "12": (s1, s2)}
            face = {"zx": (0.0, abs(zx)), "zy": (0.0, abs(zy)), "zz": (zz, math.hypot(zx, zy))}
            ax = sp.plot_mohrs_circles(x, y, render=False)
            circs = [p for p in ax.patches if isinstance(p, Circle)]
            cmp.eq(f"{what}: number of circles", len(circs), 3)
            for ly in layers:
                if ly["what"] == "circle":
                    c = [p for p in circs if str(p.get_label()).startswith(ly["value"])]
                    cmp.eq(f"{what}: circles {ly['value']}", len(c), 1)
                    a, b = pair[ly["on"]]
                    cmp.near(f"{what} {ly['value']} centre at {(x, y)}", float(c[0].center[0]), (a + b) / 2, tol)
                    cmp.near(f"{what} {ly['value']} centre", float(c[0].center[1]), 0.0, tol)
                    cmp.near(f"{what} {ly['value']} radius at {(x, y)}", float(c[0].radius), (a - b) / 2, tol)
                else:
                    p = [q.get_xydata() for q in ax.lines if q.get_label() == ly["value"]]
                    cmp.eq(f"{what}: points {ly['value']}", [len(q) for q in p], [1])
                    for g, w in zip(p[0][0], face[ly["on"]]):
                        # the shear is the root of a difference of squares
                        root = 1e-7 * (abs(zz) + abs(zx) + abs(zy))
                        if math.isnan(g) and abs(w) <= root:
                            continue
                        cmp.near(f"{what} {ly['value']} at {(x, y)}", float(g), w, tol + root)
            plt.close("all")
        far = pic.xy.max(axis=0) + 10 * (pic.xy.max(axis=0) - pic.xy.min(axis=0))
        try:
            sp.plot_mohrs_circles(*map(float, far), render=False)
            cmp.true(f"{what}: circles for a point outside the section", False)
        except ValueError:
            cmp.n += 1
    elif k == "warping":
        ax = sec.plot_warping_function(with_lines=req["lines"], render=False)
        om = np.asarray(sec.section_props.omega, float)
        pic.contours(ax, contour_sets(ax, True), [om], [list(range(ne))], None, [])
        cmp.eq(f"{what}: contour lines", bool(contour_sets(ax, False)), req["lines"])
        pic.outline(ax, everything)
    elif k == "mesh":
        mask = None
        keep = everything
        if req["mask"] == "some":
            keep = np.array([(e * 7 + case["pick"][0]) % 3 > 0 for e in range(ne)])
            if not keep.any():
                keep[0] = True
            mask = [bool(not x) for x in keep]
        ax = sec.plot_mesh(materials=req["fill"], mask=mask, render=False)
        if req["fill"]:
            pic.fill(ax, keep)
        else:
            cmp.eq(f"{what}: filled elements", len(triangles(ax)), 0)
        pic.outline(ax, keep)
    elif k == "centroids":
        ax = sec.plot_centroids(render=False)
        pic.fill(ax, everything)
        pic.outline(ax, everything)
        marks = {ly["value"]: ly["on"] for ly in layers if ly["what"] == "mark"}
        for lab in ("Elastic centroid", "Shear centre", "Global plastic centroid", "Principal plastic centroid"):
            pic.mark(ax, lab, getattr(sec, marks[lab])() if lab in marks else None)
        axes = {ly["value"]: ly["on"] for ly in layers if ly["what"] == "axis"}
        for lab in ("11-axis", "22-axis"):
            ln = [x for x in ax.lines if x.get_label() == lab]
            cmp.eq(f"{what}: lines {lab}", len(ln), int(lab in axes))
            if lab in axes and ln:
                c = np.array(sec.get_c(), float)
                phi = math.radians(float(sec.get_phi()) + (90 if axes[lab] == "phi+90" else 0))
                u = np.array([math.cos(phi), math.sin(phi)])
                p = np.asarray(ln[0].get_xydata(), float) - c
                size = float(np.ptp(pic.xy, axis=0).max())
                tol = 1e-6 * (size + np.abs(p).max())
                along = p @ u
                off = np.abs(p @ np.array([-u[1], u[0]])).max()
                cmp.near(f"{what}: distance of {lab} from the axis through the centroid", float(off), 0.0, tol)
                cmp.true(f"{what}: {lab} does not pass the centroid", along.min() < tol and along.max() > -tol
                         and np.ptp(along) > 1e-3 * size)
    else:
        g = s.geom
        labels = {"all": ("points", "facets", "holes", "control_points"), "none": ()}.get(
            req["labels"], (req["labels"],))
        ax = g.plot_geometry(labels=labels, cp=req["cp"], render=False)
        pts = [tuple(map(float, p)) for p in g.points]
        want = Counter(frozenset((pts[i], pts[j])) for i, j in g.facets)
        got = pieces(ax)
        cmp.true(f"{what}: facets drawn differ from the {len(want)} of the geometry", set(got) == set(want))
        for lab, items in (("Holes", g.holes), ("Control Points", g.control_points if req["cp"] else [])):
            drawn = marked(ax)
            style = {st for lb, st, _ in drawn if lb == lab}
            cmp.eq(f"{what}: legend entries {lab}", sum(lb == lab for lb, _, _ in drawn), int(bool(items)))
            at = [tuple(map(float, p)) for _, st, xy in drawn if st in style for p in xy]
            cmp.eq(f"{what}: {lab} drawn at", sorted(at), sorted(tuple(map(float, p)) for p in items))
        place = {"points": pts, "holes": [tuple(map(float, p)) for p in g.holes],
                 "control_points": [tuple(map(float, p)) for p in g.control_points],
                 "facets": [((pts[i][0] + pts[j][0]) / 2, (pts[i][1] + pts[j][1]) / 2) for i, j in g.facets]}
        want = Counter((str(i), tuple(round(c, 9) for c in p)) for ly in layers if ly["what"] == "number"
                       for i, p in enumerate(place[ly["value"]]))
        got = Counter((t.get_text(), tuple(round(float(c), 9) for c in t.xy)) for t in ax.texts)
        cmp.eq(f"{what}: numbers (extra, missing)",
               (sorted((got - want).elements())[:3], sorted((want - got).elements())[:3]), ([], []))
    if k in ("contour", "vector", "mohr"):
        after = life.stress_arrays(sp)
        cmp.true(f"{what}: drawing changed the stresses",
                 all((np.asarray(a[c]) == np.asarray(b[c])).all() for a, b in zip(before, after) for c in life.ARR))
    cmp.true(f"{what}: drawing changed the mesh", s.intact())


def replay(case):
    import matplotlib
    import matplotlib.pyplot as plt

    matplotlib.use("agg")
    cmp = core.Cmp()
    common.tab()
    c = case["sections"][0]
    s = life.Sess(c["sec"], life.make_geom(case, 0), c["form"] == "comp", case["acts"])
    with life.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for h in case["hist"]:
            try:
                s.do(h["op"])
            except (RuntimeError, ValueError):
                if h["ok"]:
                    raise
        geo = life.snapshot(s.geom)
        fig = case["fig"]
        try:
            if fig["ok"]:
                draw(case, s, fig["req"], fig["layers"], cmp)
            else:
                try:
                    draw(case, s, fig["req"], [{"value": "", "on": "", "what": ""}], core.Cmp())
                    cmp.true(f"{fig['req']} drawn without its analysis", False)
                except (RuntimeError, ValueError):
                    cmp.n += 1
        finally:
            plt.close("all")
        cmp.eq(f"{fig['req']}: drawing changed the geometry", life.diff(geo, life.snapshot(s.geom)), [])
    return cmp.result()


INV = ["EmitP", "InvRefused", "InvAvailable", "InvWarpNeedsGeom", "InvShape"]


def lives(chk, n, reqs):
    cfg = tlc.cfg_text({"NSEC": 1, "MAXLEN": n}, {"OPS": "OpsMut", "FORMS": "FormsBoth", "REQS": reqs},
                       INV, properties=["DrawingChangesNothing"], spec="SpecP")
    return chk.tlc(tlc.run("Plots", cfg), f"all lives of {n} analyses and a picture of {reqs}")


def run(chk: core.Check):
    from threading import Thread

    common.tab()
    w = Thread(target=common.warm, args=("stress",))
    w.start()
    q = not chk.thorough
    pool = life.section_pool(chk, 60 if q else 150)
    other = lives(chk, 3 if q else 4, "ReqOther")
    stress = lives(chk, 2 if q else 3, "ReqStress")
    w.join()

    def kind(r):
        return (r["fig"]["req"]["k"], r["fig"]["ok"])

    cases = []
    for what, recs, caps in (
        ("pictures of the section", other, {"geometry": 60, "mesh": 60, "centroids": 70, "warping": 60}),
        ("pictures of the stresses", stress, {"contour": 330, "vector": 80, "mohr": 60}),
    ):
        cases = []
        for k, cap in caps.items():
            for ok in (True, False):
                some = [r for r in recs if kind(r) == (k, ok)]
                n = (cap if ok else 12) * (1 if q else 8)
                for r in common.sample(chk, some, n):
                    c = life.build_case(chk, r, pool)
                    c["fig"] = r["fig"]
                    c["pick"] = [chk.rng.randrange(10**6), chk.rng.randrange(10**6)]
                    cases.append(c)
        chk.replay(what, "c20:replay", cases, chunk=4)
