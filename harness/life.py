"""Realises behaviours of Lifecycle.tla on real Section objects."""

from __future__ import annotations

import contextlib
import copy
import io
import os
from typing import Any

import common
import core
import numpy as np
import real
import tlc

INV = ["Emit", "InvWarpNeedsGeom", "InvShape"]
PROPS = ["Monotone", "RefusedChangesNothing", "OthersUntouched"]


def words(chk, nsec, maxlen, ops, sim=None, seed=0):
    cfg = tlc.cfg_text({"NSEC": nsec, "MAXLEN": maxlen}, {"OPS": ops, "FORMS": "FormsBoth"},
                       INV, properties=PROPS)
    r = tlc.run("Lifecycle", cfg, simulate=sim, depth=maxlen + 2, seed=chk.seed * 100 + seed)
    recs = chk.tlc(r, f"{nsec} section(s), words of {maxlen} over {ops}"
                   + (f" simulate {sim}" if sim else " exhaustive"))
    return recs


def avail_table():
    t = common.tab()
    return {(a["form"], frozenset(a["done"])): set(a["avail"]) for a in t["avail"]}


def as_tuple(v):
    return v if isinstance(v, tuple) else (v,)


def snapshot(geom) -> dict[str, Any]:
    """Everything observable of a geometry."""
    geoms = getattr(geom, "geoms", [geom])
    mesh = geom.mesh or {}
    return {
        "wkb": geom.geom.wkb_hex,
        "parts": [g.geom.wkb_hex for g in geoms],
        "materials": [repr(g.material) for g in geoms],
        "tols": [g.tol for g in geoms] + [geom.tol],
        "assigned": [g.assigned_control_point.wkb_hex if g.assigned_control_point else None
                     for g in geoms],
        "points": [tuple(map(float, p)) for p in geom.points],
        "facets": [tuple(f) for f in geom.facets],
        "holes": [tuple(map(float, p)) for p in geom.holes],
        "control_points": [tuple(map(float, p)) for p in geom.control_points],
        "recovery": [tuple(p) for p in (geom.recovery_points or [])],
        "mesh": {k: np.array(v).tobytes() for k, v in sorted(mesh.items())
                 if k in ("vertices", "triangles", "triangle_attributes")},
    }


def diff(a, b):
    return [k for k in a if a[k] != b[k]]


ARR = ["sig_zz_n", "sig_zz_mxx", "sig_zz_myy", "sig_zz_m11", "sig_zz_m22", "sig_zz_m",
       "sig_zx_mzz", "sig_zy_mzz", "sig_zxy_mzz", "sig_zx_vx", "sig_zy_vx", "sig_zxy_vx",
       "sig_zx_vy", "sig_zy_vy", "sig_zxy_vy", "sig_zx_v", "sig_zy_v", "sig_zxy_v",
       "sig_zz", "sig_zx", "sig_zy", "sig_zxy", "sig_11", "sig_33", "sig_vm"]


def stress_arrays(sp):
    return [{k: (v if isinstance(v, str) else np.array(v)) for k, v in d.items()}
            for d in sp.get_stress()]


class Sess:
    """One Section and what the harness remembers about it."""

    def __init__(self, rec, geom, comp, acts, time_info=False):
        from sectionproperties.analysis import Section

        self.rec = rec
        self.geom = geom
        self.comp = comp
        self.acts = acts
        self.sec = Section(geom, time_info=time_info)
        self.posts: list[Any] = []
        self.points = [
            tuple(float(c) for c in self.sec.mesh_nodes[el.node_ids[:3]].mean(axis=0))
            for el in self.sec.elements[:: max(1, len(self.sec.elements) // 5)]
        ]
        self.nodes = self.sec.mesh_nodes.copy()
        self.conn = self.sec.mesh_elements.copy()

    def remesh(self, kind):
        """Meshes the geometry again (the section keeps its own mesh)."""
        real.make_mesh(self.geom, kind)

    def twin(self):
        """Another section from the same geometry, analysed in full."""
        t = Sess(self.rec, self.geom, self.comp, self.acts)
        for op in ("Geom", "Warp", "Plastic", "StressV"):
            t.do(op)
        return t

    # -------------------------------------------------------------- calls
    def act(self, which):
        a = self.acts
        n = {"n": a[0], "mxx": a[1], "myy": a[2], "m11": a[3], "m22": a[4]}
        if which == "N":
            return n
        if which == "V":
            return {**n, "vx": a[5], "vy": a[6]}
        return {"n": a[0], "mxx": a[1], "mzz": a[7]}

    def do(self, op):
        """Performs one call; the value is whatever the call returned."""
        s = self.sec
        if op == "Geom":
            return s.calculate_geometric_properties()
        if op.endswith("Timed"):
            old = s.time_info
            s.time_info = True
            try:
                return self.do(op.removesuffix("Timed"))
            finally:
                s.time_info = old
        if op == "Frame":
            return s.calculate_frame_properties()
        if op == "FrameCgs":
            return s.calculate_frame_properties(solver_type="cgs")
        if op == "FrameBad":
            return s.calculate_frame_properties(solver_type="lu")
        if op == "Warp":
            return s.calculate_warping_properties()
        if op == "WarpCgs":
            return s.calculate_warping_properties(solver_type="cgs")
        if op == "WarpBad":
            return s.calculate_warping_properties(solver_type="lu")
        if op == "Plastic":
            return s.calculate_plastic_properties()
        if op == "PlasticVerbose":
            return s.calculate_plastic_properties(verbose=True)
        if op.startswith("Stress"):
            sp = s.calculate_stress(**self.act(op[-1]))
            self.posts.append((op, sp, stress_arrays(sp)))
            return stress_arrays(sp)
        if op.startswith("Points"):
            return s.get_stress_at_points(self.points, **self.act(op[-1]))
        if op == "Display":
            return s.display_results()
        if op == "DisplayT":
            return s.display_transformed_results(e_ref=3.0)
        if op == "Store":
            return s.section_props.asdict()
        if op in ("Fibre2D", "Fibre3DOS"):
            from sectionproperties.post.fibre import to_fibre_section

            return to_fibre_section(s, analysis_type=op[5:])
        if op == "Remesh":
            self.nmesh = getattr(self, "nmesh", 0) + 1
            return self.remesh(1 + self.nmesh % 3)
        if op == "Twin":
            self.twin()
            return None
        if op == "MeshInfo":
            return s.display_mesh_info()
        import matplotlib.pyplot as plt

        try:
            if op == "PlotMesh":
                s.plot_mesh(render=False)
            elif op == "PlotCent":
                s.plot_centroids(render=False)
            elif op == "PlotWarp":
                s.plot_warping_function(render=False)
            elif op == "PlotStress":
                if self.posts:
                    self.posts[-1][1].plot_stress(stress="vm", render=False)
            elif op == "PlotVector":
                if self.posts:
                    self.posts[-1][1].plot_stress_vector(stress="zxy", render=False)
            elif op == "PlotMohr":
                if self.posts:
                    x, y = self.nodes[self.conn[0][:3]].mean(axis=0)
                    self.posts[-1][1].plot_mohrs_circles(x, y, render=False)
            elif op == "PlotGeom":
                self.geom.plot_geometry(labels=["points", "facets"], render=False)
            elif op == "GeomOps":
                g = self.geom
                g.shift_section(3, 4).rotate_section(30)
                g.mirror_section("y")
                g.align_center()
                g.calculate_centroid()
                g.split_section((0.1, 0.2), (1.3, 2.7))
                _ = g - g.shift_section(0.5, 0.5)
            else:
                raise KeyError(op)
        finally:
            plt.close("all")
        return None

    def intact(self):
        return bool((self.sec.mesh_nodes == self.nodes).all()
                    and (self.sec.mesh_elements == self.conn).all())


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


_GEOMS: dict[str, Any] = {}


def make_geom(case, k):
    """Geometry (meshed) for section k of a case; fresh object every time."""
    t = common.tab()
    c = case["sections"][k]
    key = repr((c["sec"]["lab"], c["sec"]["grid"], [r["edges"][0] for r in c["sec"]["regs"]], c["pl"], c["mesh"], c["scheme"]))
    if key not in _GEOMS:
        if len(_GEOMS) > 200:
            _GEOMS.clear()
        scheme = None if c["form"] == "geo" else t["schemes"][c["scheme"]]
        g = real.geometry(c["sec"], t, scheme, real.Placement(t["placements"][c["pl"]]))
        real.make_mesh(g, c["mesh"])
        _GEOMS[key] = g
    return copy.deepcopy(_GEOMS[key])


def canonical(case, k):
    """Values of everything on a fresh section, by the shortest route."""
    c = case["sections"][k]
    t = common.tab()
    out: dict[str, Any] = {}
    s = Sess(c["sec"], make_geom(case, k), c["form"] == "comp", case["acts"])
    with quiet():
        for op in ("Geom", "Warp", "Plastic"):
            s.do(op)
        for i, r in enumerate(t["catalogue"]):
            if r["form"] in ("any", c["form"]):
                out[r["get"]] = as_tuple(getattr(s.sec, r["get"])())
        for op in ("StressN", "StressV", "StressT", "PointsN", "PointsV", "PointsT"):
            out[op] = s.do(op)
        p = Sess(c["sec"], make_geom(case, k), c["form"] == "comp", case["acts"])
        p.do("Geom")
        out["Fibre2D"] = p.do("Fibre2D")
        out["Fibre3DOS"] = p.do("Fibre3DOS")
    return out


def section_pool(chk, n=24):
    """Connected sections to live through the behaviours."""
    fams = [
        dict(X="G2a", Y="G2b", codes="CodesHalf2", conn=True, minlab=2),
        dict(X="G3b", Y="G3w", codes="CodesRing2", sim=60, conn=True, minlab=1),
        dict(X="G3a", Y="G3b", codes="CodesHalf1", sim=60, conn=True),
    ]
    groups = common.sections(chk, fams)
    pool = []
    for g in groups:
        g = [s for s in g if s["conn"] and len(s["regs"]) <= 4]
        pool += common.sample(chk, g, n // 3)
    # the description gives its regions in the order of their labels; a user in any
    return [dict(s, regs=chk.rng.sample(s["regs"], len(s["regs"]))) for s in pool]


_RETURNS: dict = {}


def returning(pool):
    """Sections and schemes of the pool in which a material returns after another one."""
    if id(pool) not in _RETURNS:
        out = []
        for sec in pool:
            for i, s in enumerate(common.tab()["schemes"]):
                m = [s[r["lab"] - 1] for r in sec["regs"]]
                if any(m[b] in m[:a] for b in range(len(m)) for a in range(b) if m[a] != m[b]):
                    out.append((sec, i))
        _RETURNS[id(pool)] = out
    return _RETURNS[id(pool)]


def build_case(chk, rec, pool, share=False):
    t = common.tab()
    secs = []
    for form in rec["form"]:
        sec = chk.rng.choice(pool)
        comps = [i for i, s in enumerate(t["schemes"]) if common.composite(sec, s)]
        scheme = chk.rng.choice(comps) if form == "comp" else 0
        if form == "comp" and returning(pool) and chk.rng.random() < 0.25:
            sec, scheme = chk.rng.choice(returning(pool))
        secs.append({"sec": sec, "form": form,
                     "scheme": scheme,
                     "pl": chk.rng.choice([0, 1, 2, 3, 4, 7, 9]), "mesh": chk.rng.choice([0, 1])})
    if share and len(secs) > 1 and secs[0]["form"] == secs[1]["form"]:
        secs[1] = secs[0]
    else:
        share = False
    a = [chk.rng.choice([-1, 1]) * chk.rng.randint(1, 9) * 10 ** chk.rng.choice([0, 1, 3])
         for _ in range(8)]
    return {"sections": secs, "hist": rec["hist"], "acts": a, "share": share}

