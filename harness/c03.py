"""C03: the mesh is a faithful partition of the geometry."""

from __future__ import annotations

import json
import os
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import common
import core
import numpy as np
import real
import tlc


def build(case):
    """Geometry of a case with its assigned control points and mesh sizes."""
    from sectionproperties.pre import CompoundGeometry, Geometry

    t = common.tab()
    s = case["sec"]
    pl = real.Placement(t["placements"][case["pl"]])
    scheme = t["schemes"][case["scheme"]]
    keep = frozenset() if pl.p["d"] == 1 else real.corners([r["edges"] for r in s["regs"]])
    geoms = []
    for i in case["order"]:
        r = s["regs"][i]
        m = real.mat_for(t, scheme, r["lab"])
        poly = real.polygon(r["edges"], pl, case["merge"], keep)
        kw = {}
        if case["cp"][i % len(case["cp"])]:
            q = r["tris"][case["cp"][i % len(case["cp"])] % len(r["tris"])]
            c = (sum(p[0] for p in q) / 3, sum(p[1] for p in q) / 3)
            kw["control_points"] = pl(c)
        geoms.append(Geometry(poly, material=real.material(m), **kw) if m
                     else Geometry(poly, **kw))
    return geoms[0] if len(geoms) == 1 and not case["compound"] else CompoundGeometry(geoms)


def limits(case, areas):
    k = case["limits"]
    if k["kind"] == "coarse":
        return [0.0], True, [None] * len(areas)
    if k["kind"] == "one":
        v = sum(areas) / k["div"][0]
        return (v if k["scalar"] else [v]), False, [v] * len(areas)
    if k["kind"] == "none":
        return [0.0], False, [None] * len(areas)
    v = [a / d for a, d in zip(areas, (k["div"] * 20)[: len(areas)])]
    return v, False, v


def record(case):
    """Meshes the real geometry and records the mesh for the specification."""
    from sectionproperties.analysis import Section

    t = common.tab()
    s = case["sec"]
    pl = real.Placement(t["placements"][case["pl"]])
    scheme = t["schemes"][case["scheme"]]
    geom = build(case)
    areas = [abs(float(pl.s2)) * s["regs"][i]["int"][0] / 2 for i in case["order"]]
    ms, coarse, lim = limits(case, areas)
    if len(areas) == 1 and isinstance(ms, list) and len(ms) != 1:
        ms = ms[:1]
    geom.create_mesh(mesh_sizes=ms, min_angle=case["angle"], coarse=coarse)
    sec = Section(geom)
    V = np.array(geom.mesh["vertices"], dtype=float)
    tri = [[int(x) for x in e] for e in sec.mesh_elements]
    attr = [int(a) for a in np.array(geom.mesh["triangle_attributes"]).T[0]]
    fails = []
    if not np.array_equal(V, sec.mesh_nodes):
        fails.append("section nodes are not the mesh vertices")
    if len(sec.elements) != len(tri):
        fails.append("number of elements")
    ext = np.ptp(V, axis=0).max()
    tol = 1e-9 * ext + 1e-13 * np.abs(V).max()
    P = V[np.array(tri)]
    cr = ((P[:, 1, 0] - P[:, 0, 0]) * (P[:, 2, 1] - P[:, 0, 1])
          - (P[:, 2, 0] - P[:, 0, 0]) * (P[:, 1, 1] - P[:, 0, 1]))
    mids = bool(all(
        np.abs(P[:, 3 + k] - (P[:, k] + P[:, (k + 1) % 3]) / 2).max() <= tol for k in range(3)))
    # the elements of the section are the elements of the mesh
    mats: list = []
    mat = []
    for i, el in enumerate(sec.elements):
        if not np.array_equal(el.coords, V[tri[i]].T) or list(el.node_ids) != tri[i]:
            fails.append(f"element {i} of the section is not element {i} of the mesh")
            break
        if el.material not in mats:
            mats.append(el.material)
        mat.append(mats.index(el.material) + 1)
    # groups: every element in exactly the group of its material
    ids = sorted(i for g in sec.material_groups for i in g.el_ids)
    if ids != list(range(len(tri))):
        fails.append("material groups do not contain every element once")
    if any(el.material != g.material for g in sec.material_groups for el in g.elements):
        fails.append("element in the group of another material")
    want = []
    for i in case["order"]:
        m = real.mat_for(t, scheme, s["regs"][i]["lab"])
        from sectionproperties.pre.pre import DEFAULT_MATERIAL

        mm = real.material(m) if m else DEFAULT_MATERIAL
        if mm not in mats:
            mats.append(mm)
        want.append(mats.index(mm) + 1)
    outline = []
    for i in case["order"]:
        chains = []
        for ring in real.chain(s["regs"][i]["edges"]):
            ids = []
            pts = [np.array(pl(p)) for p in ring]
            for a, b in zip(pts, pts[1:] + pts[:1]):
                d = b - a
                L = float(np.hypot(*d))
                n = np.abs(d[0] * (V[:, 1] - a[1]) - d[1] * (V[:, 0] - a[0])) / L
                u = ((V - a) @ d) / L
                on = np.where((n <= tol) & (u >= -tol) & (u < L - tol))[0]
                corner = {int(c) for c in {x for e in tri for x in e[:3]}}
                on = [int(x) for x in on if int(x) in corner]
                on.sort(key=lambda x: u[x])
                ids += on
            chains.append([x + 1 for x in ids] if float(pl.det) > 0 else [x + 1 for x in ids[::-1]])
        outline.append([c for c in chains if c] or [[0]])
    over = [bool(lim[a] is not None and not coarse and c / 2 > lim[a] * (1 + 1e-9))
            for a, c in zip(attr, cr)] if all(0 <= a < len(lim) for a in attr) else [True] * len(attr)
    X = np.rint(2 * V)
    exact = pl.p["d"] == 1 and bool((np.abs(2 * V - X) == 0).all()) and np.abs(X).max() < 20000
    rec = {"tris": [[x + 1 for x in e] for e in tri], "reg": [a + 1 for a in attr],
           "pos": [bool(c > 0) for c in cr], "over": over, "mat": mat, "want": want,
           "outline": outline, "mids": mids,
           "xy": [[int(a), int(b)] for a, b in X] if exact else [],
           "area8": 4 * sum(r["int"][0] for r in s["regs"]) * abs(pl.p["a"] * pl.p["e"] - pl.p["b"] * pl.p["c"])
           if exact else 0}
    if fails or len(attr) != len(tri) or len(mat) != len(tri):
        return {"fails": fails or ["attributes"], "n": 1}
    if "decide" in case:  # a single replay: decide at once
        return {"fails": decide([rec])[1][0], "n": 1}
    return {"fails": [], "n": 0, "rec": rec}


def replay(case):
    return record(dict(case, decide=True))


def decide(recs):
    """TLC decides every recorded mesh; returns (run, failing predicates)."""
    base = Path(os.environ.get("TMPDIR", "/tmp")) / f"meshes_{os.getpid()}_{id(recs)}.ndjson"
    with open(base, "w") as f:
        for k, r in enumerate(recs):
            f.write(json.dumps(dict(r, id=k)) + "\n")
    try:
        run = tlc.run("MeshTrace", "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                      env={"MESHFILE": str(base)}, heap="3g")
    finally:
        base.unlink()
    out = [None] * len(recs)
    for r in run.records:
        out[r["id"]] = sorted(r["fails"])
    if any(o is None for o in out):
        raise tlc.TLCError("a recorded mesh was not decided")
    return run, out


FAMILIES = [
    dict(X="G2a", Y="G2b", codes="CodesHalf2", minlab=2),
    dict(X="G2c", Y="G2a", codes="CodesFine2", sim=250, minlab=2),
    dict(X="G3a", Y="G3b", codes="CodesHalf2", sim=150, minlab=2),
    dict(X="G3b", Y="G3w", codes="CodesRing2", sim=200, minlab=1),
    dict(X="G3b", Y="G3w", codes="CodesSolid3", sim=100, minlab=2),
    dict(X="G5a", Y="G5a", codes="CodesNest", sim=120),
    dict(X="G4a", Y="G4b", codes="CodesHalf1", sim=100),
    dict(X="G5a", Y="G3w", codes="CodesSieve2", sim=100),
]


def run(chk: core.Check):
    fams = [dict(f) for f in FAMILIES]
    if chk.thorough:
        for f in fams:
            if f.get("sim"):
                f["sim"] *= 8
    common.tab()
    groups = common.sections(chk, fams)
    cap = 2000 if chk.thorough else 170
    rng = chk.rng
    cases = []
    for g in groups:
        for s in common.sample(chk, g, cap):
            order = list(range(len(s["regs"])))
            rng.shuffle(order)
            cases.append({
                "sec": s, "pl": rng.randrange(10), "scheme": rng.randrange(len(common.tab()["schemes"])), "order": order,
                "merge": rng.random() < 0.6, "compound": rng.random() < 0.2,
                "cp": [rng.choice([0, 0, 1, 2, 5]) for _ in order],
                "angle": rng.choice([30.0, 30.0, 20.0, 25.5]),
                "limits": {"kind": rng.choice(["coarse", "one", "none", "each", "each", "each"]),
                           "div": [rng.choice([2, 5, 12, 30]) for _ in range(4)],
                           "scalar": rng.random() < 0.5},
            })
    res = chk.replay("recorded meshes", "c03:record", cases)
    ok = [(c, r["rec"]) for c, r in zip(cases, res) if r and r.get("rec")]
    parts = [ok[k::6] for k in range(6)]
    with ThreadPoolExecutor(6) as ex:
        outs = list(ex.map(lambda p: decide([x[1] for x in p]) if p else (None, []), parts))
    for p, (run_, out) in zip(parts, outs):
        if run_ is None:
            continue
        chk.tlc(run_, "recorded meshes decided")
        for (c, rec), f in zip(p, out):
            chk.comparisons += 8 * len(rec["tris"])
            if f:
                chk.fail("c03:replay", c, [f"mesh of the geometry is not a faithful partition: {x}"
                                           for x in f])
    chk.assumptions += ["mesh nodes on an outline edge are recognised within 1e-9 of the section's size"]
