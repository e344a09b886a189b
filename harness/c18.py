"""C18: exported fibre sections reproduce the analysed section."""

from __future__ import annotations

import copy
import json
import os
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import common
import core
import fe
import numpy as np
import real
import stress
import terms
import tlc

NAMES = [
    ["steel", "concrete", "timber", "alu", "soft", "twin", "steel"],
    ["mild steel", "grade  40 concrete", "GL 24h", "alu", "a b c", "Cell3D", "mild steel"],
    ["1", "2", "3", "4", "5", "6", "7"],
    ["steel", "steel 2", "steel  2 x", "section", "soft-core", "tw/in", "steel 2"],
]
# {material number (0: the default material): tag}; names and tags may coincide
MAPS = [None, {}, {1: 11}, {1: 2, 2: 3, 3: 1}, {0: 7, 5: 12}, {1: 5, 5: 1, 3: 900}, {4: 4, 6: 1}]


def words(name):
    return name.split()


def lex(text):
    out = []
    for raw in text.split("\n"):
        line = raw
        cont = line.endswith("\\")
        if cont:
            line = line[:-1]
        toks = line.split()
        nums = [int(x) if x.isdigit() and len(x) < 9 else -1 for x in toks]
        out.append({"toks": toks, "nums": nums, "len": len(raw), "cont": cont,
                    "comment": raw.startswith("#")})
    return out


def numbers(kind, lines, nel):
    """The numeric columns of the cell lines by name."""
    pos = {"2D": {"area": 3, "y": 5}, "3D": {"area": 3, "y": 5, "z": 6},
           "3DOS": {"area": 3, "omega": 4, "py": 5, "pz": 6, "y": 8, "z": 9}}[kind]
    rows = [x["toks"] for x in lines if len(x["toks"]) >= 3 and x["toks"][1] == f"Cell{kind}"
            and x["toks"][0] == "section"]
    if len(rows) != nel:
        return None
    return {n: np.array([float(r[p]) for r in rows]) for n, p in pos.items()}


def record(case):
    from sectionproperties.analysis import Section
    from sectionproperties.post.fibre import to_fibre_section

    t0 = common.tab()
    t = dict(t0, materials=[dict(m, name=n) for m, n in zip(t0["materials"], NAMES[case["names"]])])
    cmp = core.Cmp()
    s = case["sec"]
    pl = real.Placement(t["placements"][case["pl"]])
    scheme = t["schemes"][case["scheme"]]
    env = real.leaf_env(s, t, scheme, pl)
    geom = real.geometry(s, t, scheme, pl, merge=case["merge"], order=case["order"],
                         force_compound=case["compound"])
    real.make_mesh(geom, case["mesh"])
    sec = Section(geom)
    names = [e.material.name for e in sec.elements]
    mp = MAPS[case["map"]]
    mapping, triples = None, []
    if mp is not None:
        mapping = {}
        for k, tag in mp.items():
            nm = "default" if k == 0 else t["materials"][k - 1]["name"]
            mapping[nm] = tag
            triples.append([words(nm), tag])
    kind = case["kind"]
    kw = dict(main_section_tag=case["main"], analysis_type=kind.lower() if case["lower"] else kind,
              max_width=case["width"])
    if mapping is not None:
        kw["material_mapping"] = mapping
    if case["main"] == 1:
        del kw["main_section_tag"]
    if case["width"] == 160:
        del kw["max_width"]
    if kind == "3DOS" and case["lower"]:
        del kw["analysis_type"]
    before = copy.deepcopy(mapping)
    if case["obj"] == "section_done":
        sec.calculate_geometric_properties()
        sec.calculate_warping_properties()
    with tempfile.TemporaryDirectory() as td:
        f = Path(td) / "out.sp"
        if case["save"]:
            kw["save_to"] = str(f)
        text = to_fibre_section(geom if case["obj"] == "geometry" else sec, **kw)
        if case["save"]:
            cmp.eq("the saved file is the returned text", f.read_text(), text)
    cmp.eq("the mapping is left alone", mapping, before)
    cmp.true("elements keep their materials", [e.material.name for e in sec.elements] == names)
    lines = lex(text)
    nodes = np.asarray(sec.mesh["vertices"], float)
    fem = fe.Mesh(nodes, sec.mesh["triangles"])
    n = len(fem.t)
    v = numbers(kind, lines, n)
    cmp.true("one cell line per element", v is not None)
    if v is not None:
        c = fem.c
        e = {f"{a}{k + 1}": c[:, k, j] for k in range(3) for j, a in ((0, "x"), (1, "y"))}
        e["_float"] = True
        terms.run_defs(t["defs"]["fibrecells"], e)
        R = float(np.abs(nodes).max())
        D = float(np.ptp(nodes, axis=0).max())
        for col, ref, tol in (("area", "cellA", 6e-9 * np.abs(e["cellA"])), ("y", "cellY", 6e-9 * np.abs(e["cellY"])),
                              ("z", "cellZ", 6e-9 * np.abs(e["cellZ"]))):
            if col in v:
                d = np.abs(v[col] - e[ref]) - (tol + 1e-12 * (R if col != "area" else R * D))
                k = int(d.argmax())
                cmp.true(f"{col} of cell {k + 1}: got {v[col][k]!r}, specified {e[ref][k]!r}", bool(d[k] <= 0))
        # sums per material against the lattice's exact integrals
        where = stress.Where(s, t, scheme, pl)
        mats = [real.mat_for(t, scheme, r["lab"]) or real.DEFAULT_REC for r in s["regs"]]
        elmat = np.array(names)
        for nm in sorted({m["name"] for m in mats}):
            ids = elmat == nm
            q = {"qA": v["area"][ids], "qY": v["y"][ids], "qZ": v["z"][ids] if "z" in v else 0 * v["y"][ids],
                 "_float": True}
            terms.run_defs(t["defs"]["fibresums"], q)
            on = [k for k, m in enumerate(mats) if m["name"] == nm]
            A = float(sum(env["rA"][k] for k in on))
            cmp.near(f"area of the cells of {nm}", q["fA"], A, 1e-8 * A + 1e-12 * R * D)
            cmp.near(f"first moment in y of the cells of {nm}", q["fY"], float(sum(env["rX"][k] for k in on)),
                     2e-8 * A * R)
            if "z" in v:
                cmp.near(f"first moment in z of the cells of {nm}", q["fZ"],
                         float(sum(env["rY"][k] for k in on)), 2e-8 * A * R)
        if kind == "3DOS":
            E = np.array([float(env["mE"][0])] * n)
            E = np.array([e.material.elastic_modulus for e in sec.elements])
            z = dict(cx=0.0, cy=0.0, Ixx=1.0, Iyy=1.0, Ixy=0.0, nu=0.0)
            o = fe.solve(fem, E, z, t, problems=("om",))
            u = o["om_nodes"]
            aw = o["aw"]
            u = u - float((aw * o["om"]).sum()) / float(aw.sum())
            ue = u[fem.t]
            N, d = fe.shape((1 / 3, 1 / 3, 1 / 3))
            want = {"omega": ue @ N,
                    "py": np.einsum("ei,ik,ek->e", ue, d, fem.gx), "pz": np.einsum("ei,ik,ek->e", ue, d, fem.gy)}
            big = {"omega": np.abs(u).max() + 1e-3 * R * D, "py": R, "pz": R}
            for col, y in want.items():
                dd = np.abs(v[col] - y)
                k = int(dd.argmax())
                cmp.true(f"{col} of cell {k + 1}: got {v[col][k]!r}, specified {y[k]!r}",
                         bool(dd[k] <= 1e-7 * big[col]))
            if case["obj"] == "section_done" and cmp.fails == []:
                # the same derivatives as the analysis of the section has: shifted by its centroid
                w = np.asarray(sec.section_props.omega)
                cx, cy = map(float, sec.get_c())
                we = w[np.asarray([el.node_ids for el in sec.elements])]
                # warping about the origin = warping about the centroid + cy x - cx y
                nod = np.array([nodes[el.node_ids] for el in sec.elements])
                lin = cy * nod[:, :, 0] - cx * nod[:, :, 1]
                tot = we + lin
                b = np.array([tot[k] @ fe.shape((1 / 3, 1 / 3, 1 / 3))[0] for k in range(len(tot))])
                # node order of the elements is corners then sides, whichever the order of the sides
                dif = (v["omega"] - b)
                cmp.true("warping of the cells is the section's up to a constant",
                         bool(np.ptp(dif) <= 1e-6 * (np.abs(tot).max() + R * D * 1e-3)))
    rec = {"kind": kind, "main": case["main"], "width": case["width"], "map": triples,
           "els": [words(x) for x in names], "lines": lines}
    if cmp.fails or "decide" in case:
        r = cmp.result()
        if "decide" in case and not cmp.fails:
            r["fails"] = [x for x in decide([rec])[1] if x]
        return r
    return {**cmp.result(), "rec": rec}


def replay(case):
    return record(dict(case, decide=True))


def replay_errors(case):
    from sectionproperties.post.fibre import to_fibre_section
    from sectionproperties.pre import Geometry
    from shapely import Polygon

    cmp = core.Cmp()
    g = Geometry(Polygon([(0, 0), (3, 0), (3, 2), (0, 2)]))
    g.create_mesh([0.0])
    for obj, kw, exc in ((g, {"analysis_type": case["bad"]}, ValueError), (case["bad"], {}, TypeError)):
        try:
            to_fibre_section(obj, **kw)
            cmp.true(f"{obj!r} {kw} accepted", False)
        except exc:
            cmp.n += 1
    return cmp.result()


def decide(recs):
    base = Path(os.environ.get("TMPDIR", "/tmp")) / f"fibres_{os.getpid()}_{id(recs)}.ndjson"
    with open(base, "w") as f:
        for k, r in enumerate(recs):
            f.write(json.dumps(dict(r, id=k)) + "\n")
    try:
        run = tlc.run("FibreTrace", "SPECIFICATION Spec\nINVARIANT Emit\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n",
                      env={"FIBREFILE": str(base)}, heap="3g")
    finally:
        base.unlink()
    out = [None] * len(recs)
    for r in run.records:
        out[r["id"]] = r["why"] if r["phase"] == "bad" else ""
    if any(o is None for o in out):
        raise tlc.TLCError("an export was not decided")
    return run, out


FAMILIES = [
    dict(X="G2a", Y="G2b", codes="CodesHalf2", conn=True, minlab=2),
    dict(X="G2c", Y="G2a", codes="CodesFine2", conn=True, sim=200),
    dict(X="G3a", Y="G3b", codes="CodesHalf2", conn=True, sim=200, minlab=2),
    dict(X="G3b", Y="G3w", codes="CodesSolid3", conn=True, sim=200, minlab=2),
    dict(X="G3b", Y="G3w", codes="CodesRing2", conn=True, sim=200),
]
# 2D and 3D exports need no connected section
LOOSE = [dict(X="G3a", Y="G3b", codes="CodesHalf2", sim=200), dict(X="G5a", Y="G5a", codes="CodesNest", sim=100)]


def run(chk: core.Check):
    fams = [dict(f) for f in FAMILIES + LOOSE]
    if chk.thorough:
        for f in fams:
            if f.get("sim"):
                f["sim"] *= 10
    t = common.tab()
    common.warm("warp")
    recs_all = []
    for fam, recs in zip(fams, common.sections(chk, fams)):
        cases = []
        for s in common.sample(chk, recs, 2000 if chk.thorough else 110):
            order = list(range(len(s["regs"])))
            chk.rng.shuffle(order)
            conn = s["conn"]
            cases.append({
                "sec": s, "pl": chk.rng.randrange(len(t["placements"])),
                "scheme": chk.rng.randrange(len(t["schemes"])), "order": order,
                "merge": chk.rng.random() < 0.6, "compound": chk.rng.random() < 0.2,
                "mesh": chk.rng.choice([0, 1, 2, 3, 4]), "names": chk.rng.randrange(len(NAMES)),
                "map": chk.rng.randrange(len(MAPS)),
                "kind": chk.rng.choice(["2D", "3D", "3DOS", "3DOS"] if conn else ["2D", "3D"]),
                "lower": chk.rng.random() < 0.4, "main": chk.rng.choice([1, 1, 7, 99, 4321, 100000]),
                "width": chk.rng.choice([160, 160, 80, 40, 200, 33, 1, 100000]),
                "obj": chk.rng.choice(["geometry", "section", "section_done"]) if conn else
                chk.rng.choice(["geometry", "section"]),
                "save": chk.rng.random() < 0.3,
            })
        res = chk.replay(f"{fam['X']}x{fam['Y']} {fam['codes']}", "c18:record", cases)
        recs_all += [(c, r["rec"]) for c, r in zip(cases, res) if r and r.get("rec")]
    parts = [recs_all[k::6] for k in range(6)]
    with ThreadPoolExecutor(6) as ex:
        outs = list(ex.map(lambda p: decide([x[1] for x in p]) if p else (None, []), parts))
    for p, (run_, out) in zip(parts, outs):
        if run_ is None:
            continue
        chk.tlc(run_, "exports accepted token by token")
        for (c, rec), why in zip(p, out):
            chk.comparisons += len(rec["lines"])
            if why:
                chk.fail("c18:replay", c, [f"export refused by the specification: {why}"])
    chk.replay("refusals", "c18:replay_errors", [{"bad": b} for b in ("4D", "", "3DO", "2", "Fibre2D")])
    chk.assumptions += ["lattice sections, the listed materials, names and mappings"]
