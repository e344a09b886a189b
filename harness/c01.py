"""C01: elastic properties are the exact integrals over the cross-section."""

from __future__ import annotations

import common
import core
import real


def replay(case):
    from sectionproperties.analysis import Section

    t = common.tab()
    cmp = core.Cmp()
    sec_rec = case["sec"]
    pl = real.Placement(t["placements"][case["pl"]])
    env = real.leaf_env(sec_rec, t, None, pl)
    geom = real.geometry(sec_rec, t, None, pl, merge=case["merge"], order=case["order"],
                         force_compound=case["compound"])
    # the description itself
    cmp.near("geometry area", geom.calculate_area(), env["A"], 1e-9 * float(env["A"]))
    if sec_rec["conn"]:
        cmp.near("geometry perimeter", geom.calculate_perimeter(), env["perim"],
                 1e-9 * float(env["perim"]))
    else:
        cmp.near("perimeter of a disjoint section", geom.calculate_perimeter(), -1.0, 1e-12)
        env["_perim_none"] = True
    xs, ys = [float(x) for x in env["vx"]], [float(y) for y in env["vy"]]
    D = max(max(xs) - min(xs), max(ys) - min(ys))
    R = max(map(abs, xs + ys))
    for n, g, e in zip(("x_min", "x_max", "y_min", "y_max"), geom.calculate_extents(),
                       (min(xs), max(xs), min(ys), max(ys))):
        cmp.near(f"extents {n}", g, e, 1e-10 * D + 1e-13 * R)
    cx, cy = geom.calculate_centroid()
    cmp.near("geometry centroid x", cx, env["cx"], 1e-9 * D + 1e-12 * R)
    cmp.near("geometry centroid y", cy, env["cy"], 1e-9 * D + 1e-12 * R)
    for kind in case["mesh"]:
        real.make_mesh(geom, kind)
        sec = Section(geom)
        sec.calculate_geometric_properties()
        common.compare_elastic(cmp, sec, env, prefix=f"mesh {kind}: ")
    return cmp.result()


FAMILIES = [
    dict(X="G2a", Y="G2b", codes="CodesHalf1"),
    dict(X="G2c", Y="G2a", codes="CodesFine1", sim=800),
    dict(X="G3a", Y="G3b", codes="CodesHalf1", sim=900),
    dict(X="G3b", Y="G3w", codes="CodesRing1", sim=2500),
    dict(X="G4a", Y="G4b", codes="CodesHalf1", sim=900),
    dict(X="G3a", Y="G3f", codes="CodesHalf2", sim=500, minlab=2),
    dict(X="G5a", Y="G5a", codes="CodesNest", sim=250),
    dict(X="G3a", Y="G3b", codes="CodesRect1"),
    dict(X="G5a", Y="G3w", codes="CodesSieve2", sim=250),
]


def run(chk: core.Check):
    fams = [dict(f) for f in FAMILIES]
    if chk.thorough:
        for f in fams:
            if f.get("sim"):
                f["sim"] *= 8
        fams.append(dict(X="G2b", Y="G2c", codes="CodesFine1"))
        fams.append(dict(X="G3b", Y="G3a", codes="CodesRect2"))
    common.tab()
    from threading import Thread

    w = Thread(target=common.warm, args=("geom",))
    w.start()
    groups = common.sections(chk, fams)
    w.join()
    cap = 10**9 if chk.thorough else 900
    for fam, recs in zip(fams, groups):
        cases = []
        for i, s in enumerate(common.sample(chk, recs, cap)):
            order = list(range(len(s["regs"])))
            chk.rng.shuffle(order)
            cases.append({
                "sec": s, "pl": chk.rng.randrange(10), "merge": chk.rng.random() < 0.6,
                "order": order, "compound": chk.rng.random() < 0.2,
                "mesh": [chk.rng.choice([0, 1]), chk.rng.choice([1, 2, 3, 4])],
            })
        chk.replay(f"{fam['X']}x{fam['Y']} {fam['codes']}", "c01:replay", cases)
    chk.assumptions += [
        "sections are drawn from lattice sections with up to 5x5 cells and the listed similarity placements",
        "section mesh generator and shapely are part of the checked path, not trusted",
    ]
