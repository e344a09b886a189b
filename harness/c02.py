"""C02: composite properties are modulus-weighted sums over the regions."""

from __future__ import annotations

import common
import core
import real


def replay(case):
    import dataclasses

    from sectionproperties.analysis import Section
    from sectionproperties.pre import Material

    t = common.tab()
    cmp = core.Cmp()
    s = case["sec"]
    pl = real.Placement(t["placements"][case["pl"]])
    scheme = t["schemes"][case["scheme"]]
    env = real.leaf_env(s, t, scheme, pl)
    if not s["conn"]:
        env["_perim_none"] = True
    geom = real.geometry(s, t, scheme, pl, merge=case["merge"], order=case["order"],
                         force_compound=case["compound"])
    real.make_mesh(geom, case["mesh"])
    sec = Section(geom)
    used = {scheme[r["lab"] - 1] for r in s["regs"]}
    cmp.eq("is_composite", sec.is_composite(), used != {0})
    sec.calculate_geometric_properties()
    common.compare_elastic(cmp, sec, env)
    if sec.is_composite():
        # every rigidity relative to a reference modulus / material
        e1 = float(case["eref"])
        m = t["materials"][case["erefmat"]]
        mat = real.material(m)
        ref = [("modulus", e1, e1), ("material", mat, m["E"][0] / m["E"][1])]
        # a material is a reference by its modulus, whatever its name
        own = sec.materials[case["erefmat"] % len(sec.materials)]
        ref.append(("material of a region's name", dataclasses.replace(own, elastic_modulus=3 * e1), 3 * e1))
        for r in t["catalogue"]:
            if r["form"] != "comp" or r["need"] not in ("area", "geom"):
                continue
            f = getattr(sec, r["get"])
            base = f()
            if not r["eref"]:
                continue
            for what, e, val in ref:
                got = f(e_ref=e)
                tup = lambda x: x if isinstance(x, tuple) else (x,)  # noqa: E731
                for b, g in zip(tup(base), tup(got)):
                    cmp.near(f"{r['get']} relative to a {what}", g * val, b, 1e-12 * abs(b))
        # one factor on every modulus
        k = case["factor"]
        geom2 = real.geometry(s, t, scheme, pl, merge=case["merge"], order=case["order"],
                              force_compound=case["compound"])
        geoms = getattr(geom2, "geoms", [geom2])
        for g in geoms:
            g.material = dataclasses.replace(
                g.material, elastic_modulus=g.material.elastic_modulus * k)
        real.make_mesh(geom2, case["mesh"])
        sec2 = Section(geom2)
        sec2.calculate_geometric_properties()
        env2 = dict(env)
        env2.pop("phi", None)
        import terms
        from fractions import Fraction

        env2["mE"] = [x * Fraction(k) for x in env["mE"]]
        for d in ("weighted", "centroidal", "principal"):
            terms.run_defs(t["defs"][d], env2)
        common.compare_elastic(cmp, sec2, env2, prefix=f"moduli x {k}: ")
    return cmp.result()


FAMILIES = [
    dict(X="G2a", Y="G2b", codes="CodesHalf2", minlab=2),
    dict(X="G2c", Y="G2a", codes="CodesFine2", sim=900, minlab=2),
    dict(X="G3a", Y="G3b", codes="CodesHalf2", sim=700, minlab=2),
    dict(X="G3b", Y="G3w", codes="CodesSolid3", sim=500, minlab=2),
    dict(X="G3b", Y="G3w", codes="CodesRing2", sim=700, minlab=2),
    dict(X="G2b", Y="G3a", codes="CodesRect3", minlab=2),
    dict(X="G5a", Y="G3w", codes="CodesSieve2", sim=250, minlab=2),
    dict(X="G5a", Y="G5a", codes="CodesNest", sim=500, minlab=1),
    dict(X="G2b", Y="G2b", codes="CodesHalf1"),
]


def run(chk: core.Check):
    fams = [dict(f) for f in FAMILIES]
    if chk.thorough:
        for f in fams:
            if f.get("sim"):
                f["sim"] *= 8
        fams.append(dict(X="G3b", Y="G3a", codes="CodesRect2", minlab=2))
    t = common.tab()
    from threading import Thread

    w = Thread(target=common.warm, args=("geom",))
    w.start()
    groups = common.sections(chk, fams)
    w.join()
    cap = 10**9 if chk.thorough else 700
    for fam, recs in zip(fams, groups):
        cases = []
        for s in common.sample(chk, recs, cap):
            order = list(range(len(s["regs"])))
            chk.rng.shuffle(order)
            cases.append({
                "sec": s, "pl": chk.rng.randrange(len(t["placements"])),
                "scheme": chk.rng.randrange(len(t["schemes"])),
                "merge": chk.rng.random() < 0.6, "order": order,
                "compound": chk.rng.random() < 0.2, "mesh": chk.rng.choice([0, 1, 2, 3]),
                "eref": chk.rng.choice([0.5, 3, 30000, 200000]),
                "erefmat": chk.rng.randrange(len(t["materials"])),
                "factor": chk.rng.choice([2, 0.125, 1000]),
            })
        chk.replay(f"{fam['X']}x{fam['Y']} {fam['codes']}", "c02:replay", cases)
    chk.assumptions += ["lattice sections, the listed materials and schemes"]
