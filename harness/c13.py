"""C13: normal stresses are those of linear elastic bending in each material."""

from __future__ import annotations

import math
import random

import numpy as np

import common
import core
import real
import stress
import terms

NORMAL = ["sig_zz_n", "sig_zz_mxx", "sig_zz_myy", "sig_zz_m11", "sig_zz_m22", "sig_zz_m", "sig_zz"]


def replay(case):
    from sectionproperties.analysis import Section

    t = common.tab()
    cmp = core.Cmp()
    s = case["sec"]
    pl = real.Placement(t["placements"][case["pl"]])
    scheme = t["schemes"][case["scheme"]]
    env = real.leaf_env(s, t, scheme, pl)
    geom = real.geometry(s, t, scheme, pl, merge=case["merge"], order=case["order"],
                         force_compound=case["compound"])
    real.make_mesh(geom, case["mesh"])
    sec = Section(geom)
    sec.calculate_geometric_properties()
    env["phi"] = float(sec.get_phi())
    where = stress.Where(s, t, scheme, pl)
    fenv = stress.floatenv(env)
    I11, I22 = float(env["I11"]), float(env["I22"])
    R2 = max(float(x) ** 2 + float(y) ** 2 for x, y in zip(env["vx"], env["vy"]))
    rel = 1e-8 + 8 * (1e-9 * I11 + 3e-14 * float(env["EA"]) * R2) / I22
    # what lies where
    nodes = [tuple(map(float, p)) for p in sec.mesh["vertices"]]
    at = [where.mats(p) for p in nodes]
    names = sorted({n for m in at for n in m})
    rng = random.Random(case["rseed"])
    inner = stress.inner_points(s, pl, rng)
    rng.shuffle(inner)
    inner = inner[:12]
    void = where.void_points(pl)
    rng.shuffle(void)
    void = void[:6]
    laws = 0
    for n, st in enumerate(case["loads"]):
        load = st["load"]
        kw = stress.kwargs(load, case["scale"])
        what = f"load {kw}"
        res = sec.calculate_stress(**kw).get_stress()
        tied = stress.tie(res, {m: {k for k, a in enumerate(at) if m in a} for m in names})
        cmp.true(f"{what}: one result for each of {names}: got {[r['material'] for r in res]}", tied is not None)
        if cmp.fails:
            return cmp.result()
        got = dict(zip(tied, res))
        for name in names:
            ids = [k for k, m in enumerate(at) if name in m]
            out = [k for k, m in enumerate(at) if name not in m]
            e = stress.stress_env(t, fenv, load, case["scale"], [nodes[k] for k in ids],
                                  [at[k][name] for k in ids])
            for c in NORMAL:
                x = np.asarray(got[name][c], float)
                cmp.eq(f"{what}: {name} {c}: one value per node", x.shape, (len(nodes),))
                if cmp.fails:
                    return cmp.result()
                y = np.array([float(v) for v in e[c]])
                # the largest contribution sets the scale
                big = max(np.abs(np.array(e[k], float)).max() for k in NORMAL[:5]) \
                    if c in ("sig_zz", "sig_zz_m") else np.abs(y).max()
                d = np.abs(x[ids] - y)
                k = int(d.argmax())
                cmp.true(f"{what}: {name} {c} at {nodes[ids[k]]}: got {x[ids][k]!r}, "
                         f"specified {y[k]!r}", bool(d.max() <= rel * big) if big or d.max() else True)
                cmp.true(f"{what}: {name} {c}: stress outside its region",
                         not out or float(np.abs(x[out]).max()) == 0.0)
        # points of the section, in one call, and points outside it
        pts = [p for p, _ in inner] + void
        vals = sec.get_stress_at_points(pts, **kw)
        cmp.eq(f"{what}: one result per point", len(vals), len(pts))
        if cmp.fails:
            return cmp.result()
        mods = []
        for _, l in inner:
            m = real.mat_for(t, scheme, l) or real.DEFAULT_REC
            mods.append(m["E"][0] / m["E"][1])
        e = stress.stress_env(t, fenv, load, case["scale"], [p for p, _ in inner], mods)
        big = max(abs(float(v)) for k in NORMAL[:5] for v in e[k])
        for (p, _), v, y in zip(inner, vals, e["sig_zz"]):
            if v is None:
                cmp.true(f"{what}: point {p} inside the section has no stress", False)
                continue
            cmp.near(f"{what}: sig_zz at {p}", v[0], float(y), rel * big)
            cmp.true(f"{what}: shear at {p} without shear actions", v[1] == 0 and v[2] == 0)
        for p, v in zip(void, vals[len(inner):]):
            cmp.true(f"{what}: point {p} outside the section has stress {v}", v is None)
        # law of the specification: the resultants are the actions
        xe = stress.stress_env(t, env, load, 1, [], [])
        terms.run_defs(t["defs"]["resultants"], xe)
        for r, a in (("resN", "N"), ("resMxx", "Mxx"), ("resMyy", "Myy")):
            cmp.true(f"specification: {r} = {xe[r]}, action {xe[a]}", xe[r] == xe[a])
        laws += 1
    return cmp.result(loads=laws)


FAMILIES = [
    dict(X="G2a", Y="G2b", codes="CodesHalf1"),
    dict(X="G2a", Y="G2b", codes="CodesHalf2", minlab=2),
    dict(X="G2c", Y="G2a", codes="CodesFine2", sim=400),
    dict(X="G3a", Y="G3b", codes="CodesHalf2", sim=300, minlab=2),
    dict(X="G3b", Y="G3w", codes="CodesSolid3", sim=200, minlab=2),
    dict(X="G3b", Y="G3w", codes="CodesRing2", sim=300),
    dict(X="G2b", Y="G3a", codes="CodesRect3", sim=300, minlab=2),
    dict(X="G5a", Y="G5a", codes="CodesNest", sim=100),
    dict(X="G5a", Y="G3w", codes="CodesSieve2", sim=100),
]


def run(chk: core.Check):
    fams = [dict(f) for f in FAMILIES]
    if chk.thorough:
        for f in fams:
            if f.get("sim"):
                f["sim"] *= 10
    t = common.tab()
    common.warm("stress")
    words = stress.load_words(chk, "Normal", 2, None)
    words += stress.load_words(chk, "Normal", 5, 4000 if chk.thorough else 300)
    groups = common.sections(chk, fams)
    for fam, recs in zip(fams, groups):
        cases = []
        for s in common.sample(chk, recs, 4000 if chk.thorough else 130):
            order = list(range(len(s["regs"])))
            chk.rng.shuffle(order)
            labs = {r["lab"] for r in s["regs"]}
            cases.append({
                "sec": s, "pl": chk.rng.randrange(len(t["placements"])),
                "scheme": chk.rng.randrange(len(t["schemes"])) if len(labs) > 1
                else chk.rng.choice([0, 0, 1, 5]),
                "merge": chk.rng.random() < 0.6, "order": order,
                "compound": chk.rng.random() < 0.2, "mesh": chk.rng.choice([0, 0, 1, 2]),
                "loads": chk.rng.choice(words)["loads"][-3:], "scale": chk.rng.choice([1, 1000, 1e6]),
                "rseed": chk.rng.randrange(10**6),
            })
        chk.replay(f"{fam['X']}x{fam['Y']} {fam['codes']}", "c13:replay", cases)
    chk.assumptions += ["lattice sections, the listed materials and schemes"]
