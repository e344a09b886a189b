"""C15: torsion, shear and warping results obey the theory's laws."""

from __future__ import annotations

import math

import common
import core
import fe
import numpy as np
import real
import stress
import terms

WARP = ["J", "xse", "yse", "x11se", "y22se", "xst", "yst", "Gamma", "Asx", "Asy", "As11", "As22",
        "bxP", "bxM", "byP", "byM", "b11P", "b11M", "b22P", "b22M"]


def reported(sec, needs=("tors", "warp"), names=None):
    """Every reported value of the catalogue, by the specification's names."""
    t = common.tab()
    comp = sec.is_composite()
    out = {}
    for r in t["catalogue"]:
        if r["form"] not in ("any", "comp" if comp else "geo") or r["need"] not in needs:
            continue
        v = getattr(sec, r["get"])()
        v = v if isinstance(v, tuple) else (v,)
        for n, x in zip(r["vals"], v):
            out[n] = float(x)
    return out


def mesh_moduli(sec, fem, where, geo_only):
    """Modulus of every element from the lattice label at its middle."""
    E = np.ones(len(fem.t))
    if geo_only:
        return E
    mid = fem.c.mean(axis=1)
    for k, p in enumerate(mid):
        m = where.mats((float(p[0]), float(p[1])))
        if len(m) != 1:
            raise ValueError("element not inside one region")
        E[k] = next(iter(m.values()))
    return E


def specified(sec, case, env, fem, E):
    """The specified results on the section's own mesh."""
    t = common.tab()
    e = {k: float(env[k]) for k in ("cx", "cy", "EA", "Ixx", "Iyy", "Ixy", "I11", "I22")}
    e["phiA"] = float(sec.get_phi())
    e["nu"] = float(env["nuEff"]) if sec.is_composite() else 0.0
    return fe.solve(fem, E, e, t)


def tolerances(e, fem, rel=1e-6):
    D = float(np.ptp(fem.nodes, axis=0).max())
    Iom = abs(e["Iom"] - e["Qom"] ** 2 / e["EA"]) + abs(e["ys"] * e["Ixom"]) + abs(e["xs"] * e["Iyom"])
    # the shear centre is the difference of two integrals
    sc = D + (abs(e["hn"] * e["sxi"]) + abs(e["tphi"]) + abs(e["hn"] * e["syi"]) + abs(e["tpsi"])) / e["Ds"]
    tol = {"J": rel * 0.1 * e["Ip"], "Gamma": 1e-12 * e["Ip"] ** 2 / e["EA"] + e["slackI"] + rel * Iom + rel * sc * (abs(e["Ixom"]) + abs(e["Iyom"]))}
    for n in ("xse", "yse", "x11se", "y22se"):
        tol[n] = rel * sc
    for n in ("xst", "yst"):
        tol[n] = rel * (D + abs(e["xt"]) + abs(e["yt"]))
    for n in ("bxP", "bxM", "byP", "byM", "b11P", "b11M", "b22P", "b22M"):
        tol[n] = rel * (2 * sc + D * e["Ip"] / e["I22"])
    for n, k, sl in (("Asx", "kxx", e["slackX"]), ("Asy", "kyy", e["slackY"]),
                     ("As11", "k11", 2 * (e["slackX"] + e["slackY"])),
                     ("As22", "k22", 2 * (e["slackX"] + e["slackY"]))):
        q = sl / abs(e[k]) + rel * (e["kxx"] + e["kyy"]) / abs(e[k])
        tol[n] = abs(e[n]) * (q / max(1e-3, 1 - q))
    return tol


def laws(cmp, t, got, e, what):
    env = dict(e)
    env.update(got)
    env["inv1"] = 1 / got["Asx"] + 1 / got["Asy"]
    env["inv2"] = 1 / got["As11"] + 1 / got["As22"]
    for d in t["defs"]["warplaws"]:
        x = terms.ev(d["term"], dict(env, _float=True))
        scale = {"J at most the polar second moment": e["Ip"], "Gamma not negative": abs(e["Iom"]) + 1e-6 * e["Ip"] ** 2 / e["EA"]}
        left = e["slackI"] if "Gamma" in d["name"] else 0.0  # the rule's error on coarse meshes
        cmp.true(f"{what}{d['name']}: slack {x!r}",
                 x >= -left - 1e-6 * scale.get(d["name"], env["EA"] if "area" in d["name"] and "inv" not in d["name"] else 0))


def compare(cmp, got, e, tol, what=""):
    for n in WARP:
        cmp.near(f"{what}{n}", got[n], e[n], tol[n])


def replay(case):
    """A lattice section, meshed by the library, against the weak forms."""
    from sectionproperties.analysis import Section

    t = common.tab()
    cmp = core.Cmp()
    s = case["sec"]
    pl = real.Placement(t["placements"][case["pl"]])
    scheme = t["schemes"][case["scheme"]]
    env = real.leaf_env(s, t, scheme, pl)
    geom = real.geometry(s, t, scheme, pl, merge=case["merge"], order=case["order"],
                         force_compound=case["compound"])
    real.make_mesh(geom, case["mesh"])
    sec = Section(geom)
    sec.calculate_geometric_properties()
    sec.calculate_warping_properties(solver_type="direct")
    got = reported(sec)
    fem = fe.Mesh(sec.mesh["vertices"], sec.mesh["triangles"])
    cmp.true("mesh of straight six-node triangles", fem.straight)
    where = stress.Where(s, t, scheme, pl)
    E = mesh_moduli(sec, fem, where, not sec.is_composite())
    e = specified(sec, case, env, fem, E)
    tol = tolerances(e, fem)
    compare(cmp, got, e, tol)
    laws(cmp, t, got, e, "")
    if cmp.fails:
        return cmp.result()
    # the iterative solver, and the frame analysis with either
    o = Section(geom)
    o.calculate_geometric_properties()
    refused = 0
    try:
        o.calculate_warping_properties(solver_type="cgs")
    except RuntimeError as err:
        # the iterative solver may give up (documented), never on sections of ordinary size
        refused = 1
        if "multiplier" not in str(err) or pl.s2 >= 1:
            raise
    else:
        loose = tolerances(e, fem, 2e-3)
        g2 = reported(o)
        for n in WARP:
            cmp.near(f"cgs against direct: {n}", g2[n], got[n], loose[n])
    comp = sec.is_composite()
    base = [*(sec.get_eic() if comp else sec.get_ic())]
    for solver, f in (("direct", 1.0), ("cgs", 2e3)):
        fr = Section(geom)
        try:
            ea, ixx, iyy, ixy, j, phi = fr.calculate_frame_properties(solver_type=solver)
        except RuntimeError as err:
            if "multiplier" not in str(err) or pl.s2 >= 1 or solver == "direct":
                raise
            continue
        what = f"frame analysis ({solver}): "
        cmp.near(what + "area", float(ea), float(env["A"]), 1e-9 * float(env["A"]))
        for n, x, y in zip(("Ixx", "Iyy", "Ixy"), (ixx, iyy, ixy), base):
            cmp.near(what + n, float(x), float(y), 1e-9 * (base[0] + base[1]))
        cmp.near(what + "J", float(j), got["J"], 1e-7 * f * e["Ip"])
        cmp.near(what + "angle", float(phi), float(sec.get_phi()), 1e-9)
        cmp.near(what + "stored J", reported(fr, ("tors",))["J"], float(j), 0)
    return cmp.result(refused=refused)


def replay_sym(case):
    """The specification's own symmetric meshes, refined: symmetry and convergence."""
    from sectionproperties.analysis import Section

    t = common.tab()
    cmp = core.Cmp()
    s = case["sec"]
    pl = real.Placement(t["placements"][case["pl"]])
    scheme = t["schemes"][case["scheme"]]
    env = real.leaf_env(s, t, scheme, pl)
    where = stress.Where(s, t, scheme, pl)
    hist = []
    for lev in range(case["levels"]):
        geom = real.geometry(s, t, scheme, pl, merge=True)
        nodes, el, lab = fe.lattice_mesh(s, pl, lev)
        geom.mesh = {"vertices": nodes, "triangles": el, "triangle_attributes": lab.reshape(-1, 1)}
        sec = Section(geom)
        sec.calculate_geometric_properties()
        sec.calculate_warping_properties()
        got = reported(sec)
        fem = fe.Mesh(nodes, el)
        E = mesh_moduli(sec, fem, where, not sec.is_composite())
        e = specified(sec, case, env, fem, E)
        tol = tolerances(e, fem)
        what = f"refined {lev} times: "
        compare(cmp, got, e, tol, what)
        laws(cmp, t, got, e, what)
        # symmetry: the axes' directions after placement
        n = math.hypot(float(pl.a), float(pl.c))
        ex = (float(pl.a) / n, float(pl.c) / n)   # image of the lattice's x direction
        n = math.hypot(float(pl.b), float(pl.e))
        ey = (float(pl.b) / n, float(pl.e) / n)
        tsc = 2 * max(tol["xse"], tol["yse"])
        tst = 2 * max(tol["xst"], tol["yst"])
        sc = (got["xse"] - e["cx"], got["yse"] - e["cy"])
        st = (got["xst"] - e["cx"], got["yst"] - e["cy"])
        # centroidal (principal) coordinates are those of the same point
        cmp.near(what + "distance of the shear centre in principal axes",
                 math.hypot(got["x11se"], got["y22se"]), math.hypot(*sc), tsc)
        along = {"x": [ex], "y": [ey], "xy": [ex, ey], "rot": [ex, ey]}[case["sym"]]
        for u in along:
            cmp.near(what + "shear centre on the axis of symmetry", sc[0] * u[0] + sc[1] * u[1], 0.0, tsc)
            cmp.near(what + "Trefftz shear centre on the axis of symmetry", st[0] * u[0] + st[1] * u[1], 0.0, tst)
        if len(along) == 2:
            for b in ("bxP", "byP", "b11P", "b22P"):
                cmp.near(what + f"{b} of a doubly symmetric section", got[b], 0.0, 2 * tol[b])
        hist.append((got, e))
        if cmp.fails:
            return cmp.result()
    # nested meshes: the energies only come down (J), the shear areas too when nu = 0
    for (a, e), (b, _) in zip(hist, hist[1:]):
        cmp.true(f"J rises under nested refinement: {a['J']!r} -> {b['J']!r}", b["J"] <= a["J"] + 1e-7 * e["Ip"])
        if e["nu"] == 0:
            for n in ("Asx", "Asy", "As11", "As22"):
                cmp.true(f"{n} rises under nested refinement: {a[n]!r} -> {b[n]!r}",
                         b[n] <= a[n] * (1 + 1e-6))
    if len(hist) >= 3:
        # ... and settle
        for n in ("J", "Asx", "Asy"):
            d1 = abs(hist[-2][0][n] - hist[-3][0][n])
            d2 = abs(hist[-1][0][n] - hist[-2][0][n])
            cmp.true(f"{n} converges: steps {d1!r}, {d2!r}", d2 <= 0.9 * d1 + 1e-6 * abs(hist[-1][0][n]))
    return cmp.result(levels=len(hist))


def replay_same(case):
    """Materials of equal modulus (and zero Poisson's ratio): modulus times geometric values."""
    from sectionproperties.analysis import Section

    t = common.tab()
    cmp = core.Cmp()
    s = case["sec"]
    pl = real.Placement(t["placements"][case["pl"]])

    def build(scheme, mesh=None):
        g = real.geometry(s, t, scheme, pl, merge=case["merge"], force_compound=case["compound"])
        if mesh is None:
            real.make_mesh(g, case["mesh"])
        else:
            g.mesh = mesh
        sec = Section(g)
        sec.calculate_geometric_properties()
        sec.calculate_warping_properties()
        return g, sec

    g0, s0 = build([0, 0, 0])
    base = reported(s0, ("area", "geom", "tors", "warp"))
    lever = abs(base["cx"]) + abs(base["cy"]) + 1
    for scheme, nu0 in (([5, 5, 5], True), ([1, 1, 1], False), ([1, 6, 1], False)):
        _, s1 = build(scheme, g0.mesh)
        Em = t["materials"][scheme[0] - 1]["E"]
        Em = Em[0] / Em[1]
        got = reported(s1, ("area", "geom", "tors", "warp"))
        for n, x in got.items():
            if n not in base or n in ("nuEff",):
                continue
            if not nu0 and n in ("xse", "yse", "x11se", "y22se", "Gamma", "Asx", "Asy", "As11", "As22",
                                 "bxP", "bxM", "byP", "byM", "b11P", "b11M", "b22P", "b22M"):
                continue
            L, M, F, R = t["dim"][n]
            want = base[n] * Em**M
            big = abs(want)
            if L >= 1:  # a coordinate or moment may vanish; the section's size sets the scale
                big = max(big, base["A"] ** (L / 2) * Em**M, base["A"] ** (L / 2) * Em**M * (lever / base["A"] ** 0.5) ** min(L, 1))
            if n == "phi":
                d = abs(x - want) % 180
                ok = min(d, 180 - d) <= 1e-5 or abs(base["I11"] - base["I22"]) < 1e-6 * base["I11"]
                cmp.true(f"materials {scheme}: phi {x!r}, geometric {want!r}", ok)
                continue
            if abs(base["I11"] - base["I22"]) < 1e-6 * base["I11"] and n[-2:] in ("11", "22", "1P", "1M", "2P", "2M", "se") \
                    and n not in ("I11", "I22", "xse", "yse"):
                continue
            cmp.near(f"materials {scheme}: {n} is {Em} ^ {M} times the geometric value", x, want, 1e-6 * big)
    return cmp.result()


def replay_known(case):
    """Rectangles: the series solution bounds the result from below and is approached."""
    from sectionproperties.analysis import Section
    from sectionproperties.pre import Geometry
    from shapely import Polygon

    t = common.tab()
    cmp = core.Cmp()
    pl = real.Placement(t["placements"][case["pl"]])
    r = case["ratio"]
    w, h = (r, 1) if case["wide"] else (1, r)
    k = 12  # side in lattice units
    g = Geometry(Polygon([pl(p) for p in ((0, 0), (w * k, 0), (w * k, h * k), (0, h * k))]))
    s = float(pl.s2) * k * k
    A = w * h * s
    c = case["coef"] / 1e9
    J = c * r * s * s
    ms = A / case["n"]
    g.create_mesh([ms])
    sec = Section(g)
    sec.calculate_geometric_properties()
    sec.calculate_warping_properties()
    got = reported(sec)
    cmp.true(f"{w} x {h}: J {got['J']!r} below the exact {J!r}", got["J"] >= J * (1 - 1e-6))
    cmp.near(f"{w} x {h}: J", got["J"], J, 0.01 * J)
    for n in ("As11", "As22") if abs(w - h) else ("Asx", "Asy"):
        cmp.true(f"{w} x {h}: {n} {got[n]!r} below 5/6 A", got[n] >= 5 / 6 * A * (1 - 1e-6))
        cmp.near(f"{w} x {h}: {n}", got[n], 5 / 6 * A, 0.02 * A)
    return cmp.result()


FAMILIES = [
    dict(X="G2a", Y="G2b", codes="CodesHalf1", conn=True),
    dict(X="G2a", Y="G2b", codes="CodesHalf2", conn=True, minlab=2),
    dict(X="G3a", Y="G3b", codes="CodesHalf1", conn=True, sim=150),
    dict(X="G3a", Y="G3b", codes="CodesHalf2", conn=True, sim=200, minlab=2),
    dict(X="G3b", Y="G3w", codes="CodesSolid3", conn=True, sim=100, minlab=2),
    dict(X="G3b", Y="G3w", codes="CodesRing2", conn=True, sim=200),
    dict(X="G3s", Y="G3f", codes="CodesRing1", conn=True, sim=60),
    dict(X="G5a", Y="G3w", codes="CodesSieve1", conn=True),
]
SYM = [
    *(dict(X="G2s", Y="G2s", codes="CodesSym", conn=True, sym=m) for m in ("x", "y", "rot", "xy")),
    *(dict(X="G3s", Y="G3f", codes="CodesRing2", conn=True, sim=120, sym=m) for m in ("x", "y", "rot", "xy")),
    *(dict(X="G3s", Y="G3s", codes="CodesHalf1", conn=True, sim=120, sym=m) for m in ("x", "y", "rot", "xy")),
]


def run(chk: core.Check):
    fams = [dict(f) for f in FAMILIES]
    if chk.thorough:
        for f in fams:
            if f.get("sim"):
                f["sim"] *= 10
    t = common.tab()
    common.warm("warp")
    for fam, recs in zip(fams, common.sections(chk, fams)):
        cases, same = [], []
        for s in common.sample(chk, recs, 2000 if chk.thorough else 75):
            order = list(range(len(s["regs"])))
            chk.rng.shuffle(order)
            labs = {r["lab"] for r in s["regs"]}
            c = {
                "sec": s, "pl": chk.rng.randrange(len(t["placements"])),
                "scheme": chk.rng.randrange(len(t["schemes"])) if len(labs) > 1
                else chk.rng.choice([0, 0, 1, 5]),
                "merge": chk.rng.random() < 0.6, "order": order,
                "compound": chk.rng.random() < 0.2, "mesh": chk.rng.choice([0, 1, 2, 3, 4]),
            }
            cases.append(c)
            if chk.rng.random() < 0.15:
                same.append(c)
        chk.replay(f"{fam['X']}x{fam['Y']} {fam['codes']}", "c15:replay", cases)
        chk.replay(f"{fam['X']}x{fam['Y']} {fam['codes']} equal moduli", "c15:replay_same", same)
    sf = [dict(f, spec="SymSpec", consts={"SYM": f'"{f["sym"]}"'}) for f in SYM]
    groups = common.sections(chk, sf, module="Symmetric", emit="EmitSym", extra=["LawSymmetric"])
    for fam, recs in zip(sf, groups):
        cases = []
        for s in common.sample(chk, recs, 300 if chk.thorough else 14):
            labs = {r["lab"] for r in s["regs"]}
            cases.append({"sec": s, "sym": s["sym"], "pl": chk.rng.randrange(len(t["placements"])),
                          "scheme": chk.rng.randrange(len(t["schemes"])) if len(labs) > 1
                          else chk.rng.choice([0, 0, 1]),
                          "levels": 3 if chk.thorough or chk.rng.random() < 0.3 else 2})
        chk.replay(f"symmetric {fam['sym']} {fam['X']}x{fam['Y']} {fam['codes']}", "c15:replay_sym", cases)
    known = [{"ratio": r, "coef": c, "wide": w, "n": n, "pl": chk.rng.randrange(len(t["placements"]))}
             for r, c in t["knownj"] for w in (True, False) for n in (60, 250)]
    chk.replay("rectangles", "c15:replay_known", known)
    chk.assumptions += ["lattice sections, the listed materials and schemes; connected sections",
                        "reference solution on the section's own mesh"]
