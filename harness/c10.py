"""C10: all results transform covariantly with the section."""

from __future__ import annotations

import math
from fractions import Fraction

import c15
import common
import core
import numpy as np
import real
import terms
import tlc

KINDS = ("area", "geom", "tors", "warp", "plast", "shape")
EXTREME_M = 1e-9


class Map(real.Placement):
    """An accumulated similarity of Covariance.tla."""

    def __init__(self, q, base=None):
        super().__init__({**q, "tx": 0, "ty": 0})
        self.tx, self.ty = Fraction(q["tx"], q["d"]), Fraction(q["ty"], q["d"])
        self.base = base
        self.p["d"] = q["d"] * (base.p["d"] if base else 1)  # 1: placed coordinates are integers

    def exact(self, q):
        if self.base is not None:
            q = self.base.exact(q)
        x, y = q
        return (self.a * x + self.b * y + self.tx, self.c * x + self.e * y + self.ty)


def scaled(t, fe, ff):
    """The materials with all moduli and strengths multiplied (as floats)."""
    f, g = fe["p"] / fe["q"], ff["p"] / ff["q"]
    out = []
    for m in [*t["materials"], real.DEFAULT_REC]:
        out.append(dict(m, E=[m["E"][0] / m["E"][1] * f, 1], fy=[m["fy"][0] / m["fy"][1] * g, 1]))
    own = {} if f == 1 and g == 1 else {"default": out[-1]}  # (for the regions left without a material)
    return dict(t, materials=out[:-1], **own)


def analyse(geom, conn):
    from sectionproperties.analysis import Section

    sec = Section(geom)
    sec.calculate_geometric_properties()
    if conn:
        sec.calculate_warping_properties()
    sec.calculate_plastic_properties()
    needs = KINDS if conn else tuple(k for k in KINDS if k not in ("tors", "warp"))
    out = c15.reported(sec, needs)
    if conn:
        out["Asxy"] = float(sec.section_props.a_sxy)
        if not math.isfinite(out["Asxy"]):
            out["Asxy"] = 0.0
    return sec, out


def mapped_mesh(mesh, mp):
    v = np.asarray(mesh["vertices"], float)
    a, b, c, e = (float(x) for x in (mp.a, mp.b, mp.c, mp.e))
    w = np.stack([a * v[:, 0] + b * v[:, 1] + float(mp.tx), c * v[:, 0] + e * v[:, 1] + float(mp.ty)], 1)
    tri = np.asarray(mesh["triangles"]).copy()
    if mp.det < 0:
        tri = tri[:, [0, 2, 1, 3, 5, 4]]
    return {"vertices": w, "triangles": tri, "triangle_attributes": np.asarray(mesh["triangle_attributes"]).copy()}


def replay(case):
    t = common.tab()
    cmp = core.Cmp()
    s = case["sec"]
    base = real.Placement(t["placements"][case["pl"]])
    scheme = t["schemes"][case["scheme"]]
    default = not common.composite(s, scheme)
    kw = dict(merge=case["merge"], order=case["order"], force_compound=case["compound"])
    g0 = real.geometry(s, t, scheme, base, **kw)
    real.make_mesh(g0, case["mesh"])
    conn = s["conn"]
    sec0, old = analyse(g0, conn)
    last = case["hist"][-1]
    one = {"p": 1, "q": 1}
    fe, ff = (one, one) if default else (last["fe"], last["ff"])
    mp = Map(last["to"])
    # where the moved coordinates are rounded, regions described with different
    # corners no longer share an edge exactly: only the mesh is followed then
    exact = base.p["d"] == 1 and last["to"]["d"] == 1
    if case["how"] == "library" and not exact:
        case = dict(case, remesh=False)
    whole = Map(last["to"], base)
    t1 = scaled(t, fe, ff)
    if case["how"] == "library":
        g1 = real.geometry(s, t1, scheme, base, **kw)
        for h in case["hist"]:
            a = h["arg"]
            if h["op"] == "shift":
                g1 = g1.shift_section(x_offset=a[0], y_offset=a[1])
            elif h["op"] == "rotate":
                g1 = g1.rotate_section(math.degrees(math.atan2(a[1], a[0])), rot_point=(0, 0))
            elif h["op"] == "mirror":
                g1 = g1.mirror_section("x" if a[0] == 1 else "y", mirror_point=(0, 0))
    else:
        g1 = real.geometry(s, t1, scheme, whole, **kw)
    if case["remesh"]:
        real.make_mesh(g1, case["mesh"])
    else:
        g1.mesh = mapped_mesh(sec0.mesh, mp)
    sec1, new = analyse(g1, conn)
    # sizes
    k = float(abs(mp.det)) ** 0.5
    env = {"_float": True, "ra": float(mp.a) / k, "rb": float(mp.b) / k, "rc": float(mp.c) / k,
           "re": float(mp.e) / k, "kk": k, "tx": float(mp.tx), "ty": float(mp.ty),
           "mm": fe["p"] / fe["q"], "ff": ff["p"] / ff["q"], "nphi": new["phi"]}
    perm = mp.a == 0 or mp.b == 0
    comp = sec0.is_composite()
    for n, x in old.items():
        env["o_" + n] = x
    for n in ("EA", "Eeff", "Geff", "nuEff", "mass"):
        env.setdefault("o_" + n, old["A"] if n == "EA" else 0.0)
    for n in ("xse", "yse", "xst", "yst", "Asx", "Asy", "Asxy", "byP", "bxP", "J", "Gamma", "x11se", "y22se",
              "As11", "As22", "b11P", "b22P"):
        env.setdefault("o_" + n, 1.0)
    for n in ("My11", "My22", "Myx", "Myy"):
        env.setdefault("o_" + n, 0.0)
    env["o_perim"] = old["perim"]
    terms.run_defs(t["defs"]["covany"], env)
    EA, Ixx, Iyy = env["EA"], env["Ixx"], env["Iyy"]
    Ip = Ixx + Iyy
    P0 = np.asarray(sec0.mesh["vertices"], float)
    P1 = np.asarray(sec1.mesh["vertices"], float)
    D = float(np.ptp(P1, axis=0).max())
    R = max(float(np.abs(P1).max()), k * float(np.abs(P0).max()))
    I22 = env["I22"]
    rel = 1e-8 + 10 * (1e-9 * Ip + 3e-14 * EA * R * R) / I22
    distinct = env["I11"] - env["I22"] > 1e-5 * Ip
    names = [d["name"] for d in t["defs"]["covany"]]
    if distinct:
        terms.run_defs(t["defs"]["covprincipal"], env)
        names += [d["name"] for d in t["defs"]["covprincipal"]]
        # the 11 axis is the image of the old one
        cmp.true(f"11 axis: angle {old['phi']!r} before, {new['phi']!r} after", abs(env["s1"]) >= 1 - 1e-9)
    if perm:
        terms.run_defs(t["defs"]["covaxes"], env)
        names += [d["name"] for d in t["defs"]["covaxes"]]
    sc = 0.0
    if conn:
        sc = D + math.hypot(env["xse"] - env["cx"], env["yse"] - env["cy"])
    dp = 8e-6 * (1 + D) * (1 + k)  # plastic axis before and after, each to the solver's tolerance
    F = max(env.get("S11", 0), new.get("Sxx", 0), new["S11"], new["Syy"]) / D  # yield force, order of magnitude
    warp = {r["vals"][0]: r for r in t["catalogue"]}
    wn = {v for r in t["catalogue"] if r["need"] in ("tors", "warp") for v in r["vals"]}
    done = 0
    for n in names:
        if n not in new or n == "Asxy":
            continue
        if n in wn and case["remesh"]:
            continue
        L, M, Fy, Rho = t["dim"][n]
        want = env[n]
        tol = rel * abs(want)
        if n in ("cx", "cy"):
            tol = 1e-9 * D + 1e-12 * R
        elif n in ("Qx", "Qy"):
            tol = 1e-9 * EA * R
        elif n in ("IxxG", "IyyG", "IxyG"):
            tol = 1e-9 * EA * R * R + rel * Ip
        elif L == 4:
            tol = rel * Ip
        elif n == "Gamma":
            tol = 10 * rel * abs(want) + 1e-9 * Ip * Ip / EA * (1 + (sc / D) ** 2)
        elif n in ("xse", "yse", "x11se", "y22se", "xst", "yst"):
            tol = 20 * rel * (sc + D) + 1e-12 * R
        elif n[0] == "b" and L == 1:
            tol = 20 * rel * (2 * sc + D * Ip / I22)
        elif n in ("Asx", "Asy", "As11", "As22"):
            tol = 10 * rel * want * want / (env["mm"] * k * k) * (1 / old["Asx"] + 1 / old["Asy"]) + 20 * rel * want
        elif n in ("xpc", "ypc", "x11pc", "y22pc"):
            if not conn:
                continue  # any axis in a gap balances
            tol = dp + 1e-9 * R
        elif n in ("Sxx", "Syy", "S11", "S22"):
            tol = 1e-7 * abs(want) + 300 * F * dp * dp / D + 4 * rel * abs(want)
        elif n.startswith("sf"):
            tol = (1e-6 + 8 * rel + 300 * F * dp * dp / D / max(min(new["Sxx"], new["Syy"], new["S11"], new["S22"]), 1e-300)) * abs(want)
        elif n in ("nuEff",):
            tol = 1e-9
        elif L == 3:
            tol = 8 * rel * abs(want) * max(1.0, D * D * EA / I22 * 1e-6)
        if n == "perim" and (want < 0 or new["perim"] < 0 or (case["how"] == "library" and not exact)):
            continue
        done += 1
        cmp.near(f"{n} after {[h['op'] for h in case['hist']]}", new[n], want, tol)
    return cmp.result(compared=done)


def dim_law(chk, t):
    """The covariance terms agree with the table of dimensions (specification's law)."""
    env = {"_float": True, "ra": 1.0, "rb": 0.0, "rc": 0.0, "re": 1.0, "kk": 3.0, "tx": 0.0, "ty": 0.0,
           "mm": 5.0, "ff": 7.0, "nphi": 20.0}
    ids = list(t["dim"])
    val = {n: 1.0 + 0.37 * ((i * 7) % 11) for i, n in enumerate(ids)}
    val["Asxy"] = 4.0
    val["EA"], val["Ixx"], val["Iyy"] = 2.0, 40.0, 50.0
    val["IxxG"] = val["Ixx"] + val["EA"] * val["cy"] ** 2
    val["IyyG"] = val["Iyy"] + val["EA"] * val["cx"] ** 2
    val["IxyG"] = val["Ixy"] + val["EA"] * val["cx"] * val["cy"]
    val["rx"], val["ry"] = (val["Ixx"] / 2) ** 0.5, (val["Iyy"] / 2) ** 0.5
    for a, b in (("bxM", "bxP"), ("byM", "byP"), ("b11M", "b11P"), ("b22M", "b22P")):
        val[a] = -val[b]
    val["phi"] = 20.0
    env.update({"o_" + n: x for n, x in val.items()})
    for g in ("covany", "covprincipal", "covaxes"):
        terms.run_defs(t["defs"][g], env)
    bad = []
    for n in ids:
        if n == "phi":
            continue
        L, M, F, _ = t["dim"][n]
        want = val[n] * 3.0**L * 5.0**M * 7.0**F
        if abs(env[n] - want) > 1e-9 * abs(want):
            bad.append(f"{n}: covariance {env[n]}, dimension {want}")
    if bad:
        raise tlc.SpecViolation("; ".join(bad))


def words(chk, kinds, maxlen, sim, tag):
    cfg = tlc.cfg_text({"MAXLEN": maxlen}, {"KINDS": kinds}, ["Emit", "LawSimilar", "LawOrientation", "LawFactors"])
    r = tlc.run("Covariance", cfg, simulate=sim, depth=maxlen + 2, seed=chk.seed * 11 + tag, heap="2g")
    return chk.tlc(r, f"{maxlen} changes of {kinds}" + (f" simulate {sim}" if sim else " exhaustive"))


FAMILIES = [
    dict(X="G2a", Y="G2b", codes="CodesHalf1"),
    dict(X="G2a", Y="G2b", codes="CodesHalf2", minlab=2, conn=True),
    dict(X="G2c", Y="G2a", codes="CodesFine2", sim=300, conn=True),
    dict(X="G3a", Y="G3b", codes="CodesHalf2", sim=300),
    dict(X="G3a", Y="G3b", codes="CodesHalf2", sim=200, minlab=2, conn=True),
    dict(X="G3b", Y="G3w", codes="CodesSolid3", sim=150, minlab=2, conn=True),
    dict(X="G3b", Y="G3w", codes="CodesRing2", sim=200, conn=True),
]


def run(chk: core.Check):
    fams = [dict(f) for f in FAMILIES]
    if chk.thorough:
        for f in fams:
            if f.get("sim"):
                f["sim"] *= 10
    t = common.tab()
    dim_law(chk, t)
    common.warm("warp")
    single = words(chk, "AllKinds", 1, None, 0)
    pool = words(chk, "AllKinds", 2, None, 1) + words(chk, "AllKinds", 4, 6000 if chk.thorough else 300, 2)
    moves = words(chk, "MoveKinds", 1, None, 3) + words(chk, "MoveKinds", 3, 300, 4)
    for fam, recs in zip(fams, common.sections(chk, fams)):
        cases = []
        for s in common.sample(chk, recs, 2500 if chk.thorough else 120):
            order = list(range(len(s["regs"])))
            chk.rng.shuffle(order)
            labs = {r["lab"] for r in s["regs"]}
            how = chk.rng.choice(["library", "direct", "direct"])
            w = chk.rng.choice(moves if how == "library" else chk.rng.choice([single, pool]))
            if any(h["op"] in ("scale",) for h in w["hist"]) and how == "library":
                continue
            cases.append({
                "sec": s, "pl": chk.rng.choice([0, 0, 1, 3, 7]),
                "scheme": chk.rng.randrange(len(t["schemes"])) if len(labs) > 1
                else chk.rng.choice([0, 0, 1, 5]),
                "merge": chk.rng.random() < 0.6, "order": order,
                "compound": chk.rng.random() < 0.2, "mesh": chk.rng.choice([0, 0, 1, 2]),
                "hist": w["hist"], "how": how, "remesh": chk.rng.random() < 0.2,
            })
        chk.replay(f"{fam['X']}x{fam['Y']} {fam['codes']}", "c10:replay", cases)
    chk.assumptions += ["lattice sections, the listed materials and schemes; words of up to four changes"]
