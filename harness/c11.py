"""C11: plastic axes balance the yield forces; plastic moduli are exact."""

from __future__ import annotations

import math
from fractions import Fraction

import common
import core
import real
import terms


def corner_env(s, env, pl, scheme, t):
    """Triangles about the centroid and the regions' vertices, for Clip and FirstYield."""
    cx, cy = env["cx"], env["cy"]
    tri = {n: [] for n in ("t1x", "t1y", "t2x", "t2y", "t3x", "t3y", "tA2", "tF")}
    rv = {n: [] for n in ("rvx", "rvy", "rvE", "rvF")}
    for r, e, f in zip(s["regs"], env["mE"], env["mFy"]):
        for tr in r["tris"]:
            p = [pl.exact(v) for v in tr]
            for k in range(3):
                tri[f"t{k + 1}x"].append(float(p[k][0] - cx))
                tri[f"t{k + 1}y"].append(float(p[k][1] - cy))
            tri["tA2"].append(float(abs(real_cross(p))))
            tri["tF"].append(float(f))
        for v in sorted({tuple(x[0]) for x in r["edges"]}):
            x, y = pl.exact(v)
            rv["rvx"].append(x)
            rv["rvy"].append(y)
            rv["rvE"].append(e)
            rv["rvF"].append(f)
    env.update(tri)
    env.update(rv)


def real_cross(p):
    return (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[1][1] - p[0][1]) * (p[2][0] - p[0][0])


def plastic_env(t, env, nx, ny, d):
    e = dict(env)
    e.update(nx=nx, ny=ny, dd=d)
    return terms.run_defs(t["defs"]["clip"], e)


def build(case, t):
    from sectionproperties.analysis import Section

    s = case["sec"]
    pl = real.Placement(t["placements"][case["pl"]])
    scheme = t["schemes"][case["scheme"]]
    env = real.leaf_env(s, t, scheme, pl)
    geom = real.geometry(s, t, scheme, pl, merge=case["merge"], order=case["order"],
                         force_compound=case["compound"])
    real.make_mesh(geom, case["mesh"])
    sec = Section(geom)
    corner_env(s, env, pl, scheme, t)
    return s, pl, env, sec


def specified_modulus(t, env, nx, ny, d, tol):
    """The modulus about the axis that really balances, near d (bisection on the spec's force)."""
    lo, hi = d - tol, d + tol
    for _ in range(40):
        m = (lo + hi) / 2
        e = plastic_env(t, env, nx, ny, m)
        if e["fAbove"] > e["fBelow"]:
            lo = m
        else:
            hi = m
    return plastic_env(t, env, nx, ny, (lo + hi) / 2)["mPl"]


def check_axis(cmp, t, env, what, nx, ny, d, got, D):
    e = plastic_env(t, env, nx, ny, d)
    tol = 4e-6 * (1 + D)
    up = plastic_env(t, env, nx, ny, d - tol)
    dn = plastic_env(t, env, nx, ny, d + tol)
    f = 1e-9 * e["fTotal"]
    cmp.true(f"{what}: plastic axis at {d!r} from the centroid: force above {e['fAbove']!r}, "
             f"below {e['fBelow']!r}",
             up["fAbove"] >= up["fBelow"] - f and dn["fAbove"] <= dn["fBelow"] + f)
    # the first moment is stationary at the balanced axis
    chord = (up["fAbove"] - dn["fAbove"]) / (2 * tol)
    cmp.near(f"{what}: plastic modulus", got, e["mPl"],
             1e-9 * e["mPl"] + 4 * chord * tol * tol + 1e-12 * e["fTotal"] * D)


def levels(cmp, case, s, pl, env, pc):
    """Bracket of the plastic axes by exact forces at lattice levels (axis-parallel placements)."""
    p = pl.p
    if not (p["b"] == 0 == p["c"] or p["a"] == 0 == p["e"]):
        return 0
    for key, lev, k in (("right", "xlev", 0), ("above", "ylev", 1)):
        force = [sum(f * r[m] for f, r in zip(env["mFy"], s[key])) for m in range(len(s[lev]))]
        tot = force[0]
        # last level with at least half above it; first one with at most half
        a = max(c for c, x in zip(s[lev], force) if 2 * x >= tot)
        b = min(c for c, x in zip(s[lev], force) if 2 * x <= tot)
        axis = k if p["b"] == 0 else 1 - k
        q = [[0, 0], [0, 0]]
        q[0][k], q[1][k] = a, b
        w = sorted(float(pl.exact(v)[axis]) for v in q)
        tol = 4e-6 * (1 + abs(w[0]) + abs(w[1]))
        # a gap between parts: any axis in it balances
        cmp.true(f"plastic centroid {'xy'[axis]} {pc[axis]!r} between lattice lines {w}",
                 w[0] - tol <= pc[axis] <= w[1] + tol)
    return 1


def replay(case):
    t = common.tab()
    cmp = core.Cmp()
    s, pl, env, sec = build(case, t)
    sec.calculate_geometric_properties()
    sec.calculate_plastic_properties()
    comp = sec.is_composite()
    phi = float(sec.get_phi())
    cx, cy = float(env["cx"]), float(env["cy"])
    D = max(float(max(env["vx"]) - min(env["vx"])), float(max(env["vy"]) - min(env["vy"])))
    R = 1 + max(abs(cx), abs(cy))
    sxx, syy = sec.get_mp() if comp else sec.get_s()
    s11, s22 = sec.get_mp_p() if comp else sec.get_sp()
    x, y = sec.get_pc()
    px, py = sec.get_pc_p()
    D += 1e-9 * R
    check_axis(cmp, t, env, "xx", 0.0, 1.0, y - cy, sxx, D)
    check_axis(cmp, t, env, "yy", 1.0, 0.0, x - cx, syy, D)
    c, sn = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    d11 = -(px - cx) * sn + (py - cy) * c
    d22 = (px - cx) * c + (py - cy) * sn
    check_axis(cmp, t, env, "11", -sn, c, d11, s11, D)
    check_axis(cmp, t, env, "22", c, sn, d22, s22, D)
    n = levels(cmp, case, s, pl, env, (x, y))
    return cmp.result(bracketed=n)


FAMILIES = [
    dict(X="G2a", Y="G2b", codes="CodesHalf1"),
    dict(X="G2a", Y="G2b", codes="CodesHalf2", minlab=2),
    dict(X="G2c", Y="G2a", codes="CodesFine2", sim=300),
    dict(X="G3a", Y="G3b", codes="CodesHalf2", sim=300),
    dict(X="G3b", Y="G3w", codes="CodesSolid3", sim=200, minlab=2),
    dict(X="G3b", Y="G3w", codes="CodesRing2", sim=300),
    dict(X="G3b", Y="G3f", codes="CodesRing1", sim=200),
    dict(X="G2b", Y="G3a", codes="CodesRect3", sim=300),
    dict(X="G5a", Y="G5a", codes="CodesNest", sim=100),
    dict(X="G5a", Y="G3w", codes="CodesSieve2", sim=100),
]


def gather(chk, target, fams, cap, filt=lambda s: True):
    t = common.tab()
    groups = common.sections(chk, fams, module="Plastic", emit="EmitPlastic", extra=["LawMonotone"])
    for fam, recs in zip(fams, groups):
        cases = []
        for s in common.sample(chk, [r for r in recs if filt(r)], cap):
            order = list(range(len(s["regs"])))
            chk.rng.shuffle(order)
            labs = {r["lab"] for r in s["regs"]}
            cases.append({
                "sec": s, "pl": chk.rng.randrange(len(t["placements"])),
                "scheme": chk.rng.randrange(len(t["schemes"])) if len(labs) > 1
                else chk.rng.choice([0, 0, 1, 5]),
                "merge": chk.rng.random() < 0.6, "order": order,
                "compound": chk.rng.random() < 0.2, "mesh": chk.rng.choice([0, 1, 2]),
            })
        chk.replay(f"{fam['X']}x{fam['Y']} {fam['codes']}", target, cases)


def run(chk: core.Check):
    fams = [dict(f) for f in FAMILIES]
    if chk.thorough:
        for f in fams:
            if f.get("sim"):
                f["sim"] *= 10
    common.warm("plastic")
    gather(chk, "c11:replay", fams, 6000 if chk.thorough else 150)
    chk.assumptions += ["lattice sections, the listed materials and schemes, sections of 0.1 to 600 units",
                        "axis located to the solver's documented tolerance (1e-6 absolute and relative)"]
