"""C12: yield moments and shape factors follow from first yield and full plasticity."""

from __future__ import annotations

import math

import c11
import common
import core
import terms

VALS = {
    "get_my": ("Myx", "Myy"), "get_my_p": ("My11", "My22"),
    "get_sf": ("sfxP", "sfxM", "sfyP", "sfyM"), "get_sf_p": ("sf11P", "sf11M", "sf22P", "sf22M"),
}


def replay(case):
    t = common.tab()
    cmp = core.Cmp()
    s, pl, env, sec = c11.build(case, t)
    sec.calculate_geometric_properties()
    comp = sec.is_composite()
    I11, I22 = float(env["I11"]), float(env["I22"])
    R2 = max(float(x) ** 2 + float(y) ** 2 for x, y in zip(env["vx"], env["vy"]))
    D = max(float(max(env["vx"]) - min(env["vx"])), float(max(env["vy"]) - min(env["vy"])))
    errI = 1e-9 * I11 + 3e-14 * float(env["EA"]) * R2
    # relative error: conditioning of the principal second moments
    rel = 1e-9 + 4 * errI / I22
    # the angle as the section has it (its value is C01's and C02's business)
    phi = float(sec.get_phi())
    env["phi"] = phi
    terms.run_defs(t["defs"]["pmoduli"], env)
    terms.run_defs(t["defs"]["firstyield"], env)
    if comp:
        for g in ("get_my", "get_my_p"):
            for v, x in zip(VALS[g], getattr(sec, g)()):
                cmp.near(f"{v} yield moment", x, env[v], rel * float(env[v]))
    sec.calculate_plastic_properties()
    if comp:
        for g in ("get_my", "get_my_p"):
            for v, x in zip(VALS[g], getattr(sec, g)()):
                cmp.near(f"{v} yield moment after a plastic analysis", x, env[v], rel * float(env[v]))
    cx, cy = float(env["cx"]), float(env["cy"])
    R = 1 + max(abs(cx), abs(cy))
    x, y = sec.get_pc()
    px, py = sec.get_pc_p()
    c, sn = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    prel = {}
    for n, nx, ny, d in (("Sxx", 0.0, 1.0, y - cy), ("Syy", 1.0, 0.0, x - cx),
                         ("S11", -sn, c, -(px - cx) * sn + (py - cy) * c),
                         ("S22", c, sn, (px - cx) * c + (py - cy) * sn)):
        tol = 4e-6 * (1 + D + 1e-9 * R)
        e = c11.plastic_env(t, env, nx, ny, d)
        chord = (c11.plastic_env(t, env, nx, ny, d - tol)["fAbove"]
                 - c11.plastic_env(t, env, nx, ny, d + tol)["fAbove"]) / (2 * tol)
        env[n] = e["mPl"]
        prel[n] = 1e-9 + (4 * chord * tol * tol + 1e-12 * e["fTotal"] * D) / e["mPl"]
    terms.run_defs(t["defs"]["shapecomp" if comp else "shapegeo"], env)
    for g in ("get_sf", "get_sf_p"):
        got = getattr(sec, g)()
        cmp.eq(f"{g} length", len(got), 4)
        for v, z in zip(VALS[g], got):
            n = "S" + {"x": "xx", "y": "yy"}.get(v[2], v[2:4])
            e = float(env[v])
            cmp.near(f"shape factor {v}", z, e, (rel + prel[n]) * e)
        # full plasticity is never reached before first yield
        if g == "get_sf_p" or abs(float(env["Ixy"])) < 1e-12 * I11:
            for k in (0, 2):
                cmp.true(f"{g}: {got[k:k + 2]}: full plasticity not before first yield",
                         max(got[k:k + 2]) >= 1 - 1e-9)
    return cmp.result()


def run(chk: core.Check):
    fams = [dict(f) for f in c11.FAMILIES]
    if chk.thorough:
        for f in fams:
            if f.get("sim"):
                f["sim"] *= 10
    common.warm("plastic")
    c11.gather(chk, "c12:replay", fams, 6000 if chk.thorough else 150)
    chk.assumptions += ["lattice sections, the listed materials and schemes"]
