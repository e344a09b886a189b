"""Specification tables, section sources and shared comparisons."""

from __future__ import annotations

import json
from concurrent.futures import ThreadPoolExecutor
from typing import Any

import core
import real
import terms
import tlc

_TAB: dict[str, Any] | None = None


def tab() -> dict[str, Any]:
    global _TAB
    if _TAB is None:
        r = tlc.run("Tables", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        if len(r.records) != 1:
            raise tlc.TLCError("no tables")
        _TAB = r.records[0]
    return _TAB


LAWS = ["LawGreen", "LawAdditive", "LawPositive", "LawHoles", "LawOutside"]


def sections(chk: core.Check, wanted: list[dict[str, Any]], laws=True, module="SectionCases",
             emit="Emit", extra=()) -> list[list[Any]]:
    """Runs the section generator for each wanted family (in parallel).

    A family: X, Y (lattices), codes, sim (number of simulated behaviours or
    None for all), conn, minlab, npl.
    """

    def one(k_w):
        k, w = k_w
        cfg = tlc.cfg_text(
            {"NPLACE": w.get("npl", 1), "NEEDCONN": str(w.get("conn", False)).upper(),
             "MINLAB": w.get("minlab", 1), "TAG": f'"{w.get("tag", k)}"', **w.get("consts", {})},
            {"GX": w["X"], "GY": w["Y"], "CodesAt": w["codes"]},
            [emit, *(LAWS if laws else []), *extra],
            spec=w.get("spec", "Spec"),
        )
        return tlc.run(module, cfg, simulate=w.get("sim"), depth=80,
                       seed=chk.seed * 1000 + k)

    with ThreadPoolExecutor(max_workers=6) as ex:
        runs = list(ex.map(one, enumerate(wanted)))
    out = []
    for w, r in zip(wanted, runs):
        recs = chk.tlc(r, f"{w['X']}x{w['Y']} {w['codes']}"
                       + (f" simulate {w['sim']}" if w.get("sim") else " exhaustive"))
        seen = set()
        uniq = []
        for c in recs:
            if "case" in c:  # an extension of the record
                c.update(c.pop("case"))
            key = json.dumps(c["lab"])
            if key not in seen:
                seen.add(key)
                uniq.append(c)
        out.append(uniq)
    return out


def sample(chk, lst, n):
    if len(lst) <= n:
        return list(lst)
    idx = sorted(chk.rng.sample(range(len(lst)), n))
    return [lst[i] for i in idx]


def warm(level: str = "stress") -> None:
    """Compiles the library's kernels once, before workers are forked."""
    from sectionproperties.analysis import Section
    from sectionproperties.pre import Geometry
    from shapely import Polygon

    g = Geometry(Polygon([(0, 0), (3, 0), (3, 2), (0, 2)]))
    g.create_mesh([0.0])
    try:
        s = Section(g)
        s.calculate_geometric_properties()
        if level in ("warp", "stress"):
            s.calculate_warping_properties()
        if level == "stress":
            s.calculate_stress(n=1, vx=1, mzz=1, mxx=1)
            s.get_stress_at_points([(1, 1)], n=1, vx=1)
        if level in ("plastic",):
            s.calculate_plastic_properties()
    except Exception:  # noqa: BLE001  (a verdict for the replay, not for here)
        pass


def composite(sec, scheme) -> bool:
    """Whether any region of the section has a material of its own."""
    return any(scheme[r["lab"] - 1] for r in sec["regs"])


def merge_env(case, tab_, scheme, pl):
    return real.leaf_env(case, tab_, scheme, pl)


def compare_elastic(cmp: core.Cmp, sec, env: dict[str, Any], names=None, prefix="") -> None:
    """Every elastic retrieval against the specification's formulas."""
    t = tab()
    comp = sec.is_composite()
    EA, I11, I22, delta = (float(env[k]) for k in ("EA", "I11", "I22", "delta"))
    R2 = max(float(x) ** 2 + float(y) ** 2 for x, y in zip(env["vx"], env["vy"]))
    R = R2**0.5
    D = max(float(max(env["vx"]) - min(env["vx"])), float(max(env["vy"]) - min(env["vy"])))
    A = float(env["A"])
    rg = 1e-9
    errI = 1e-9 * I11 + 3e-14 * EA * R2  # absolute error of centroidal second moments
    rc = 1e-9 + 3 * errI / max(I22, 1e-300)
    errC = 1e-9 * D + 1e-13 * R

    phi = sec.get_phi()
    distinct = delta > 1e4 * errI
    if distinct:
        # angle modulo 180 degrees
        d = (2 * float(phi) - float(env["phi2"])) % 360.0
        d = min(d, 360.0 - d)
        cmp.true(
            f"{prefix}principal angle: got {phi!r}, specified {float(env['phi2']) / 2!r} modulo 180",
            d <= 2e-7 + 2 * 57.3 * errI / delta
            # axes within a millionth of the x axis are reported as aligned with it
            + (2 * 57.3 * (1.1e-12 * I11 / (2 * delta)) ** 0.5 if phi == 0 else 0),
        )
        env["phi"] = float(phi)
        terms.run_defs(t["defs"]["pmoduli"], env)
    tol = {
        "A": rg * A, "perim": rg * float(env["perim"]), "mass": rg * float(env["mass"]),
        "EA": rg * EA, "Qx": rg * EA * R, "Qy": rg * EA * R,
        "IxxG": rg * EA * R2, "IyyG": rg * EA * R2, "IxyG": rg * EA * R2,
        "cx": errC, "cy": errC, "Ixx": errI, "Iyy": errI, "Ixy": errI,
        "I11": errI, "I22": errI, "Eeff": rg * float(env["Eeff"]),
        "Geff": rg * float(env["Geff"]), "nuEff": 1e-9,
    }
    for r in t["catalogue"]:
        if r["form"] not in ("any", "comp" if comp else "geo"):
            continue
        if r["need"] not in ("area", "geom") or r["get"] == "get_phi":
            continue
        if names is not None and r["get"] not in names:
            continue
        vals = r["vals"]
        if any(v not in env for v in vals):
            continue
        got = getattr(sec, r["get"])()
        got = got if isinstance(got, tuple) else (got,)
        cmp.eq(f"{prefix}{r['get']} length", len(got), len(vals))
        for v, g in zip(vals, got):
            exp = env[v]
            if v == "perim" and env.get("_perim_none"):
                continue
            cmp.near(f"{prefix}{r['get']} {v}", g, exp, tol.get(v, 4 * rc * abs(float(exp))))
