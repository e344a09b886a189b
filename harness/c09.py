"""C09: results do not depend on the history of analyses."""

from __future__ import annotations

import common
import core
import life
import numpy as np

_AV = None
_CANON: dict[str, object] = {}
# getters whose value comes out of an iterative solver
PLASTIC = {"get_pc", "get_pc_p", "get_s", "get_mp", "get_sp", "get_mp_p", "get_sf", "get_sf_p"}
TORS = {"get_j", "get_ej"}


def canon(case, k):
    c = case["sections"][k]
    key = repr((c["sec"]["lab"], c["sec"]["grid"], c["pl"], c["mesh"], c["scheme"], case["acts"]))
    if key not in _CANON:
        if len(_CANON) > 60:
            _CANON.clear()
        _CANON[key] = life.canonical(case, k)
    return _CANON[key]


def scales(case, k, canon_):
    """Natural size of a quantity from its physical dimension."""
    t = common.tab()
    c = case["sections"][k]
    a = canon_["get_area"][0]
    ext = a**0.5
    com = c["form"] == "comp"
    E = canon_["get_e_eff"][0] if com else 1.0
    Y = max(canon_["get_mp"]) / max(canon_["get_c_size"][0], 1e-300) ** 3 if com else 1.0
    rho = canon_["get_mass"][0] / a if com else 1.0
    L = max(ext, canon_["get_c_size"][0])

    def f(v, getter):
        p = t["dim"][v]
        return L ** p[0] * E ** p[1] * Y ** p[2] * rho ** p[3]

    return f


def compare(cmp, case, k, s, done, tag, cgs):
    global _AV
    t = common.tab()
    if _AV is None:
        _AV = life.avail_table()
    form = case["sections"][k]["form"]
    ref = canon(case, k)
    if "get_c_size" not in ref:
        ext = s.geom.calculate_extents()
        ref["get_c_size"] = (max(map(abs, ext)) + max(ext[1] - ext[0], ext[3] - ext[2]),)
    sc = scales(case, k, ref)
    for i in _AV[(form, frozenset(done))]:
        r = t["catalogue"][i - 1]
        got = life.as_tuple(getattr(s.sec, r["get"])())
        exp = ref[r["get"]]
        for v, g, e in zip(r["vals"], got, exp):
            rel = 1e-9
            if r["get"] in PLASTIC:
                rel = 1e-5
            elif r["need"] in ("warp", "tors"):
                rel = 1e-3 if cgs else 1e-8
            if v == "phi":
                d = abs(float(g) - float(e)) % 180
                cmp.true(f"{tag}: {r['get']} {g!r} differs from {e!r}", min(d, 180 - d) < 1e-4
                         or abs(ref["get_ip" if form == "geo" else "get_eip"][0]
                                - ref["get_ip" if form == "geo" else "get_eip"][1])
                         < 1e-7 * ref["get_ip" if form == "geo" else "get_eip"][0])
                continue
            tol = rel * max(abs(float(e)), 0.0) + rel * (1e-1 if cgs else 1e-2) * sc(v, r["get"])
            cmp.near(f"{tag}: {r['get']} {v}", g, e, tol)


def same_arrays(a, b):
    return len(a) == len(b) and all(
        x.keys() == y.keys() and all(
            x[k] == y[k] if isinstance(x[k], str) else np.array_equal(x[k], y[k], equal_nan=True)
            for k in x)
        for x, y in zip(a, b))


def near_arrays(a, b, rel):
    if len(a) != len(b):
        return "number of materials"
    for x, y in zip(a, b):
        m = max([np.abs(v).max() for k, v in y.items() if not isinstance(v, str)] + [1e-300])
        for k in y:
            if isinstance(y[k], str):
                if x[k] != y[k]:
                    return k
            elif not np.all(np.abs(x[k] - y[k]) <= rel * m):
                return f"{k} by {np.abs(x[k] - y[k]).max():.3g} of {m:.3g}"
    return None


def replay(case):
    cmp = core.Cmp()
    ss = []
    for k in range(len(case["sections"])):
        c = case["sections"][k]
        if case["share"] and k:
            g = ss[0].geom
        else:
            g = life.make_geom(case, k)
        ss.append(life.Sess(c["sec"], g, c["form"] == "comp", case["acts"],
                            time_info=case.get("timed", False)))
    geo = [life.snapshot(s.geom) for s in ss]
    cgs = [False] * len(ss)
    for k in range(len(ss)):
        canon(case, k)
    for i, h in enumerate(case["hist"]):
        k = h["s"] - 1
        s = ss[k]
        tag = f"after {'-'.join(x['op'] for x in case['hist'][: i + 1])}"
        op = h["op"]
        ret = None
        try:
            with life.quiet():
                ret = s.do(op)
        except (RuntimeError, ValueError):
            if h["ok"]:
                raise
        op = op.removesuffix("Timed")
        if not h["ok"]:
            pass
        elif op.endswith("Cgs"):
            cgs[k] = True
        elif op == "Warp":
            cgs[k] = False
        elif op == "Frame" and "W" not in h["done"]:
            cgs[k] = False
        if op == "Remesh":
            for j, x in enumerate(ss):
                if x.geom is s.geom:
                    new = life.snapshot(x.geom)
                    cmp.eq(f"{tag}: geometry changed by meshing", [q for q in life.diff(geo[j], new)
                                                                  if q != "mesh"], [])
                    geo[j] = new
        for j, x in enumerate(ss):
            cmp.eq(f"{tag}: geometry or mesh of section {j + 1} changed by {op}",
                   life.diff(geo[j], life.snapshot(x.geom)), [])
            cmp.true(f"{tag}: nodes or elements of section {j + 1} changed by {op}", x.intact())
            for o, sp, arr in x.posts:
                cmp.true(f"{tag}: stresses returned by {o} changed",
                         same_arrays(life.stress_arrays(sp), arr))
        if h["ok"] and op.startswith("Stress"):
            bad = near_arrays(ret, canon(case, k)[op], 1e-3 if cgs[k] else 1e-8)
            cmp.eq(f"{tag}: stresses of {op} differ from a fresh section's", bad, None)
        if h["ok"] and op.startswith("Points"):
            ref = canon(case, k)[op]
            m = max(abs(v) for p in ref for v in p) + 1e-300
            rel = 1e-3 if cgs[k] else 1e-8
            cmp.true(f"{tag}: {op} differs from a fresh section's {ret} {ref}",
                     len(ret) == len(ref) and all(
                         p is not None and all(abs(a - b) <= rel * m for a, b in zip(p, q))
                         for p, q in zip(ret, ref)))
        if op.startswith("Fibre"):
            cmp.true(f"{tag}: export differs from a fresh section's", ret == canon(case, k)[op])
        last = h["done"]
        compare(cmp, case, k, s, last, tag, cgs[k])
    for k, s in enumerate(ss):
        last = [h["done"] for h in case["hist"] if h["s"] == k + 1]
        compare(cmp, case, k, s, last[-1] if last else [], "at the end", cgs[k])
    return cmp.result()


def run(chk: core.Check):
    from threading import Thread

    common.tab()
    w = Thread(target=common.warm, args=("stress",))
    w.start()
    pool = life.section_pool(chk, 60 if chk.thorough else 24)
    q = not chk.thorough
    mut = life.words(chk, 1, 5 if q else 6, "OpsMut")
    one = life.words(chk, 1, 8, "OpsHist", sim=200 if q else 3000, seed=1)
    two = life.words(chk, 2, 9, "OpsHist", sim=200 if q else 3000, seed=2)
    pairs = life.words(chk, 1, 2 if q else 3, "OpsHist")
    w.join()
    for what, recs, cap in (("words of analyses", mut, 500 if q else 10**9),
                            ("one section", one, 450 if q else 5000),
                            ("two sections", two, 450 if q else 5000),
                            ("all short words", pairs, 1500 if q else 20000)):
        cases = []
        for r in common.sample(chk, recs, cap):
            if "hist" in r:
                c = life.build_case(chk, r, pool, share=chk.rng.random() < 0.6)
                c["timed"] = chk.rng.random() < 0.1
                # every word of analyses starts from what it needs
                if what == "all short words":
                    pre = [("Geom", ["G"]), ("Warp", ["G", "W"]), ("Plastic", ["G", "W", "P", "PS"])]
                    n = chk.rng.randint(0, 3)
                    if n:
                        c["hist"] = prefix(c["hist"], pre[:n], c["sections"][0]["form"])
                cases.append(c)
        chk.replay(what, "c09:replay", cases, chunk=4)


def prefix(hist, pre, form):
    """The same word after some analyses: acceptance only grows, so only
    calls accepted from there on are kept as they are."""
    base = set(pre[-1][1])
    out = [{"s": 1, "op": o, "ok": True, "done": d} for o, d in pre]
    for h in hist:
        if not h["ok"]:
            continue
        d = base | set(h["done"])
        if "P" in d and "G" in d and h["op"].startswith("Plastic"):
            d.add("PS")
        out.append({"s": 1, "op": h["op"], "ok": True, "done": sorted(d)})
        base = d
    return out
