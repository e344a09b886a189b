"""C19: displayed and stored results state the analysed values."""

from __future__ import annotations

from collections import Counter

import common
import core
import life
import real

_AV = None
FMTS = ["8.6e", ".3f", ".10g", "12.4e", "+.2e", ".0f", "15.7f"]


def rows(text):
    """(label, value) of every data row of a printed table."""
    out = []
    for line in text.splitlines():
        if not line.startswith("│"):
            continue
        cells = [c.strip() for c in line.strip().strip("│").split("│")]
        out.append(tuple(cells))
    return out


def titles(text):
    return [x.strip() for x in text.splitlines() if x.strip().endswith("Section Properties")]


def expected(s, form, done, fmt, tlab, e_ref=1.0):
    t = common.tab()
    out = []
    for i in sorted(_AV[(form, frozenset(done))]):
        r = t["catalogue"][i - 1]
        vals = life.as_tuple(getattr(s.sec, r["get"])())
        labs = r["tlab"] if tlab else r["lab"]
        for lab, v in zip(labs, vals):
            if tlab and r["eref"]:
                v = v / e_ref
            out.append((lab, f"{v:>{fmt}}".strip()))
    return out


def replay(case):
    global _AV
    cmp = core.Cmp()
    t = common.tab()
    if _AV is None:
        _AV = life.avail_table()
    names = dict(map(tuple, t["store"]))
    c = case["sections"][0]
    form = c["form"]
    s = life.Sess(c["sec"], life.make_geom(case, 0), form == "comp", case["acts"])
    steps = [{"op": None, "ok": True, "done": []}, *case["hist"]]
    for i, h in enumerate(steps):
        tag = f"after {'-'.join(str(x['op']) for x in steps[1: i + 1])}"
        if h["op"]:
            try:
                with life.quiet():
                    s.do(h["op"])
            except (RuntimeError, ValueError):
                if h["ok"]:
                    raise
        fmt = FMTS[(case["fmt"] + i) % len(FMTS)]
        with life.quiet() as f:
            if fmt == FMTS[0] and i % 2:
                s.sec.display_results()
            else:
                s.sec.display_results(fmt=fmt)
        exp = expected(s, form, h["done"], fmt, False)
        got = rows(f.getvalue())
        cmp.eq(f"{tag}: displayed table (extra, missing)",
               (sorted((Counter(got) - Counter(exp)).elements()),
                sorted((Counter(exp) - Counter(got)).elements())), ([], []))
        cmp.n += len(exp)
        if form == "comp":
            m = t["materials"][case["erefmat"]]
            for e, er in ((case["eref"], case["eref"]),
                          (real.material(m), m["E"][0] / m["E"][1])):
                with life.quiet() as f:
                    s.sec.display_transformed_results(e_ref=e, fmt=fmt)
                exp = expected(s, form, h["done"], fmt, True, er)
                exp.append(("e_ref", f"{er:>{fmt}}".strip()))
                got = rows(f.getvalue())
                cmp.eq(f"{tag}: transformed table (extra, missing)",
                       (sorted((Counter(got) - Counter(exp)).elements()),
                        sorted((Counter(exp) - Counter(got)).elements())), ([], []))
                cmp.n += len(exp)
        # the stored dictionary
        d = s.sec.section_props.asdict()
        have = {}
        for f2 in ("geo", "comp"):
            for i2 in _AV[(f2, frozenset(h["done"]))]:
                r = t["catalogue"][i2 - 1]
                for q, v in enumerate(r["vals"]):
                    have.setdefault(v, []).append((f2, r["get"], q))
        for v, key, cen in t["storec"]:
            if v not in have:
                cmp.eq(f"{tag}: stored {key} before it is available", d.get(key, None), None)
                continue
            for f2, g, q in have[v]:
                if f2 == form:
                    want = float(life.as_tuple(getattr(s.sec, g)())[q])
                    cmp.near(f"{tag}: stored {key} + {cen} against {g}", d.get(key) + d[cen],
                             want, 1e-12 * (abs(want) + abs(d[cen])))
        for v, key in names.items():
            if v not in have:
                cmp.eq(f"{tag}: stored {key} before it is available", d.get(key, None), None)
                continue
            for f2, g, q in have[v]:
                if f2 != form:
                    continue
                want = life.as_tuple(getattr(s.sec, g)())[q]
                cmp.near(f"{tag}: stored {key} against {g}", d.get(key), want,
                         1e-13 * abs(float(want)))
    return cmp.result()


def run(chk: core.Check):
    from threading import Thread

    common.tab()
    w = Thread(target=common.warm, args=("stress",))
    w.start()
    pool = life.section_pool(chk, 90 if chk.thorough else 30)
    q = not chk.thorough
    mut = life.words(chk, 1, 4 if q else 6, "OpsMut")
    gate = life.words(chk, 1, 6, "OpsHist", sim=60 if q else 2000, seed=1)
    w.join()
    for what, recs, cap in (("all words of analyses", mut, 10**9), ("all calls", gate, 400 if q else 9000)):
        cases = []
        for r in common.sample(chk, recs, cap):
            for _ in range(2 if what[4] == "w" else 1):
                c = life.build_case(chk, r, pool)
                c["fmt"] = chk.rng.randrange(len(FMTS))
                c["eref"] = chk.rng.choice([0.5, 3.0, 200000.0, 12345.678])
                c["erefmat"] = chk.rng.randrange(len(common.tab()["materials"]))
                cases.append(c)
        chk.replay(what, "c19:replay", cases, chunk=4)
