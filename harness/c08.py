"""C08: results are available exactly when their analysis has been performed."""

from __future__ import annotations

import common
import core
import life

_AV = None


def probe(cmp, s, form, done, tag):
    global _AV
    t = common.tab()
    if _AV is None:
        _AV = life.avail_table()
    av = _AV[(form, frozenset(done))]
    for i, r in enumerate(t["catalogue"], 1):
        cmp.n += 1
        try:
            v = life.as_tuple(getattr(s.sec, r["get"])())
        except Exception as e:  # noqa: BLE001
            if i in av:
                cmp.fails.append(f"{tag}: {r['get']} should be available, raised "
                                 f"{type(e).__name__}: {str(e)[:80]}")
            continue
        if i not in av:
            cmp.fails.append(f"{tag}: {r['get']} should be refused, returned {v!r}")
        elif any(x is None for x in v) or len(v) != len(r["vals"]):
            cmp.fails.append(f"{tag}: {r['get']} returned {v!r}")
        elif r["eref"]:
            # relative to a reference modulus it is available alike
            getattr(s.sec, r["get"])(e_ref=2.0)


def state(s):
    """Every stored property, to see that refused calls store nothing."""
    import numpy as np

    d = s.sec.section_props.asdict()
    return {k: (v.tobytes() if isinstance(v, np.ndarray) else v) for k, v in d.items()}


def replay(case):
    cmp = core.Cmp()
    ss = []
    for k in range(len(case["sections"])):
        c = case["sections"][k]
        ss.append(life.Sess(c["sec"], life.make_geom(case, k), c["form"] == "comp", case["acts"]))
        cmp.eq("is_composite", ss[-1].sec.is_composite(), c["form"] == "comp")
        probe(cmp, ss[-1], c["form"], [], "at first")
    for i, h in enumerate(case["hist"]):
        k = h["s"] - 1
        s = ss[k]
        tag = f"after {'-'.join(x['op'] for x in case['hist'][: i + 1])}"
        before = state(s)
        cmp.n += 1
        try:
            with life.quiet():
                s.do(h["op"])
            if not h["ok"]:
                cmp.fails.append(f"{tag}: {h['op']} should be refused")
        except (RuntimeError, ValueError, AttributeError, TypeError) as e:
            if h["ok"]:
                cmp.fails.append(f"{tag}: {h['op']} refused with {type(e).__name__}: {str(e)[:100]}")
            elif not isinstance(e, (RuntimeError, ValueError)):
                cmp.fails.append(f"{tag}: {h['op']} broke with {type(e).__name__}: {str(e)[:100]}")
        if not h["ok"]:
            ch = [a for a, b in state(s).items() if b != before[a]]
            cmp.eq(f"{tag}: stored properties changed by a refused call", ch, [])
        probe(cmp, s, case["sections"][k]["form"], h["done"], tag)
    for k, s in enumerate(ss):
        last = [h["done"] for h in case["hist"] if h["s"] == k + 1]
        probe(cmp, s, case["sections"][k]["form"], last[-1] if last else [], "at the end")
    return cmp.result()


def unmeshed(case):
    """Sections without a mesh, or with a mesh of other regions, are refused."""
    import real
    from sectionproperties.analysis import Section

    cmp = core.Cmp()
    t = common.tab()
    g = real.geometry(case["sec"], t, t["schemes"][case["scheme"]],
                      real.Placement(t["placements"][case["pl"]]))
    cmp.n += 1
    try:
        Section(g)
        cmp.fails.append("a section without a mesh was accepted")
    except ValueError:
        pass
    real.make_mesh(g, 0)
    for x in (g.shift_section(1, 1), g.rotate_section(90), g.mirror_section("x")):
        cmp.n += 1
        try:
            s = Section(x)
        except ValueError:
            continue
        # a mesh that was carried along must be the moved geometry's mesh
        s.calculate_geometric_properties()
        a, b = s.get_c(), x.calculate_centroid()
        if not s.is_composite():
            cmp.near("centroid of a moved meshed geometry", a[0], b[0], 1e-6 * (1 + abs(b[0])))
            cmp.near("centroid of a moved meshed geometry", a[1], b[1], 1e-6 * (1 + abs(b[1])))
    cmp.true("meshed geometry accepted", Section(g) is not None)
    return cmp.result()


def run(chk: core.Check):
    from threading import Thread

    common.tab()
    w = Thread(target=common.warm, args=("stress",))
    w.start()
    pool = life.section_pool(chk, 60 if chk.thorough else 24)
    gate = life.words(chk, 1, 3, "OpsGate")
    mut = life.words(chk, 1, 6 if chk.thorough else 5, "OpsMut")
    two = life.words(chk, 2, 6, "OpsGate", sim=3000 if chk.thorough else 150, seed=1)
    long = life.words(chk, 1, 9, "OpsHist", sim=2000 if chk.thorough else 120, seed=2)
    w.join()
    q = not chk.thorough
    for what, recs, cap in (("all words of 3 calls", gate, 2500 if q else 10**9),
                            ("all words of analyses", mut, 900 if q else 10**9),
                            ("two sections", two, 500 if q else 6000),
                            ("long words", long, 350 if q else 5000)):
        cases = [life.build_case(chk, r, pool) for r in common.sample(chk, recs, cap)]
        chk.replay(what, "c08:replay", cases)
    chk.replay("unmeshed", "c08:unmeshed",
               [{"sec": s, "scheme": chk.rng.randrange(len(common.tab()["schemes"])), "pl": chk.rng.randrange(10)}
                for s in pool])
    chk.exhaustive_parts += ["words of 3 calls (thorough)"]
    chk.assumptions += ["plastic analysis after a frame analysis alone is accepted (its plastic "
                        "results, but not the shape factors, become available)"]
