"""C14: stresses superpose, combine, and integrate back to the actions."""

from __future__ import annotations

import math
import random

import numpy as np

import c15
import common
import core
import fe
import real
import stress
import terms

ALL = stress.COMPONENTS
ACT_OF = {"sig_zz_n": "n", "sig_zz_mxx": "mxx", "sig_zz_myy": "myy", "sig_zz_m11": "m11",
          "sig_zz_m22": "m22", "sig_zx_mzz": "mzz", "sig_zy_mzz": "mzz", "sig_zx_vx": "vx",
          "sig_zy_vx": "vx", "sig_zx_vy": "vy", "sig_zy_vy": "vy"}
# interior points and weights exact for polynomials of degree 4
RULE = [(0.445948490915965, 0.223381589678011), (0.091576213509771, 0.109951743655322)]
BARY = [(w, p) for a, w in RULE for p in ((a, a, 1 - 2 * a), (a, 1 - 2 * a, a), (1 - 2 * a, a, a))]


def replay(case):
    from sectionproperties.analysis import Section

    t = common.tab()
    cmp = core.Cmp()
    s = case["sec"]
    pl = real.Placement(t["placements"][case["pl"]])
    scheme = t["schemes"][case["scheme"]]
    geom = real.geometry(s, t, scheme, pl, merge=case["merge"], order=case["order"],
                         force_compound=case["compound"])
    real.make_mesh(geom, case["mesh"])
    sec = Section(geom)
    sec.calculate_geometric_properties()
    sec.calculate_warping_properties()
    cx, cy = map(float, sec.get_c())
    sx, sy = map(float, sec.get_sc())
    rng = random.Random(case["rseed"])
    nodes = np.asarray(sec.mesh["vertices"], float)
    els = [np.asarray(e)[:3] for e in sec.mesh["triangles"]]
    # quadrature points strictly inside every element (degree 2, exact here)
    tri = np.array([nodes[e] for e in els])
    area = 0.5 * np.abs((tri[:, 1, 0] - tri[:, 0, 0]) * (tri[:, 2, 1] - tri[:, 0, 1])
                        - (tri[:, 1, 1] - tri[:, 0, 1]) * (tri[:, 2, 0] - tri[:, 0, 0]))
    pts = [tuple(np.array(p) @ tr) for tr in tri for _, p in BARY]
    aw = [a * w for a in area for w, _ in BARY]
    D = float(np.ptp(nodes, axis=0).max())
    # the specified torsion and shear functions on the same mesh
    fem = fe.Mesh(nodes, sec.mesh["triangles"])
    lenv = real.leaf_env(s, t, scheme, pl)
    E = c15.mesh_moduli(sec, fem, stress.Where(s, t, scheme, pl), not sec.is_composite())
    spec = c15.specified(sec, case, lenv, fem, E)
    names = case_mats(sec)
    members = {}
    for el, m in zip(sec.elements, names):
        members.setdefault(m, set()).update(map(int, el.node_ids))
    done = []
    integ = 0
    for n, st in enumerate(case["loads"]):
        load = st["load"]
        kw = stress.kwargs(load, case["scale"])
        what = f"load {kw}"
        post = sec.calculate_stress(**kw)
        res = post.get_stress()
        done.append(res)
        tied = stress.tie(res, members)
        cmp.true(f"{what}: one result for each of {sorted(members)}: got {[r['material'] for r in res]}", tied is not None)
        if cmp.fails:
            return cmp.result()
        for m, r in enumerate(res):
            # contributions of absent actions are zero
            for c in ALL:
                x = np.asarray(r[c])
                if not load[ACT_OF[c]]:
                    cmp.true(f"{what}: {r['material']} {c} without its action", not np.any(x))
            # history: superposition and scaling
            for c in ALL:
                x = np.asarray(r[c])
                if st["how"] == "sum":
                    a, b = (np.asarray(done[k - 1][m][c]) for k in (st["i"], st["j"]))
                    y, why = a + b, f"sum of loads {st['i']} and {st['j']}"
                    big = max(np.abs(a).max(), np.abs(b).max())
                elif st["how"] == "scale":
                    a = np.asarray(done[st["i"] - 1][m][c])
                    y, why = st["c"] * a, f"{st['c']} times load {st['i']}"
                    big = np.abs(y).max()
                else:
                    continue
                cmp.true(f"{what}: {r['material']} {c} is the {why}",
                         bool(np.all(np.abs(x - y) <= 1e-9 * big)))
            # combined stresses from the reported components
            # nodes of this material and a few others
            on = np.flatnonzero(np.asarray(r["sig_zz_n"]) ** 2 + np.asarray(r["sig_zxy"]) ** 2
                                + np.asarray(r["sig_zz"]) ** 2)
            ids = sorted(set(rng.sample(list(on), min(25, len(on)))
                             + rng.sample(range(len(nodes)), min(5, len(nodes)))))
            env = {c: [float(np.asarray(r[c])[k]) for k in ids] for c in ALL}
            terms.run_defs(t["defs"]["combined"], env)
            for d in t["defs"]["combined"]:
                c = d["name"]
                if c == "rMohr":
                    continue
                x = np.asarray(r[c])[ids]
                y = np.array(env[c], float)
                big = max(np.abs(np.array(env[k])).max() for k in ("sig_vm", "sig_zz", "sig_zxy", *ALL))
                cmp.true(f"{what}: {r['material']} {c} from the reported components: got {x[:3]}, "
                         f"specified {y[:3]}", bool(np.all(np.abs(x - y) <= 1e-9 * big)))
        if n != len(case["loads"]) - 1 and not (load["mzz"] or load["vx"] or load["vy"]):
            continue
        if n < len(case["loads"]) - 2:
            continue
        # points: interior quadrature points
        vals = sec.get_stress_at_points(pts, **kw)
        cmp.true(f"{what}: every point inside an element has a stress", None not in vals)
        if cmp.fails:
            return cmp.result()
        v = np.array(vals, float)
        integ += 1
        env = {"aw": aw, "ax": [p[0] - cx for p in pts], "ay": [p[1] - cy for p in pts],
               "tx": v[:, 1].tolist(), "ty": v[:, 2].tolist(), "sex": sx - cx, "sey": sy - cy}
        for a, k in (("vx", "Vx"), ("vy", "Vy"), ("mzz", "Mzz")):
            env[k] = float(load[a]) * case["scale"]
        terms.run_defs(t["defs"]["shearres"], env)
        tau = float(np.sum(np.array(aw) * np.hypot(v[:, 1], v[:, 2])))
        # the fields themselves: at the points (of elements with the mesh's own corners) ...
        fl = {k: env[k] for k in ("Vx", "Vy", "Mzz")}
        bary = [tuple(b) for _, b in BARY]
        f = fe.shear_fields(fem, E, spec, t, bary, fl)
        zx = f["sig_zx_mzz"] + f["sig_zx_vx"] + f["sig_zx_vy"]
        zy = f["sig_zy_mzz"] + f["sig_zy_vx"] + f["sig_zy_vy"]
        for comp, y in (("sig_zx", zx), ("sig_zy", zy)):
            # the rule's points are permuted alike in both: compare by position
            x = v[:, 1 if comp == "sig_zx" else 2].reshape(len(els), len(BARY))
            px = np.array(pts).reshape(len(els), len(BARY), 2)
            qx = np.stack([np.array(bary) @ fem.c[:, :, 0].T, np.array(bary) @ fem.c[:, :, 1].T], 2)
            qx = qx.transpose(1, 0, 2)
            pick = np.linalg.norm(px[:, :, None] - qx[:, None], axis=3).argmin(axis=2)
            yy = np.take_along_axis(y.T, pick, axis=1)
            big = max(np.abs(zx).max(), np.abs(zy).max())
            k = np.unravel_index(np.abs(x - yy).argmax(), x.shape)
            cmp.true(f"{what}: {comp} at {tuple(px[k])}: got {x[k]!r}, specified {yy[k]!r}",
                     bool(np.abs(x - yy).max() <= 1e-6 * big))
        # ... and at the nodes: an average of what the adjoining elements of the material have there
        corners = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (.5, .5, 0), (0, .5, .5), (.5, 0, .5)]
        f = fe.shear_fields(fem, E, spec, t, corners, fl)
        for m, r in zip(tied, res):
            use = [k for k, nm in enumerate(names) if nm == m]
            for comp in ("sig_zx_mzz", "sig_zy_mzz", "sig_zx_vx", "sig_zy_vx", "sig_zx_vy", "sig_zy_vy"):
                lo, hi = np.full(len(nodes), np.inf), np.full(len(nodes), -np.inf)
                np.minimum.at(lo, fem.t[use], f[comp].T[use])
                np.maximum.at(hi, fem.t[use], f[comp].T[use])
                x = np.asarray(r[comp], float)
                on = np.isfinite(lo)
                slack = 1e-6 * np.abs(f[comp]).max()
                bad = on & ((x < lo - slack) | (x > hi + slack))
                k = int(bad.argmax())
                cmp.true(f"{what}: {r['material']} {comp} at {tuple(nodes[k])}: got {x[k]!r}, adjoining "
                         f"elements have {lo[k]!r} to {hi[k]!r}", not bad.any())
        # a point of several elements has the aggregate of their values that was asked for
        zx = f["sig_zx_mzz"] + f["sig_zx_vx"] + f["sig_zx_vy"]
        zy = f["sig_zy_mzz"] + f["sig_zy_vx"] + f["sig_zy_vy"]
        some = sorted({int(k) for k in fem.t[:, :3].ravel()})
        some = rng.sample(some, min(6, len(some)))
        slack = 1e-6 * max(np.abs(zx).max(), np.abs(zy).max())
        for agg in (max, min, sum):
            got = sec.get_stress_at_points([tuple(nodes[k]) for k in some], agg_func=agg, **kw)
            for k, g in zip(some, got):
                e, c = np.nonzero(fem.t[:, :3] == k)
                for name, z, x in (("sig_zx", zx, g and g[1]), ("sig_zy", zy, g and g[2])):
                    cmp.near(f"{what}: {agg.__name__} of {name} over the {len(e)} elements at {tuple(nodes[k])}",
                             x if x is not None else math.nan, float(agg(z[c, e])), slack * len(e))
                z = [float(dict(zip(tied, res))[names[j]]["sig_zz"][k]) for j in e]
                cmp.near(f"{what}: {agg.__name__} of sig_zz over the {len(e)} elements at {tuple(nodes[k])}",
                         g[0] if g else math.nan, float(agg(z)), 1e-7 * np.abs(z).sum() + 1e-9 * len(z) * max(np.abs(r["sig_zz"]).max() for r in res))
        for r_, w_ in (("resVx", "Vx"), ("resVy", "Vy")):
            cmp.near(f"{what}: integral of the shear stress {r_}", env[r_], env[w_], 1e-7 * tau)
        cmp.near(f"{what}: torque of the shear stresses about the centroid", env["resT"],
                 env["wantT"], 1e-7 * tau * (D + abs(sx - cx) + abs(sy - cy)))
        if not (load["vx"] or load["vy"]) and load["mzz"]:
            terms.run_defs(t["defs"]["torsionlaws"], env)
            for k in ("m_xx", "m_yy", "m_xy"):
                cmp.near(f"{what}: torsion stresses in equilibrium ({k})", env[k], 0.0, 1e-7 * tau * D)
        # normal stress: the same resultants from the points
        if any(load[a] for a in ("n", "mxx", "myy")):
            sz = v[:, 0]
            w = np.array(aw)
            big = float(np.sum(w * np.abs(sz)))
            cmp.near(f"{what}: integral of the normal stress", float(np.sum(w * sz)),
                     load["n"] * case["scale"], 1e-7 * big)
        # points agree with the nodes: at corner nodes inside one material
        if len(res) >= 1:
            cand = rng.sample(range(len(nodes)), min(12, len(nodes)))
            corner = {int(k) for e in els for k in e}
            mat_of = {}
            for e, name in zip(els, case_mats(sec)):
                for k in e:
                    mat_of.setdefault(int(k), set()).add(name)
            cand = [k for k in cand if k in corner and len(mat_of[k]) == 1]
            got = sec.get_stress_at_points([tuple(nodes[k]) for k in cand], **kw)
            by = dict(zip(tied, res))
            scale = float(np.abs(v).max())
            for k, g in zip(cand, got):
                r = by[next(iter(mat_of[k]))]
                if g is None:
                    # a corner of the boundary may be missed by rounding only
                    cmp.true(f"{what}: node {tuple(nodes[k])} has no stress as a point", False)
                    continue
                for x, c in zip(g, ("sig_zz", "sig_zx", "sig_zy")):
                    cmp.near(f"{what}: {c} at node {tuple(nodes[k])} as a point", x, float(r[c][k]),
                             1e-7 * scale)
    return cmp.result(integrated=integ)


def case_mats(sec):
    return [(el.material.name, el.material.elastic_modulus) for el in sec.elements]


FAMILIES = [
    dict(X="G2a", Y="G2b", codes="CodesHalf1", conn=True),
    dict(X="G2a", Y="G2b", codes="CodesHalf2", conn=True, minlab=2),
    dict(X="G3a", Y="G3b", codes="CodesHalf1", conn=True, sim=150),
    dict(X="G3a", Y="G3b", codes="CodesHalf2", conn=True, sim=300),
    dict(X="G3b", Y="G3w", codes="CodesSolid3", conn=True, sim=100, minlab=2),
    dict(X="G3b", Y="G3w", codes="CodesRing2", conn=True, sim=200),
]


def run(chk: core.Check):
    fams = [dict(f) for f in FAMILIES]
    if chk.thorough:
        for f in fams:
            if f.get("sim"):
                f["sim"] *= 10
    t = common.tab()
    common.warm("stress")
    words = stress.load_words(chk, "AllActs", 2, None)
    words += stress.load_words(chk, "AllActs", 4, 4000 if chk.thorough else 200, 1)
    words += stress.load_words(chk, "ShearActs", 3, 1000 if chk.thorough else 100, 2)
    chk.rng.shuffle(words)
    groups = common.sections(chk, fams)
    for fam, recs in zip(fams, groups):
        cases = []
        for s in common.sample(chk, recs, 3000 if chk.thorough else 90):
            order = list(range(len(s["regs"])))
            chk.rng.shuffle(order)
            labs = {r["lab"] for r in s["regs"]}
            cases.append({
                "sec": s, "pl": chk.rng.randrange(len(t["placements"])),
                "scheme": chk.rng.randrange(len(t["schemes"])) if len(labs) > 1
                else chk.rng.choice([0, 0, 1, 5]),
                "merge": chk.rng.random() < 0.6, "order": order,
                "compound": chk.rng.random() < 0.2, "mesh": chk.rng.choice([0, 1, 2, 3]),
                "loads": chk.rng.choice(words)["loads"], "scale": chk.rng.choice([1, 1000, 1e6]),
                "rseed": chk.rng.randrange(10**6),
            })
        chk.replay(f"{fam['X']}x{fam['Y']} {fam['codes']}", "c14:replay", cases)
    chk.assumptions += ["lattice sections, the listed materials and schemes"]
