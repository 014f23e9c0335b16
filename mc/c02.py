"""C02: the transformation to the conventional cell reproduces the tables."""
import re
import numpy as np
from .core import quiet, raises
from .crystals import *
from . import tables
from irrep.spacegroup import SpaceGroup

LEVEL = "model_checking"
BOUNDS = {"quick": "search: 230 groups x spin x 6 (basis,origin,orientation,handedness) settings; user input: 88 groups (a third of them with spin) x 17 transformations x search flag; all decorations of 21 structures",
          "thorough": "search: 230 groups x spin x 8 bases x 6 origins; user input: 230 groups x 17 transformations x search flag x spin, 4 settings"}
ASSUMPTIONS = ["the table files are read by an independent parser; their consistency is C03's subject"]
CHUNK = 6
SETS = [(0, 0, 0, 1, 0), (2, 3, 1, 1, 0), (1, 1, 2, 1, 1), (3, 4, 1, 1, 0), (6, 2, 3, -1, 0), (7, 5, 2, 1, 1)]
USER = ["right", "right+lattice", "right+center", "refonly", "shiftonly", "none", "identity", "wrongshift", "permuted", "doubled",
        "sheared", "noninteger", "inverse", "transposed", "nearshift", "nearshift-loose", "negated"]
QSG = [1, 2, 3, 4, 5, 7, 9, 11, 12, 14, 15, 18, 19, 20, 22, 23, 24, 29, 33, 36, 38, 41, 42, 43, 44, 46, 47, 52, 61, 62, 64, 68, 70, 72, 74,
       75, 77, 79, 80, 81, 82, 85, 88, 92, 98, 100, 109, 113, 119, 122, 127, 129, 138, 139, 141, 142, 143, 144, 146, 147, 148, 151, 155, 156,
       160, 161, 163, 166, 167, 169, 174, 178, 185, 186, 193, 194, 198, 199, 205, 206, 212, 216, 220, 221, 225, 227, 228, 229, 230]


def cases(tier):
    sets = SETS if tier == "quick" else [(b, o, (b+o) % 4, -1 if (b+o) % 5 == 4 else 1, (b*o) % 2) for b in range(8) for o in range(6)]
    for s in sets:
        for sg in range(1, 231):
            for sp in (False, True):
                yield dict(kind="search", sg=sg, spinor=sp, basis=s[0], origin=s[1], rot=s[2], hand=s[3], orbits=s[4])
    for i, name in enumerate(STRUCTURES):
        for j, t in enumerate(decorations(name)):
            for k in range(1 if tier == "quick" else 8):
                yield dict(kind="deco", name=name, typ=list(t), spinor=bool((i+j+k) % 2), basis=(2*i+j+k) % 8, origin=j % 6, rot=j % 4, sg=0)
    us = [(2, 3, 1)] if tier == "quick" else [(0, 0, 0), (2, 3, 1), (3, 1, 0), (6, 4, 2)]
    for s in us:
        for sg in (QSG if tier == "quick" else range(1, 231)):
            for sp in (False, True):
                if tier == "quick" and sp and sg % 3:
                    continue
                yield dict(kind="user", sg=sg, spinor=sp, basis=s[0], origin=s[1], rot=s[2])


def int_translation(refUC, d, tol):
    """is d (given in the reference cell) a lattice translation of the calculation's cell?"""
    return np.abs((x := refUC @ d) - np.round(x)).max() < tol


def matches(c, refUC, shift, tab, tol=1e-5):
    """reference model: index in the table of every exact operation of the crystal, or None.
    Returns (match, margin) where margin tells how far the decision is from the tolerance."""
    inv = np.linalg.inv(refUC)
    idx = []
    worst = 0.
    for A, T in c.ops:
        R = inv @ A @ refUC
        if np.abs(R-np.round(R)).max() > 1e-6:
            return None, 1.
        t = inv @ (T + A @ shift - shift)
        j = [i for i, (R2, t2, S2) in enumerate(tab) if np.array_equal(R2, np.round(R))]
        if not j:
            return None, 1.
        x = refUC @ (tab[j[0]][1]-t)
        worst = max(worst, np.abs(x-np.round(x)).max())
        idx.append(j[0])
    if worst > tol:
        return None, worst
    if len(set(idx)) != len(tab):
        return None, 1.
    return idx, worst


def check_matched(ctx, s, sg, spinor, tab, tag):
    """every operation of s, transformed, is the table operation of the same index"""
    refUC, shift = np.array(s.refUC, float), np.array(s.shiftUC, float)
    inv = np.linalg.inv(refUC)
    ctx.check([o.ind for o in s.symmetries] == list(range(1, len(tab)+1)), "index-order", lambda: f"{tag} {[o.ind for o in s.symmetries]}")
    for o in s.symmetries:
        R2, t2, S2 = tab[o.ind-1]
        R = inv @ o.rotation @ refUC
        t = inv @ (o.translation + o.rotation @ shift - shift)
        ctx.check(np.allclose(R, R2, atol=1e-6), "rotation-match", lambda: f"{tag} op {o.ind}: {R.tolist()} vs table {R2.tolist()}")
        ctx.check(int_translation(refUC, t2-t, 3e-5), "translation-match", lambda: f"{tag} op {o.ind}: {t.tolist()} vs table {t2.tolist()} refUC={refUC.tolist()}")
        d = o.json_dict(refUC, shift)
        ctx.check(np.array_equal(d["rotation matrix refUC"], R2) and int_translation(refUC, t2-d["translation refUC"], 3e-5)
                  and d["sign"] == o.sign, "json-ref", lambda: f"{tag} op {o.ind}: {d}")
        ctx.step()
    if spinor:
        S1 = np.array([o.sign*o.spinor_rotation for o in s.symmetries])
        S2 = np.array([x[2] for x in tab])
        ctx.check(all(o.sign in (1, -1) for o in s.symmetries), "sign-value", str([o.sign for o in s.symmetries]))
        tr = np.abs(np.trace(S1, axis1=1, axis2=2)-np.trace(S2, axis1=1, axis2=2))
        ctx.check(tr.max() < 1e-3, "spin-trace", lambda: f"{tag} signed spin matrices have traces different from the table by {tr.tolist()}")
        code = {tuple(x[0].ravel()): i for i, x in enumerate(tab)}
        for i in range(len(tab)):
            for j in range(len(tab)):
                k = code[tuple((tab[i][0] @ tab[j][0]).ravel())]
                f1 = np.trace(S1[i] @ S1[j] @ S1[k].conj().T).real/2
                f2 = np.trace(S2[i] @ S2[j] @ S2[k].conj().T).real/2
                if abs(f1-f2) > 1e-2:
                    ctx.fail("spin-sign", f"{tag} S({i+1})S({j+1})={f1:+.2f}S({k+1}) but the table has {f2:+.2f}")
                    return
        ctx.step(len(tab)**2)
    else:
        ctx.check(all(o.sign == 1 for o in s.symmetries), "sign-scalar", str([o.sign for o in s.symmetries]))


def parse_cell(text):
    vec = re.findall(r'a\d =((?:\s+-?\d+\.\d+){3})\s*\|\s*a\d =((?:\s+-?\d+\.\d+){3})', text)
    pos = re.findall(r'^\s+(\d+)\s+\|((?:\s+-?\d+\.\d+){3}) \|((?:\s+-?\d+\.\d+){3})\s*$', text, re.M)
    f = lambda s: np.array(s.split(), float)
    m = re.findall(r'\|((?:\s*-?\d+\.\d{4}){3}) \|', text.split('refUC = ')[0].split('given by')[1] + 'refUC = ' + text.split('refUC = ')[1][:200])
    ref = np.array([x.split() for x in m[:3]], float)
    sh = np.array(re.search(r'shiftUC = \[([^\]]*)\]', text).group(1).split(), float)
    return (np.array([f(a) for a, b in vec]), np.array([f(b) for a, b in vec]), [int(p[0]) for p in pos],
            np.array([f(p[1]) for p in pos]), np.array([f(p[2]) for p in pos]), ref, sh)


def check_show(ctx, s, c, tag, match):
    with quiet() as q:
        s.show()
    v1, v2, typ, p1, p2, ref, sh = parse_cell(q.text)
    refUC = np.array(s.refUC); shift = np.array(s.shiftUC)
    ctx.check(np.allclose(v1, c.lattice, atol=6e-5), "shown-lattice", lambda: f"{tag} {v1.tolist()} vs {c.lattice.tolist()}")
    ctx.check(np.allclose(v2, refUC.T @ c.lattice, atol=6e-5), "shown-ref-lattice",
              lambda: f"{tag} printed reference-cell vectors {v2.tolist()} are not {(refUC.T @ c.lattice).tolist()}")
    ctx.check(typ == list(c.typ) and np.allclose(p1, c.pos, atol=6e-5), "shown-positions", lambda: f"{tag} {p1.tolist()[:3]}")
    x = (c.pos - shift) @ np.linalg.inv(refUC).T
    ok = p2.shape == x.shape and np.abs(y := (p2-x) @ refUC.T - np.round((p2-x) @ refUC.T)).max() < 5e-4
    ctx.check(ok, "shown-ref-positions", lambda: f"{tag} printed {p2.tolist()[:3]} expected {x.tolist()[:3]} (mod. lattice)")
    ctx.check(np.allclose(ref.T, refUC, atol=6e-5) and np.allclose(sh, shift, atol=6e-6), "shown-transformation", lambda: f"{tag} {ref.tolist()} {sh} vs {refUC.tolist()} {shift}")
    if match:
        # the crystal written in the reference cell is invariant under the table operations
        for R, t, S in match:
            new = p2 @ R.T + t
            for a in range(0, len(new), max(1, len(new)//4)):
                d = (p2 - new[a]) @ refUC.T
                d = np.abs(d-np.round(d)).max(axis=1)
                if d.min() > 2e-3 or typ[int(np.argmin(d))] != typ[a]:
                    ctx.fail("shown-ref-crystal", f"{tag} table operation {R.tolist()} {t.tolist()} does not map the printed reference-cell crystal onto itself")
                    return ref, sh
    return ref, sh


def deco(spec, ctx):
    """atoms in special positions: primitive cells must be matched, others never are"""
    spinor = spec["spinor"]
    c = decorated(spec["name"], spec["typ"], basis=spec["basis"], origin=spec["origin"], rot=spec["rot"])
    ctx.state(spec); ctx.step(); ctx.trace()
    res = []
    e = raises(lambda: res.append(SpaceGroup(c.cell, spinor=spinor, search_cell=True)))
    if not c.primitive:
        ctx.check(e is not None, "supercell-matched", "a cell that is not primitive was matched to the tables")
        with quiet():
            s = SpaceGroup(c.cell, spinor=spinor)
        ctx.check(all(o.sign == 1 for o in s.symmetries), "supercell-signs", str([o.sign for o in s.symmetries]))
        ctx.outcome("deco", "not primitive"); return
    if not ctx.check(e is None, "deco-rejected", lambda: repr(e)):
        return
    s = res[0]
    tab = tables.exact_ops(s.number, spinor)
    ctx.require(len(s.symmetries) == len(tab) == len(c.ops), "group", f"{s.number} {s.order} {len(c.ops)}")
    check_matched(ctx, s, s.number, spinor, tab, "deco")
    check_show(ctx, s, c, "deco", tab)
    ctx.outcome("deco", s.number)


def run_case(spec, ctx):
    sg, spinor = spec["sg"], spec["spinor"]
    if spec["kind"] == "deco":
        return deco(spec, ctx)
    tab = tables.exact_ops(sg, spinor)
    if spec["kind"] == "search":
        c = crystal(sg, basis=spec["basis"], origin=spec["origin"], rot=spec["rot"], hand=spec["hand"], orbits=spec["orbits"])
        ctx.state(spec)
        s = SpaceGroup(c.cell, spinor=spinor, search_cell=True)
        ctx.step()
        ctx.require(s.order == len(tab) and s.number == sg, "group", f"{s.number} {s.order}")
        check_matched(ctx, s, sg, spinor, tab, "search")
        ref, sh = check_show(ctx, s, c, "search", tab)
        js = s.json()
        cm = np.allclose(s.refUC, np.eye(3)) and np.allclose(s.shiftUC, 0)
        ctx.check(bool(js["cells match"]) == cm, "cells-match-flag", str(js["cells match"]))
        # history: feed the printed transformation back (printed to 1e-4 and 1e-5)
        vol = np.linalg.det(np.array(s.refUC))
        ctx.check(abs(vol-round(vol)) < 1e-6, "volume", f"conventional cell is {vol} primitive cells")
        s2 = SpaceGroup(c.cell, spinor=spinor, refUC=ref, shiftUC=sh, search_cell=True, trans_thresh=1e-4)
        ctx.step()
        ctx.check(np.allclose(s2.refUC, s.refUC, atol=1e-4) and np.allclose(s2.shiftUC, s.shiftUC, atol=1e-5), "roundtrip", f"{s2.refUC} {s2.shiftUC}")
        for a, b in zip(s.symmetries, s2.symmetries):
            ctx.check(a.ind == b.ind and np.array_equal(a.rotation, b.rotation) and np.allclose(a.translation, b.translation), "roundtrip-ops", f"{a.ind} {b.ind}")
        ctx.trace(); ctx.outcome("search", "shift0" if np.allclose(s.shiftUC, 0) else "shift", "ref1" if np.allclose(s.refUC, np.eye(3)) else "ref", int(round(vol)))
        return
    c = crystal(sg, basis=spec["basis"], origin=spec["origin"], rot=spec["rot"])
    for u in USER:
        ref, sh, thr, msg = c.refUC.copy(), c.shift.copy(), 1e-5, None
        if u == "right+lattice": sh = sh + [1, -2, 1]
        elif u == "right+center": sh = sh + c.refUC @ np.array([.5, .5, .5])
        elif u == "refonly": sh = None
        elif u == "shiftonly": ref = None
        elif u == "none": ref = sh = None
        elif u == "identity": ref = np.eye(3); sh = np.zeros(3)
        elif u == "wrongshift": sh = sh + [.1, .07, .03]
        elif u == "permuted": ref = ref[:, [1, 2, 0]]
        elif u == "doubled": ref = ref*[1, 1, 2]
        elif u == "sheared": ref = ref @ np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1.]])
        elif u == "noninteger": ref = ref @ np.array([[1, .3, 0], [0, 1, 0], [0, .2, 1.]])
        elif u == "inverse": ref = np.linalg.inv(ref)
        elif u == "transposed": ref = ref.T.copy()
        elif u == "nearshift": sh = sh + [2e-4, 1e-4, 3e-4]
        elif u == "nearshift-loose": sh = sh + [2e-4, 1e-4, 3e-4]; thr = 5e-3
        elif u == "negated": ref = -ref
        for search in (True, False):
            eref = np.eye(3) if ref is None else ref
            esh = np.zeros(3) if sh is None else sh
            auto = ref is None and sh is None and search
            idx, margin = matches(c, eref, esh, tab, thr)
            # trace of the decision near the tolerance is not judged
            if not auto and 0.3*thr < margin < 4*thr:
                ctx.outcome("undecided"); continue
            kw = dict(spinor=spinor, search_cell=search, trans_thresh=thr)
            if ref is not None: kw["refUC"] = ref.T.copy()     # the user gives the matrix acting on columns
            if sh is not None: kw["shiftUC"] = sh.copy()
            keep = {k: v.copy() for k, v in kw.items() if hasattr(v, 'copy')}
            ctx.state(sg, spinor, u, search)
            res = []
            e = raises(lambda: res.append(SpaceGroup(c.cell, v=0, **kw)))
            ctx.step()
            tag = f"{u} search={search}"
            if auto or idx is not None:
                if not ctx.check(e is None, "right-rejected", lambda: f"{tag}: {e!r}"):
                    continue
                s = res[0]
                check_matched(ctx, s, sg, spinor, tab, tag) if thr < 1e-4 else None
                if not auto:
                    ctx.check(np.allclose(s.refUC, eref) and np.allclose(s.shiftUC, esh), "not-honoured", lambda: f"{tag}: {s.refUC} {s.shiftUC}")
                ctx.outcome(u, search, "matched")
            elif search:
                ctx.check(e is not None, "wrong-accepted", lambda: f"{tag}: a transformation that does not lead to the table was accepted")
                ctx.outcome(u, search, "rejected")
            else:
                if not ctx.check(e is None, "unsearched-rejected", lambda: f"{tag}: {e!r}"):
                    continue
                s = res[0]
                ctx.check(np.allclose(s.refUC, eref) and np.allclose(s.shiftUC, esh), "not-honoured", lambda: f"{tag}: {s.refUC} {s.shiftUC}")
                ctx.check(all(o.sign == 1 for o in s.symmetries) and sorted(o.ind for o in s.symmetries) == list(range(1, len(tab)+1)), "unmatched-ops", tag)
                if u != "noninteger" and u != "inverse" and u != "transposed":
                    inv = np.linalg.inv(eref)
                    if all(np.abs((x := inv @ A @ eref)-np.round(x)).max() < 1e-6 for A, T in c.ops):
                        check_show(ctx, s, c, tag, None)
                ctx.outcome(u, search, "kept")
            for k in keep:
                ctx.check(np.array_equal(keep[k], kw[k]), "argument-modified", f"{tag} {k}")
            ctx.trace()
