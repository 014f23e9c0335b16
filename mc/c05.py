"""C05: irreps of Bloch states are identified correctly in every space group."""
import numpy as np
from .core import quiet, raises
from .crystals import *
from . import tables, physics as P
from .c04 import make
from irrep.spacegroup import SpaceGroup

LEVEL = "model_checking"
BOUNDS = {"quick": "all 230 groups x spin x all tabulated k-points x 2 of 6 settings of basis, origin, orientation; per k-point levels with exact, merged "
                   "and single-state thresholds, equivalent k-points, and every wrong label of the group",
          "thorough": "230 groups x spin x 12 settings, larger sets of plane waves and bands"}
ASSUMPTIONS = ["the table represents a lattice translation t by exp(+ik.t) (checked for every table in C03), so that at k-points not equivalent to -k its characters are conjugated",
               "expected multiplicities come from traces of the table operations computed by an independent implementation"]
CHUNK = 2
SETS = [(0, 0, 0, 1), (2, 3, 1, 1), (1, 1, 2, 1), (3, 4, 1, 1), (6, 2, 3, -1), (7, 5, 2, 1)]


def cases(tier):
    for sg in range(1, 231):
        for sp in (False, True):
            for s in ((sg+sp) % 3, 3+(sg+2*sp) % 3) if tier == "quick" else range(12):
                b, o, r, h = SETS[s] if s < 6 else ((s-4) % 8, (s+1) % 6, s % 4, 1)
                yield dict(sg=sg, spinor=sp, basis=b, origin=o, rot=r, hand=h, npw=30 if tier == "quick" else 60, nb=10 if tier == "quick" else 20)


def run_case(spec, ctx):
    sg, spinor = spec["sg"], spec["spinor"]
    c = crystal(sg, spec["basis"], spec["origin"], spec["rot"], norb=2 if len(coset_ops(sg)) < 24 else 1, hand=spec["hand"])
    s = SpaceGroup(c.cell, spinor=spinor, search_cell=True)
    ctx.require(s.number == sg, "space-group", f"{s.number}")
    tab = tables.table(sg, spinor)
    ref, shift = np.array(s.refUC, float), np.array(s.shiftUC, float)
    inv = np.linalg.inv(ref)
    byind = {o.ind: o for o in s.symmetries}
    ctx.require(sorted(byind) == list(range(1, len(tab.ops)+1)), "indices", str(sorted(byind)))
    coords = {kp['name']: tables.snap(kp['k']) @ inv for kp in tab.kpoints}
    for ik, kp in enumerate(tab.kpoints):
        k = coords[kp['name']].copy()
        if ik % 2:
            k += [(1, 0, -1), (0, -2, 0), (-1, 1, 0)][ik % 3]
        kin = np.round(k, 6) if ik % 3 == 1 else k
        r = P.solve(k, c, spinor, npw=spec["npw"], nb=spec["nb"], gauge=ik % 2)
        g, C, E, b = r["g"], r["C"], r["E"], r["borders"]
        trim = np.abs(2*k-np.round(2*k)).max() < 1e-3
        # independent traces of the table operations on every state
        per = []
        for i in kp['isym']:
            R2, t2, _ = tab.ops[i-1]
            A = np.round(ref @ R2 @ inv)
            T = ref @ t2+shift-A @ shift
            o = byind[i]
            M = P.rep(k, g, C, A, T, o.sign*o.spinor_rotation if spinor else None)
            ctx.require(M is not None, "operation", f"table operation {i} does not leave {kp['name']} invariant")
            per.append(np.diag(M))
        per = np.array(per)             # op x state
        # merged levels: threshold joining groups of levels (energies rescaled so that groups are well separated)
        E2 = E.copy()
        for n, (i, j) in enumerate(zip(b, b[1:])):
            E2[i:j] = (n//2)*1.0+(n % 2)*1e-3
        for tag, En, th in (("exact", E, 1e-4), ("merged", E2, 1e-2)):
            bb = P.borders(En, th)
            K, ig, o_ = make(s, c, kin, g, C, En, spinor, tol=th)
            t = s.get_irreps_from_table(kp['name'], K.k)
            K.identify_irreps(t)
            ctx.require(len(K.irreps) == len(bb)-1 and list(K.degeneracies) == [y-x for x, y in zip(bb, bb[1:])], "levels", f"{kp['name']} {len(K.irreps)}")
            for l, (x, y) in enumerate(zip(bb, bb[1:])):
                ch = per[:, x:y].sum(1)
                got = {n: complex(v) for n, v in K.irreps[l].items()}
                w = lambda: f"{kp['name']} k={kin} {tag} level {l}: reported {got}"
                want, dim, tot = {}, 0, np.zeros(len(ch), complex)
                for ir in kp['irreps']:
                    X = ir['ch'] if trim else ir['ch'].conj()
                    m = (X.conj() @ ch)/len(ch)
                    if abs(m) > 1e-2:
                        want[ir['name']] = m
                    v = got.get(ir['name'], 0)
                    dim += v*ir['dim']; tot = tot+v*X
                ctx.check(all(abs(v-round(v.real)) < 5e-3 and v.real > -1e-2 for v in got.values()), "multiplicity", w)
                ctx.check(set(n for n, v in got.items() if abs(v) > 1e-2) == set(want) and all(abs(got[n]-want[n]) < 5e-3 for n in want if n in got), "irreps",
                          lambda: w()+f" expected {want}")
                ctx.check(abs(dim-(y-x)) < 1e-2, "dimension", lambda: w()+f" dimensions {dim} for {y-x} states")
                ctx.check(np.abs(tot-K.char_refUC[l]).max() < 1e-2, "characters", lambda: w()+f" characters {np.round(tot, 3).tolist()} vs reported {np.round(K.char_refUC[l], 3).tolist()}")
                ctx.step()
                ctx.outcome(f"{'spinor' if spinor else 'scalar'} {y-x}-dim {len(want)} irreps")
            ctx.trace()
        ctx.state(sg, spinor, kp['name'], spec["basis"], spec["origin"])
        # wrong labels are refused, equivalent points are not
        for n, q in coords.items():
            d = k-q
            same = np.abs(d-np.round(d)).max() < 1e-4
            e = raises(s.get_irreps_from_table, n, kin)
            ctx.check((e is None) == same, "label", lambda: f"k={kin} requested as {n} (at {q}): {'accepted' if e is None else 'rejected'}")
            ctx.step()
        for q, n in ((kin+[1e-3, 0, 0], kp['name']), (kin+[0, 5e-4, -5e-4], kp['name']), (kin, kp['name']+"x"), (kin, "")):
            e = raises(s.get_irreps_from_table, n, q)
            ctx.check(e is not None, "label", lambda: f"k={q} accepted as {n}, which is at {kin}")
            ctx.step()
