"""C04: reported traces are the true traces of the symmetry operators on the states."""
import numpy as np
from .core import quiet, raises
from .crystals import *
from . import tables, physics as P
from irrep.spacegroup import SpaceGroup
from irrep.kpoint import Kpoint
from irrep.gvectors import symm_matrix, symm_eigenvalues

LEVEL = "model_checking"
BOUNDS = {"quick": "230 groups x spin x 2 of 5 settings (basis, origin, orientation, search flag), all tabulated k-points plus their "
                   "images under reciprocal lattice vectors, k-points with 6 digits, lines, planes and general points; per k-point "
                   "every operation x {gauge, order of plane waves, reduced cutoff, subset of operations}; decorated structures and supercells",
          "thorough": "230 groups x spin x 12 settings, larger sets of plane waves and bands"}
ASSUMPTIONS = ["states are eigenstates of a plane-wave Hamiltonian with the symmetry of the crystal; traces are computed by an independent implementation of {R|t}",
               "the operations and spin matrices themselves are the subject of C01 and C02"]
CHUNK = 2
SETS = [(0, 0, 0, False), (2, 3, 1, True), (1, 1, 2, True), (3, 4, 1, False), (6, 5, 3, True)]


def cases(tier):
    for sg in range(1, 231):
        for sp in (False, True):
            if tier == "quick":
                for s in {0, 1+(sg+sp) % 4}:
                    yield dict(sg=sg, spinor=sp, basis=SETS[s][0], origin=SETS[s][1], rot=SETS[s][2], search=SETS[s][3], npw=24, nb=8)
            else:
                for b in range(6):
                    for se in (False, True):
                        yield dict(sg=sg, spinor=sp, basis=b+se, origin=(b+sg) % 6, rot=b % 4, search=se, npw=48, nb=14)


    for i, name in enumerate(STRUCTURES):
        D = decorations(name)
        for j, t in enumerate(D):
            if tier == "quick" and j % (1+len(D)//4):
                continue
            yield dict(kind="deco", name=name, typ=list(t), spinor=bool((i+j) % 2), basis=(i+2*j) % 8, origin=j % 6, rot=j % 4, search=False, npw=24, nb=8)


def make(s, c, k, g, C, E, spinor, order=None, tol=1e-4, symmetries=None, v=0, traces=True, thresh=1e-4):
    ig, o = P.shells(g, k, c.rec)
    if order == "shuffled":             # any order inside a shell is allowed
        o = o.copy(); rs = np.random.RandomState(5)
        for a in np.unique(ig[4]):
            b = ig[5, a]
            p = a+rs.permutation(b-a)
            ig[:4, a:b] = ig[:4, p]; o[a:b] = o[p]
    n = len(g)
    return Kpoint(ik=0, num_bands=len(E), RecLattice=c.rec, symmetries_SG=s.symmetries, calculate_traces=traces, spinor=spinor,
                  kpt=np.array(k, float), WF=C[:, np.r_[o, o+n] if spinor else o].copy(), Energy=np.array(E), ig=ig, upper=np.nan,
                  degen_thresh=tol, symmetries=symmetries, refUC=s.refUC, shiftUC=s.shiftUC, symmetries_tables=s.symmetries_tables, v=v), ig, o


def kpoints(sg, spinor, refUC, full):
    """k-points in the calculation's cell: (name, exact coordinates, coordinates given to the code)"""
    B = np.linalg.inv(refUC)
    out = []
    tk = tables.table(sg, spinor).kpoints
    for i, kp in enumerate(tk):
        k = tables.snap(kp['k']) @ B
        if i % 3 == 0:
            out.append((kp['name'], k, k))
        elif i % 3 == 1:
            k = k+np.array([1, 0, -1]) if i % 2 else k+np.array([0, -2, 1])
            out.append((kp['name']+"+G", k, k))
        else:
            out.append((kp['name']+"~", k, np.round(k, 6)))
    u = np.array([.17, 0, 0]); w = np.array([.5, .23, 0]); x = np.array([.13, .13, 0]); y = np.array([.5, .5, .21])
    near = [("near point 1", np.array([.495, .005, 0])), ("near point 2", np.array([.3333, .3367, .002])), ("near line", np.array([.203, .2, .001]))]
    for n, q in [("line", u), ("line2", w), ("line3", x), ("line4", y), ("general", np.array([.11, .27, -.38]))]+near:
        q = q @ B
        out.append((n, q, q))
    return out


def run_case(spec, ctx):
    deco, spinor = spec.get("kind") == "deco", spec["spinor"]
    if deco:        # atoms in special positions, pure translations among the operations if the cell is not primitive
        c = decorated(spec["name"], spec["typ"], spec["basis"], spec["origin"], spec["rot"])
    else:
        c = crystal(spec["sg"], spec["basis"], spec["origin"], spec["rot"], norb=2 if len(coset_ops(spec["sg"])) < 24 else 1)
    s = SpaceGroup(c.cell, spinor=spinor, search_cell=spec["search"] or (deco and c.primitive))
    sg = s.number if deco else spec["sg"]
    ctx.require(s.number == sg and len(s.symmetries) == len(c.ops), "space-group", f"{s.number} with {len(s.symmetries)} operations")
    tab = tables.table(sg, spinor).ops
    ref, shift = np.array(s.refUC, float), np.array(s.shiftUC, float)
    # does the reported transformation lead to the tables?
    inv = np.linalg.inv(ref)
    matched = sorted(o.ind for o in s.symmetries) == list(range(1, len(tab)+1))
    for o in s.symmetries if matched else []:
        R2, t2, _ = tab[o.ind-1]
        d = ref @ (t2-inv @ (o.translation+o.rotation @ shift-shift))
        matched &= np.allclose(inv @ o.rotation @ ref, R2, atol=1e-6) and np.abs(d-np.round(d)).max() < 1e-4
    ctx.outcome("matched" if matched else "unmatched")
    if deco:
        B = np.array(BASES[spec["basis"]])
        kpts = [(str(q), np.array(q) @ B.T, np.array(q) @ B.T) for q in ((0, 0, 0), (.5, 0, 0), (0, .5, 0), (0, 0, .5), (.5, .5, 0), (.5, .5, .5), (0, .5, .5),
                                                                         (1/3, 1/3, 0), (.25, .25, .25), (.5, .25, .75), (.2, 0, 0), (0, 0, .3), (.11, .27, -.38))]
    else:
        kpts = kpoints(sg, spinor, np.array(c.refUC, float), True)
    for ik, (name, k, kin) in enumerate(kpts):
        r = P.solve(k, c, spinor, npw=spec["npw"], nb=spec["nb"])
        g, C, E, b = r["g"], r["C"], r["E"], r["borders"]
        lg = []
        for o in s.symmetries:
            kr = k @ np.linalg.inv(o.rotation)
            if np.abs(kr-k-np.round(kr-k)).max() < 1e-7:
                lg.append(o)
        inds = sorted(o.ind for o in lg)
        ctx.state(spec.get("name", sg), spec.get("typ"), spinor, name, spec["basis"], spec["origin"])
        ctx.outcome(f"little group {len(lg)}")
        variants = [("plain", C, g, E, None, None)]
        G = P.solve(k, c, spinor, npw=spec["npw"], nb=spec["nb"], ecut=r["ecut"], gauge=1)
        variants.append(("gauge", G["C"]*1.7, g, E, "shuffled", None))
        # reduced cutoff: drop the outer half of the shells
        e = r["ekin"]
        cut = [j for j in range(len(e)//2, len(e)) if e[j]-e[j-1] > 0.02]
        if cut:
            m = cut[0]; n = len(g)
            Cr = C[:, np.r_[0:m, n:n+m]] if spinor else C[:, :m]
            if (np.abs(Cr)**2).sum(1).min() > 1e-3:
                variants.append(("cutoff", Cr, g[:m], E, None, None))
        if len(lg) > 2:
            variants.append(("subset", C, g, E, None, inds[1::2]))
        first = None
        for tag, Cv, gv, Ev, order, subset in variants:
            K, ig, o_ = make(s, c, kin, gv, Cv, Ev, spinor, order, symmetries=subset)
            w = f"{name} k={kin} {tag}"
            want = inds if subset is None else sorted(subset)
            ctx.require([o.ind for o in K.little_group] == want, "little-group", lambda: f"{w}: {[o.ind for o in K.little_group]} vs {want}")
            ctx.require(list(K.degeneracies) == [j-i for i, j in zip(b, b[1:])], "levels", lambda: f"{w} {list(K.degeneracies)} {b}")
            ctx.require(K.char.shape == K.char_refUC.shape == (len(b)-1, len(want)), "shape", f"{w} {K.char.shape}")
            Cn = Cv/np.linalg.norm(Cv, axis=1)[:, None]
            for j, o in enumerate(K.little_group):
                x = P.level_traces(k, gv, Cn, b, o.rotation, o.translation, o.spinor_rotation if spinor else None)
                ctx.require(x is not None, "plane-wave set", f"{w} op {o.ind}: the set of plane waves is not symmetric")
                ctx.check(np.abs(x-K.char[:, j]).max() < 2e-4, "trace", lambda: f"{w} op {o.ind}: {np.round(K.char[:, j], 4).tolist()} vs true {np.round(x, 4).tolist()}")
                if matched:
                    R2, t2, _ = tab[o.ind-1]
                    A = np.round(ref @ R2 @ inv)
                    T = ref @ t2+shift-A @ shift
                    x = P.level_traces(k, gv, Cn, b, A, T, o.sign*o.spinor_rotation if spinor else None)
                    ctx.check(np.abs(x-K.char_refUC[:, j]).max() < 2e-4, "trace-refUC",
                              lambda: f"{w} op {o.ind}: {np.round(K.char_refUC[:, j], 4).tolist()} vs true {np.round(x, 4).tolist()}")
                elif np.allclose(ref, np.eye(3)) and np.allclose(shift, 0):
                    ctx.check(np.allclose(K.char[:, j], K.char_refUC[:, j], atol=1e-8), "trace-refUC-same", f"{w} op {o.ind}")
                ctx.step()
            ctx.trace()
        # full matrices of the operators (used by the separation) and diagonal elements
        K, ig, o_ = make(s, c, kin, g, C, E, spinor, traces=False)
        W = K.WF
        for o in K.little_group:
            S = symm_matrix(kin, c.rec, W, ig, o.rotation, o.spinor_rotation, o.translation, spinor)
            x = P.rep(k, g, C, o.rotation, o.translation, o.spinor_rotation if spinor else None)
            ctx.check(np.abs(S-x).max() < 2e-4, "matrix", lambda: f"{name} k={kin} op {o.ind}: matrix differs by {np.abs(S-x).max():.3g}")
            d = symm_eigenvalues(kin, c.rec, W, ig, o.rotation, o.spinor_rotation, o.translation, spinor)
            ctx.check(np.abs(d-np.diag(x)).max() < 2e-4, "diagonal", lambda: f"{name} op {o.ind}")
            ctx.step()
        # operations outside the little group are refused
        for o in s.symmetries:
            if o.ind not in inds:
                e = raises(symm_eigenvalues, kin, c.rec, W, ig, o.rotation, o.spinor_rotation, o.translation, spinor)
                ctx.check(e is not None, "outside-little-group", f"{name} op {o.ind} accepted")
                ctx.step()
                break
