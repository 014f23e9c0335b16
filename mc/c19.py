"""C19 rounding: numbers of the input rounded to the digits which files usually hold, or disturbed below the thresholds, in
every space group and in every quantity, do not change the result beyond the size of the disturbance."""
import copy
import numpy as np
from . import crystals as X, physics as P, formats as F, tables
from .core import quiet, chdir

LEVEL = "model_checking"
CHUNK = 1
SETS = [(0, 0, 0), (2, 3, 1), (1, 1, 2), (3, 4, 1), (6, 2, 3), (4, 5, 0)]
# disturbance: positions, lattice, k-points, coefficients, energies (digits after the point, or name of a pattern)
DIST = {
    "pos6": dict(pos=6), "pos7": dict(pos=7), "lat6": dict(lat=6), "lat7": dict(lat=7),
    "k5": dict(k=5), "k6": dict(k=6), "k8": dict(k=8), "coef4": dict(c=4), "e6": dict(e=6),
    "all6": dict(pos=6, lat=6, k=6, c=6, e=6), "all7": dict(pos=7, lat=7, k=7, c=7, e=7),
    "shake0": dict(shake=0), "shake1": dict(shake=1), "strain0": dict(strain=0), "strain1": dict(strain=1),
    "split0": dict(split=0), "split1": dict(split=1), "boundary": dict(wrap=1),
    "norm": dict(norm=1),
}
QUICK = {"vasp": ["pos6", "k5", "all6", "shake0", "split1", "boundary"], "wannier90": ["lat6", "k6", "all6", "norm"],
         "espresso": ["all7", "split0"], "abinit": ["all7", "strain1"]}
BOUNDS = {"quick": "230 space groups (scalar; every third one also with spin) x one of 6 settings x 14 (code, disturbance) pairs: decimal rounding of positions, lattice, k-points, "
                   "coefficients, energies to 5-7 digits (more where atoms would move by more than 2e-6 A), displacements of 1e-6 A, strains of 1e-8, splittings of 1e-6 eV, positions on the boundary of the cell; up to 3 tabulated k-points",
          "thorough": "230 space groups x spin x 2 settings x 4 codes x 19 disturbances, up to 5 k-points"}
ASSUMPTIONS = ["disturbances are below the thresholds of the code: 1e-5 for translations and lengths, 3e-5 for k-points, 1e-4 eV for levels (given as threshold)"]
THOROUGH_BUDGET = 3*3600


def cases(tier):
    out = []
    for sg in range(1, 231):
        for sp in (0, 1):
            if tier == "quick":
                if sp and sg % 3:
                    continue
                out.append(dict(sg=sg, sp=sp, set=(sg+2*sp) % 6, nk=3))
            else:
                for j in (0, 1):
                    out.append(dict(sg=sg, sp=sp, set=(sg+3*j+2*sp+1) % 6, nk=5, all=1))
    return out


def disturb(calc, d, seed=0):
    c = copy.copy(calc)
    c.kpts = [dict(x) for x in calc.kpts]
    rs = np.random.RandomState(11+seed)
    if "pos" in d:
        n = d["pos"]        # within 2e-6 A, the tolerance on distances being 1e-5 A
        while np.linalg.norm((np.round(c.pos, n)-c.pos) @ c.lattice, axis=1).max() > 2e-6:
            n += 1
        c.pos = np.round(c.pos, n)
    if "shake" in d:
        v = np.sign(rs.normal(size=c.pos.shape))*np.array([1, .5, .25])[:, None].T
        if d["shake"]:
            v = -v[:, ::-1]
        c.pos = c.pos+1e-6*v @ np.linalg.inv(c.lattice)
    if "wrap" in d:         # just below and above the boundary of the cell
        v = np.where((np.abs(c.pos-np.round(c.pos)) < 1e-4), -1e-8, 0)
        c.pos = c.pos+v
        c.pos = np.where(c.pos < 0, c.pos+1, c.pos)
    if "lat" in d:
        c.lattice = np.round(c.lattice, d["lat"])
    if "strain" in d:
        e = rs.normal(size=(3, 3))*1e-8*(1 if d["strain"] else -1)
        c.lattice = c.lattice @ (np.eye(3)+e)
    for i, x in enumerate(c.kpts):
        if "k" in d:
            x["k"] = np.round(x["k"], d["k"])
        if "c" in d:
            x["C"] = np.round(x["C"], d["c"])
        if "norm" in d:     # the norm of the states is not one (PAW, ultrasoft)
            x["C"] = x["C"]*(0.7+0.05*np.arange(len(x["C"])))[:, None]
        if "e" in d:
            x["E"] = np.round(x["E"], d["e"])
        if "split" in d:
            x["E"] = x["E"]+1e-6*(np.arange(len(x["E"])) if d["split"] else np.arange(len(x["E"]))[::-1]*0.1)
            x["E"] = np.sort(x["E"])
    c.rec = 2*np.pi*np.linalg.inv(c.lattice).T
    return c


def analyse(calc, code, names, ctx, label, cell=None, s0=None):
    """s0: space group found without disturbance; when spglib gives another of the equivalent reference cells, the
    labels (and the names of k-points) are those of another cell: returns "other cell" """
    from irrep.bandstructure import BandStructure
    d = ctx.tmpdir()
    kw = F.write(calc, code, d)
    try:
        with chdir(d), quiet():
            bs = BandStructure(calculate_traces=True, search_cell=True, degen_thresh=1e-4, IBend=calc.nb-1 if calc.nb > 1 else None,
                               **(dict(refUC=cell[0].T, shiftUC=cell[1]) if cell else {}), **kw)
            s1 = bs.spacegroup
            if s0 is not None and s0.number == s1.number and not (np.abs(s0.refUC-s1.refUC).max() < 1e-5 and same_mod(s0.shiftUC, s1.shiftUC, 1e-4)):
                return "other cell"
            bs.identify_irreps(names)
    except Exception as e:
        ctx.fail("refused", f"{label}: {type(e).__name__}: {e}")
        return None
    return bs


def same_mod(a, b, tol):
    d = np.asarray(a)-np.asarray(b)
    return np.abs(d-np.round(d)).max() < tol


def run_case(spec, ctx):
    from irrep.spacegroup import SpaceGroup
    b, o, r = SETS[spec["set"]]
    sp = bool(spec["sp"])
    c = X.crystal(spec["sg"], b, o, r, norb=2 if len(X.coset_ops(spec["sg"])) < 24 else 1)
    order = np.argsort(c.typ, kind="stable")
    c.pos, c.typ = c.pos[order], [c.typ[i] for i in order]
    with quiet():
        S0 = SpaceGroup((c.lattice, c.pos, c.typ), spinor=False, search_cell=True)
    tk = tables.table(spec["sg"], sp).kpoints
    # the k-points with the least symmetric coordinates are the ones that are hurt by rounding
    key = lambda t: -len(set(np.round(np.abs(tables.snap(t["k"])) % 1*24).astype(int)) & {8, 16, 6, 18, 4, 20})
    tk = sorted(tk, key=key)[:spec["nk"]]
    inv = np.linalg.inv(np.array(S0.refUC, float))
    names = [t["name"] for t in tk]
    ks = [tables.snap(t["k"]) @ inv for t in tk]
    ks = [k+np.array([(0, 0, 0), (1, 0, -1), (0, -1, 0)][i % 3]) for i, k in enumerate(ks)]
    calc = F.physical_calc(c, ks, sp, 8, npw=24, gauge=1)
    todo = {code: list(DIST) for code in F.CODES} if spec.get("all") else QUICK
    for code, ds in todo.items():
        ref = analyse(calc, code, names, ctx, f"{code} exact")
        if ref is None:
            continue
        ctx.require(ref.spacegroup.number == spec["sg"], "space group", f"{ref.spacegroup.number}")
        for dname in ds:
            label = f"{code} {dname}"
            ctx.state(spec, label); ctx.trace()
            x = disturb(calc, DIST[dname], spec["sg"])
            s0 = ref.spacegroup
            bs = analyse(x, code, names, ctx, label, None, s0)
            if bs == "other cell":
                ctx.outcome("another reference cell")
                bs = analyse(x, code, names, ctx, label+" in the same reference cell", (s0.refUC, s0.shiftUC))
            if bs is None:
                continue
            compare(ctx, ref, bs, label)
        ctx.outcome(code, "spinor" if sp else "scalar", "order", len(ref.spacegroup.symmetries))


def compare(ctx, ref, bs, label):
    s0, s1 = ref.spacegroup, bs.spacegroup
    if not ctx.check(s0.number == s1.number and s0.name == s1.name and len(s0.symmetries) == len(s1.symmetries), "space group", lambda: f"{label}: {s0.name} {len(s0.symmetries)} -> {s1.name} {len(s1.symmetries)}"):
        return
    same = np.abs(s0.refUC-s1.refUC).max() < 1e-5
    if not ctx.check(same, "transformation", lambda: f"{label}: {s0.refUC.tolist()} -> {s1.refUC.tolist()}"):
        return
    for a, e in zip(s1.symmetries, s0.symmetries):
        ctx.check(a.ind == e.ind and (a.rotation == e.rotation).all() and same_mod(a.translation, e.translation, 1e-5) and a.inversion == e.inversion
                  and abs(np.cos(a.angle)-np.cos(e.angle)) < 1e-6, "operations", lambda: f"{label}: op {e.ind} {e.rotation.tolist()} {e.translation} -> {a.rotation.tolist()} {a.translation}")
        if s0.spinor:
            d = min(np.abs(a.spinor_rotation-s*e.spinor_rotation).max() for s in (1, -1))
            ctx.check(d < 1e-5, "spin matrices", lambda: f"{label}: op {e.ind} {e.spinor_rotation} -> {a.spinor_rotation}")
    for kp, e in zip(bs.kpoints, ref.kpoints):
        t = f"{label} k={e.k}"
        ctx.step()
        if not ctx.check(list(kp.degeneracies) == list(e.degeneracies), "degeneracies", lambda: f"{t}: {e.degeneracies} -> {kp.degeneracies}"):
            continue
        ctx.check(np.abs(kp.Energy_mean-e.Energy_mean).max() < 2e-5, "levels", lambda: f"{t}: {e.Energy_mean} -> {kp.Energy_mean}")
        if not ctx.check([s.ind for s in kp.little_group] == [s.ind for s in e.little_group], "little group", lambda: f"{t}: {[s.ind for s in e.little_group]} -> {[s.ind for s in kp.little_group]}"):
            continue
        last = len(kp.degeneracies)-1       # the last level may be incomplete: its characters are not invariant
        # the sign of a spin matrix is a convention: compare including the sign of the operation
        for n in range(last):
            for j, (a, f) in enumerate(zip(kp.little_group, e.little_group)):
                z = np.exp(-2j*np.pi*np.dot(np.round(a.translation-f.translation), e.k))    # translations are given modulo lattice vectors
                w = 1
                if s0.spinor:
                    w = 1 if np.abs(a.spinor_rotation-f.spinor_rotation).max() < np.abs(a.spinor_rotation+f.spinor_rotation).max() else -1
                d = min(abs(kp.char[n, j]-w*e.char[n, j]*y) for y in (z, z.conj()))
                ctx.check(d < 2e-3, "characters", lambda: f"{t} level {n} op {f.ind}: {e.char[n, j]} -> {kp.char[n, j]}")
            f = lambda i: {q: v for q, v in i.items() if abs(v) > 2e-2}
            a1, a2 = f(kp.irreps[n]), f(e.irreps[n])
            ctx.check(set(a1) == set(a2) and all(abs(a1[q]-a2[q]) < 5e-3 for q in a1 if q in a2), "irreps", lambda: f"{t} level {n}: {a2} -> {a1}")
