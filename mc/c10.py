"""C10 all four codes give the same answer: the same Bloch states of a crystal (eigenstates of a model Hamiltonian with
its symmetry) are written in the four formats and the complete analysis of each is compared with a common reference."""
import numpy as np
from . import crystals as X, physics as P, formats as F, tables
from .core import quiet, chdir, memo_spacegroup

LEVEL = "model_checking"
CHUNK = 1
SETS = [(0, 0, 0), (2, 3, 1), (1, 1, 2), (3, 4, 1), (6, 2, 3), (4, 5, 0)]
SGS = [1, 2, 5, 13, 14, 19, 33, 62, 72, 88, 92, 122, 136, 146, 152, 166, 176, 186, 194, 198, 205, 216, 220, 227, 230]
BOUNDS = {"quick": "25 space groups (scalar) and 12 (spinor) x one setting of basis, origin, orientation x 4 codes x up to 4 tabulated k-points and a general one; "
                   "energies, degeneracies, characters in both cells, irreps, gaps, parities, path, separated subspaces",
          "thorough": "230 space groups x spin x 2 settings"}
ASSUMPTIONS = ["agreement to single precision (VASP stores complex64)", "energies agree to 1e-5 eV"]
THOROUGH_BUDGET = 3*3600


def cases(tier):
    out = []
    if tier == "quick":
        for i, sg in enumerate(SGS):
            out.append(dict(sg=sg, sp=0, set=i % 6))
            if i % 2 == 0:
                out.append(dict(sg=sg, sp=1, set=(i+1) % 6))
    else:
        for sg in range(1, 231):
            for sp in (0, 1):
                for j in (0, 1):
                    out.append(dict(sg=sg, sp=sp, set=(sg+3*j+sp) % 6))
    return out


def run_case(spec, ctx):
    from irrep.bandstructure import BandStructure
    from irrep.spacegroup import SpaceGroup
    b, o, r = SETS[spec["set"]]
    sp = bool(spec["sp"])
    c = X.crystal(spec["sg"], b, o, r, norb=2 if len(X.coset_ops(spec["sg"])) < 24 else 1)
    order = np.argsort(c.typ, kind="stable")
    c.pos, c.typ = c.pos[order], [c.typ[i] for i in order]
    with quiet():
        S0 = SpaceGroup((c.lattice, c.pos, c.typ), spinor=False, search_cell=True)
    tk = tables.table(spec["sg"], sp).kpoints[:4]
    inv = np.linalg.inv(np.array(S0.refUC, float))
    names = [t["name"] for t in tk]
    ks = [tables.snap(t["k"]) @ inv for t in tk]
    ks = [k+np.array([(0, 0, 0), (1, 0, -1), (0, -1, 0), (0, 0, 0)][i]) for i, k in enumerate(ks)]
    calc = F.physical_calc(c, ks, sp, 8, npw=24, gauge=1, efermi=0.75)
    # a group of bands complete at every k-point is not guaranteed: keep all, look only at complete levels
    res = {}
    for code in F.CODES:
        d = ctx.tmpdir()
        kw = F.write(calc, code, d)
        with chdir(d), quiet() as q:
            bs = BandStructure(calculate_traces=True, search_cell=True, degen_thresh=1e-4, EF="0.75", IBend=calc.nb-1 if calc.nb > 1 else None, **kw)
            bs.identify_irreps(names)
            bs.write_characters()
            js = bs.json(names)
        res[code] = (bs, js)
        ctx.trace(); ctx.state(spec, code)
    ref = None
    nb = calc.nb-1 if calc.nb > 1 else 1
    for code, (bs, js) in res.items():
        sg = bs.spacegroup
        ctx.require(sg.number == spec["sg"], "space group", f"{code}: {sg.number}")
        if ref is None:
            ref, rjs, rcode = bs, js, code
        s0 = ref.spacegroup
        tag = f"{code} vs {rcode}"
        ctx.check(sg.name == s0.name, "space group", lambda: f"{tag}: {sg.name} {s0.name}")
        ctx.check(np.abs(sg.refUC-s0.refUC).max() < 1e-6 and X.same_mod1(sg.shiftUC, s0.shiftUC), "transformation", lambda: f"{tag}: {sg.refUC} {sg.shiftUC} vs {s0.refUC} {s0.shiftUC}")
        ctx.require(len(sg.symmetries) == len(s0.symmetries), "operations", tag)
        for a, e in zip(sg.symmetries, s0.symmetries):
            ctx.check(a.ind == e.ind and (a.rotation == e.rotation).all() and X.same_mod1(a.translation, e.translation), "operations", lambda: f"{tag}: {a.rotation} {a.translation} vs {e.rotation} {e.translation}")
            if sp:
                ctx.check(np.abs(a.sign*a.spinor_rotation-e.sign*e.spinor_rotation).max() < 1e-5, "spin matrices", lambda: f"{tag} op {a.ind}: {a.sign}*{a.spinor_rotation} vs {e.sign}*{e.spinor_rotation}")
        ctx.require(len(bs.kpoints) == len(ks), "k-points", tag)
        for kp, e, x in zip(bs.kpoints, ref.kpoints, calc.kpts):
            t = f"{tag} k={x['k']}"
            ctx.step()
            ctx.check(np.abs(np.array(kp.k)-x["k"]).max() < 1e-7, "k-point", t)
            ctx.check(np.abs(kp.Energy_raw-(x["E"][:nb]-0.75)).max() < 1e-5, "energies", lambda: f"{t}: {kp.Energy_raw} vs {x['E'][:nb]-0.75}")
            ctx.require(list(kp.degeneracies) == list(e.degeneracies), "degeneracies", lambda: f"{t}: {kp.degeneracies} vs {e.degeneracies}")
            ctx.check(np.abs(kp.Energy_mean-e.Energy_mean).max() < 1e-5, "levels", t)
            ctx.require([s.ind for s in kp.little_group] == [s.ind for s in e.little_group], "little group", t)
            ctx.check(np.abs(kp.char-e.char).max() < 1e-4, "characters", lambda: f"{t}: {np.abs(kp.char-e.char).max()}")
            ctx.check(np.abs(kp.char_refUC-e.char_refUC).max() < 1e-4, "characters in reference cell", lambda: f"{t}: {np.abs(kp.char_refUC-e.char_refUC).max()}")
            ctx.check(kp.num_bandinvs == e.num_bandinvs, "parities", lambda: f"{t}: {kp.num_bandinvs} {e.num_bandinvs}")
            ctx.check(abs(kp.upper-e.upper) < 1e-5 or (np.isnan(kp.upper) and np.isnan(e.upper)), "next band", lambda: f"{t}: {kp.upper} {e.upper}")
            for l, (i1, i2) in enumerate(zip(kp.irreps, e.irreps)):
                f = lambda i: {n: v for n, v in i.items() if abs(v) > 5e-3}
                a1, a2 = f(i1), f(i2)
                ctx.check(set(a1) == set(a2) and all(abs(a1[n]-a2[n]) < 1e-3 for n in a1 if n in a2), "irreps", lambda: f"{t} level {l}: {a1} vs {a2}")
        for nm in ("gap_direct", "gap_indirect"):
            a, e = getattr(bs, nm), getattr(ref, nm)
            ctx.check(abs(a-e) < 2e-5 or (not np.isfinite(a) and not np.isfinite(e)), nm, lambda: f"{tag}: {a} {e}")
        ctx.check(bs.num_bandinvs == ref.num_bandinvs, "parities", tag)
        for br in (0.1, 100.):
            ctx.check(np.abs(bs.KPOINTSline(breakTHRESH=br)-ref.KPOINTSline(breakTHRESH=br)).max() < 1e-6, "path", lambda: f"{tag}: {bs.KPOINTSline(breakTHRESH=br)} {ref.KPOINTSline(breakTHRESH=br)}")
        ctx.check(len(js["k points"]) == len(rjs["k points"]) and [k["kpname"] for k in js["k points"]] == names, "json", tag)
    # separation
    common = set.intersection(*[{s.ind for s in kp.little_group} for kp in ref.kpoints])-{1}
    nmin = min(len(x["E"]) for x in calc.kpts)
    full = [n for n in range(1, nmin) if all(x["E"][n]-x["E"][n-1] > 1e-3 for x in calc.kpts)]
    if not full or not common:
        ctx.outcome("not separable")
        return
    sbs = {}
    for code in F.CODES:
        d = ctx.tmpdir()
        kw = F.write(calc, code, d)
        with chdir(d), quiet(), memo_spacegroup():
            sbs[code] = BandStructure(calculate_traces=True, search_cell=True, degen_thresh=1e-4, IBend=full[-1], **kw)
            sbs[code].identify_irreps(names)
    for isym in sorted(common)[:2]:
        sub = {}
        for code, bs in sbs.items():
            with quiet():
                sub[code] = bs.Separate(isym, degen_thresh=1e-4, groupKramers=False)
        v0 = sub[rcode]
        for code, v in sub.items():
            t = f"{code} separated by {isym}"
            ctx.step()
            if not ctx.check(len(v) == len(v0), "separated subspaces", lambda: f"{t}: {list(v)} vs {list(v0)}"):
                continue
            for w, s in v.items():
                w0 = min(v0, key=lambda z: abs(z-w))
                ctx.check(abs(w-w0) < 1e-3, "separation eigenvalue", lambda: f"{t}: {list(v)} vs {list(v0)}")
                ok = len(s.kpoints) == len(v0[w0].kpoints) and all(a.num_bands == e.num_bands and np.abs(np.array(a.Energy_mean)-np.array(e.Energy_mean)).max() < 1e-5 for a, e in zip(s.kpoints, v0[w0].kpoints))
                ctx.check(ok, "separated energies", t)
    ctx.outcome("spinor" if sp else "scalar", len(ref.spacegroup.symmetries), "separable", len(common) > 0)
