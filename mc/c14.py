"""C14 symmetry files: write-read-write histories for every space group, and files that do not fit."""
import os
import numpy as np
from . import crystals as X, physics as P, formats as F, tables
from .core import quiet, raises, chdir

LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {"quick": "230 space groups x 2 settings of basis, origin and orientation (scalar; 20 groups also spinor) x lattice parameter {not given, 1, 7.3, 0.53} x with/without cell search; "
                   "every history write-read-write-read, file order reversed and rotated, files of another orientation, cut, with wrong counts or with the operations of every cyclic subgroup only; 14 groups: irreps through all codes",
          "thorough": "230 space groups x 6 settings x spin; 60 groups for irreps"}
ASSUMPTIONS = ["lattice parameters in Bohr, as Quantum ESPRESSO's alat"]
SETS = [(0, 0, 0), (2, 3, 1), (1, 1, 2), (3, 4, 1), (6, 2, 3), (4, 5, 0)]
SPIN = [3, 14, 19, 33, 62, 75, 88, 92, 122, 136, 152, 155, 167, 173, 176, 186, 194, 198, 214, 230]
THOROUGH_BUDGET = 2*3600


def cases(tier):
    out = []
    t = tier == "thorough"
    for sg in range(1, 231):
        for s in (range(6) if t else [sg % 6, (sg+3) % 6]):
            out.append(dict(kind="hist", sg=sg, set=s, sp=0))
            if t or (sg in SPIN and s == sg % 6):
                out.append(dict(kind="hist", sg=sg, set=s, sp=1))
    for sg in (range(2, 231, 4) if t else SPIN[1::2]+[13, 72, 205, 220]):
        for sp in (0, 1):
            out.append(dict(kind="irreps", sg=sg, set=sg % 6, sp=sp))
    return out


def parse(path):
    w = open(path).read().split()
    n = int(w[0])
    a = np.array(w[1:], float)
    return n, a.reshape(-1, 4, 3)


def compare(ctx, a, b, t, order=None):
    ctx.require(len(a) == len(b), "number of operations", lambda: f"{t}: {len(a)} {len(b)}")
    for i, s in enumerate(a):
        o = b[i if order is None else order[i]]
        ctx.check((np.array(s.rotation) == np.array(o.rotation)).all(), "rotation", lambda: f"{t} op {i+1}: {s.rotation} vs {o.rotation}")
        ctx.check(X.same_mod1(s.translation, o.translation), "translation", lambda: f"{t} op {i+1}: {s.translation} vs {o.translation}")
        if s.spinor:
            ctx.check(np.abs(s.sign*s.spinor_rotation-o.sign*o.spinor_rotation).max() < 1e-5, "spin", lambda: f"{t} op {i+1}")


def hist(spec, ctx):
    from irrep.spacegroup import SpaceGroup
    import warnings
    warnings.simplefilter("ignore")
    b, o, r = SETS[spec["set"]]
    sp = bool(spec["sp"])
    c = X.crystal(spec["sg"], b, o, r, norb=2)
    cell = (c.lattice, c.pos, c.typ)
    for search in ((True,) if sp else (False, True)):
        with quiet():
            S = SpaceGroup(cell, spinor=sp, search_cell=search)
        for al in ((None, 7.3) if sp else (None, 1., 7.3, 0.53)):
            ctx.state(spec, search, al)
            alat = 1. if al is None else al
            t = f"{spec} search_cell={search} alat={al}"
            with quiet():
                S.write_sym_file("a.sym", alat=al)
            n, M = parse("a.sym")
            ctx.require(n == len(S.symmetries) == len(M), "file length", t)
            for s, m in zip(S.symmetries, M):
                Rc = X.cart(np.array(s.rotation), c.lattice)
                ctx.check(np.abs(m[:3]-Rc).max() < 1e-8, "rotation in file", lambda: f"{t} op {s.ind}: {m[:3]} vs {Rc}")
                tr = -np.array(s.translation) @ c.lattice/(alat*F.bohr())
                ctx.check(np.abs(m[3]-tr).max() < 1e-6*max(1, np.abs(tr).max()), "translation in file", lambda: f"{t} op {s.ind}: {m[3]} vs {tr}")
            prev = S
            for step in (1, 2):
                with quiet():
                    S2 = SpaceGroup(cell, spinor=sp, search_cell=search, alat=alat, from_sym_file="a.sym")
                ctx.step(); ctx.trace()
                compare(ctx, S.symmetries, S2.symmetries, f"{t} read {step}")
                ctx.check([s.ind for s in S2.symmetries] == [s.ind for s in S.symmetries], "indices", t)
                ctx.check(S2.number == S.number and np.abs(np.array(S2.refUC)-np.array(S.refUC)).max() < 1e-9, "group", t)
                with quiet():
                    S2.write_sym_file("b.sym")           # lattice parameter kept
                n2, M2 = parse("b.sym")
                d = M2-M
                # translations modulo lattice vectors
                d[:, 3] = d[:, 3] @ np.linalg.inv(c.lattice)*alat*F.bohr()
                d[:, 3] -= np.round(d[:, 3])
                ctx.check(n2 == n and np.abs(d).max() < 1e-8, "file written again", lambda: f"{t}: {np.abs(d).max()}")
                os.replace("b.sym", "a.sym")
            if sp or al != 7.3:
                continue
            # another order of the operations
            head, rest = str(n), M
            for perm in (np.arange(n)[::-1], np.roll(np.arange(n), n//2+1)):
                with open("p.sym", "w") as f:
                    f.write(f"{n}\n"+"".join("\n"+"".join(" ".join(f"{x:.15f}" for x in row)+"\n" for row in M[i]) for i in perm))
                with quiet():
                    S3 = SpaceGroup(cell, spinor=sp, search_cell=search, alat=alat, from_sym_file="p.sym")
                ctx.step()
                if search:
                    compare(ctx, S.symmetries, S3.symmetries, f"{t} permuted file")
                else:
                    same = all((np.array(S3.symmetries[j].rotation) == np.array(S.symmetries[i].rotation)).all() for j, i in enumerate(perm))
                    if same:
                        compare(ctx, S3.symmetries, S.symmetries, f"{t} permuted file", order=perm)
                    else:
                        compare(ctx, S3.symmetries, S.symmetries, f"{t} permuted file")
                    ctx.check([s.ind for s in S3.symmetries] == list(range(1, n+1)), "indices", t)
            # files that do not fit
            bad = {}
            for angle in (0.7, 0.1):
                Q = X.rotation((1, 2, 3), angle)
                Mr = M.copy()
                for i in range(n):
                    Mr[i, :3] = Q @ M[i, :3] @ Q.T
                if any(abs(abs(np.trace(M[i, :3]))-3) > 1e-6 for i in range(n)):
                    bad[f"another orientation (by {angle} rad)"] = (n, Mr)
            bad["one operation missing"] = (n, M[:-1])
            bad["one operation more"] = (n, np.concatenate([M, M[:1]]))
            Mx = M.copy(); Mx[-1, 0, 0] += 0.3; Mx[-1, 1, 2] -= 0.2
            bad["not a rotation"] = (n, Mx)
            for what, (m, A) in bad.items():
                with open("x.sym", "w") as f:
                    f.write(f"{m}\n"+"".join("\n"+"".join(" ".join(f"{x:.15f}" for x in row)+"\n" for row in a) for a in A))
                ctx.step()
                try:
                    with quiet():
                        SpaceGroup(cell, spinor=sp, search_cell=search, alat=alat, from_sym_file="x.sym")
                except Exception:
                    continue
                ctx.check(False, "file that does not fit", f"{t}: {what}")
            # files with part of the operations (every cyclic subgroup), or others than those of the crystal:
            # used as they are, but never taken for the group of the tables
            key = {np.array(s.rotation).tobytes(): i for i, s in enumerate(S.symmetries)}
            subs = {(0,) if np.array_equal(S.symmetries[0].rotation, np.eye(3)) else tuple(i for i, s in enumerate(S.symmetries) if np.array_equal(s.rotation, np.eye(3)))}
            for s in S.symmetries:
                g, R = set(), np.array(s.rotation)
                while R.tobytes() in key and key[R.tobytes()] not in g:
                    g.add(key[R.tobytes()]); R = (R @ np.array(s.rotation)).astype(R.dtype)
                subs.add(tuple(sorted(g)))
            part = {f"operations {[i+1 for i in g]}": M[list(g)] for g in sorted(subs) if len(g) < n}
            part["the first operation twice"] = np.concatenate([M[:1], M[:-1]]) if n > 1 else np.concatenate([M, M])
            Mt = M.copy(); Mt[-1, 3] += np.array([.31, .17, .23]) @ c.lattice/(alat*F.bohr())
            if n > 1 and not (n == 2 and search is False):
                part["another translation"] = Mt
            for what, A in part.items():
                with open("y.sym", "w") as f:
                    f.write(f"{len(A)}\n"+"".join("\n"+"".join(" ".join(f"{x:.15f}" for x in row)+"\n" for row in a) for a in A))
                ctx.step()
                res = []
                with quiet():
                    e = raises(lambda: res.append(SpaceGroup(cell, spinor=sp, search_cell=search, alat=alat, from_sym_file="y.sym")))
                if what == "another translation" and n == 2:      # of one operation: may be removed by another origin
                    continue
                if search:
                    ctx.check(e is not None, "part of the group matched", lambda: f"{t}: {what}")
                elif what.startswith("operations"):
                    if ctx.check(e is None, "part of the group refused", lambda: f"{t}: {what} {e!r}"):
                        for a, o in zip(A, res[0].symmetries):
                            Rc = X.cart(np.array(o.rotation), c.lattice)
                            d = (a[3]*alat*F.bohr()) @ np.linalg.inv(c.lattice)+np.array(o.translation)
                            ctx.check(np.abs(a[:3]-Rc).max() < 1e-6 and np.abs(d-np.round(d)).max() < 1e-5, "operation of the part", lambda: f"{t}: {what}")
                        ctx.check([o.ind for o in res[0].symmetries] == list(range(1, len(A)+1)) and len(res[0].symmetries) == len(A), "indices of the part", lambda: f"{t}: {what}")
    ctx.outcome("spinor" if sp else "scalar", n)


def irreps(spec, ctx):
    from irrep.bandstructure import BandStructure
    from irrep.spacegroup import SpaceGroup
    b, o, r = SETS[spec["set"]]
    sp = bool(spec["sp"])
    c = X.crystal(spec["sg"], b, o, r, norb=1)
    od = np.argsort(c.typ, kind="stable")
    c.pos, c.typ = c.pos[od], [c.typ[i] for i in od]
    with quiet():
        S0 = SpaceGroup((c.lattice, c.pos, c.typ), spinor=False, search_cell=True)
    inv = np.linalg.inv(np.array(S0.refUC, float))
    tk = tables.table(spec["sg"], sp).kpoints[:3]
    names = [t["name"] for t in tk]
    calc = F.physical_calc(c, [tables.snap(t["k"]) @ inv for t in tk], sp, 6, npw=22, gauge=1, efermi=0.)
    for code in F.CODES:
        d = ctx.tmpdir()
        kw = F.write(calc, code, d)
        al = None if code == "espresso" else 9.7
        out = []
        with chdir(d), quiet():
            for src in (None, "x.sym"):
                bs = BandStructure(calculate_traces=True, search_cell=True, degen_thresh=1e-4, alat=al, from_sym_file=src, IBend=calc.nb-1, **kw)
                bs.identify_irreps(names)
                if src is None:
                    bs.spacegroup.write_sym_file("x.sym")
                out.append(bs)
        ctx.step(); ctx.trace(); ctx.state(spec, code)
        compare(ctx, out[0].spacegroup.symmetries, out[1].spacegroup.symmetries, f"{spec} {code}")
        for k1, k2 in zip(out[0].kpoints, out[1].kpoints):
            t = f"{spec} {code} k={k1.k}"
            ctx.require(k1.char.shape == k2.char.shape, "levels", t)
            ctx.check(np.abs(k1.char_refUC-k2.char_refUC).max() < 1e-5, "characters", lambda: f"{t}: {np.abs(k1.char_refUC-k2.char_refUC).max()}")
            for i1, i2 in zip(k1.irreps, k2.irreps):
                f = lambda i: {n: v for n, v in i.items() if abs(v) > 5e-3}
                a1, a2 = f(i1), f(i2)
                ctx.check(set(a1) == set(a2) and all(abs(a1[n]-a2[n]) < 1e-3 for n in a1), "irreps", lambda: f"{t}: {a1} {a2}")
    ctx.outcome("irreps", "spinor" if sp else "scalar")


def run_case(spec, ctx):
    (hist if spec["kind"] == "hist" else irreps)(spec, ctx)
