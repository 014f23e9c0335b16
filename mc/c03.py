"""C03: irrep tables are loaded faithfully and form a consistent character theory."""
import numpy as np
from .core import quiet, raises
from .crystals import *
from . import tables
from irreptables import IrrepTable, SymopTable, KPoint, Irrep

LEVEL = "model_checking"
BOUNDS = {"quick": "all 460 tables: every operation, k-point and irrep; round trip of each through text, with the operations in 4 orders; each table re-read from a copy under another name",
          "thorough": "as quick, plus every table rewritten in 5 layouts (explicit indices, ranges, extra blank lines, polar characters, operations in reverse)"}
ASSUMPTIONS = ["the files are parsed by an independent reader; operations are compared with spglib's ITA database"]
CHUNK = 8
POL = 5e-5


def cases(tier):
    for sg in range(1, 231):
        for sp in (False, True):
            yield dict(sg=sg, spinor=sp, layouts=tier != "quick")


def same_op(o, R, t, S, spinor, tol=1e-9):
    return np.array_equal(o.R, R) and np.allclose(o.t, t, atol=tol) and (not spinor or np.allclose(o.S, S, atol=tol*10))


def compare(ctx, T, ref, sg, spinor, tag, tol=1e-9):
    ctx.check(T.number == sg and bool(T.spinor) == spinor and T.name == ref.header['name'], "header", f"{tag} {T.number} {T.name}")
    ctx.require(len(T.symmetries) == len(ref.ops) == int(ref.header['nsym']) == T.nsym, "number-of-operations", f"{tag} {len(T.symmetries)} vs {len(ref.ops)}")
    for i, (o, (R, t, S)) in enumerate(zip(T.symmetries, ref.ops)):
        ctx.check(same_op(o, R, t, S, spinor, tol), "operation-loaded", lambda: f"{tag} op {i+1}: {o.R.tolist()} {o.t} {o.S} vs {R.tolist()} {t} {S}")
    want = [(kp, ir) for kp in ref.kpoints for ir in kp['irreps']]
    ctx.require(len(T.irreps) == len(want), "number-of-irreps", f"{tag} loaded {len(T.irreps)}, file has {len(want)}")
    for o, (kp, ir) in zip(T.irreps, want):
        n = len(kp['isym'])
        ok = (o.name == ir['name'] and o.kpname == kp['name'] and np.allclose(o.k, kp['k'], atol=tol) and o.dim == ir['dim'] and
              sorted(o.characters) == sorted(kp['isym']) and o.nsym == n)
        ctx.check(ok, "irrep-loaded", lambda: f"{tag} {o.name} at {o.kpname} {o.k} dim {o.dim} syms {sorted(o.characters)} vs {ir['name']} {kp}")
        if ok:
            ch = np.array([o.characters[i] for i in kp['isym']])
            ctx.check(np.allclose(ch, ir['ch'], atol=max(tol, 1e-9)), "characters-loaded", lambda: f"{tag} {o.name}: {ch.tolist()} vs {ir['ch'].tolist()}")
        ctx.step()


def run_case(spec, ctx):
    sg, spinor = spec["sg"], spec["spinor"]
    ref = tables.table(sg, spinor)
    T = IrrepTable(sg, spinor)
    ctx.step()
    compare(ctx, T, ref, sg, spinor, "table")
    ops = tables.exact_ops(sg, spinor)
    # --- the loaded operations are the group of the ITA setting, closed modulo lattice translations
    dft = {tuple(R.ravel()): [] for R, t in conv_ops(sg)}
    for R, t in conv_ops(sg):
        dft[tuple(R.ravel())].append(t)
    cent = dft[tuple(np.eye(3, dtype=int).ravel())]
    L = lambda x: any(same_mod1(x, c, 1e-4) for c in cent)
    code = {}
    for i, o in enumerate(T.symmetries):
        k = tuple(o.R.ravel())
        ctx.check(k in dft and any(same_mod1(o.t, t, 1e-4) for t in dft[k]), "ita-operation", lambda: f"op {i+1} {o.R.tolist()} {o.t} is not in the space group")
        ctx.check(k not in code, "operation-repeated", f"op {i+1}")
        code[k] = i
    ctx.check(len(code) == len(dft), "group-order", f"{len(code)} vs {len(dft)}")
    fac = {}
    for i, a in enumerate(T.symmetries):
        if spinor:
            P = cart(a.R, lattice(sg)); P = P*np.sign(np.linalg.det(P))
            ctx.check(np.allclose(a.S @ a.S.conj().T, np.eye(2), atol=1e-4) and abs(np.trace(adjoint(a.S))-np.trace(P)) < 1e-3 and abs(np.linalg.det(a.S)-1) < 1e-4,
                      "spin-matrix", lambda: f"op {i+1} {a.S.tolist()}")
        for j, b in enumerate(T.symmetries):
            k = code.get(tuple((a.R @ b.R).ravel()))
            if not ctx.check(k is not None and L(a.t + a.R @ b.t - T.symmetries[k].t), "closure", f"{i+1}*{j+1}"):
                return
            f = 1.
            if spinor:
                X = a.S @ b.S; Sk = T.symmetries[k].S
                f = np.trace(X @ Sk.conj().T).real/2
                if not ctx.check(np.allclose(X, np.sign(f)*Sk, atol=1e-3), "spin-product", f"{i+1}*{j+1}"):
                    return
            fac[i, j] = (k, np.sign(f))
    ctx.step(len(T.symmetries)**2)
    # --- character theory at every k-point
    dirs = np.array([d for d in np.ndindex(3, 3, 3)])-1
    by = {}
    for o in T.irreps:
        by.setdefault(o.kpname, []).append(o)
    names = set()
    for kp in ref.kpoints:
        irr = by.get(kp['name'], [])
        ctx.state(sg, spinor, kp['name'])
        k = tables.snap(kp['k'])
        # little group: k R = k modulo reciprocal lattice (primitive)
        lg = []
        for i, o in enumerate(T.symmetries):
            d = k @ np.linalg.inv(o.R) - k
            if all(abs((d @ c)-round(d @ c)) < 1e-6 for c in np.vstack((cent, np.eye(3)))):
                lg.append(i+1)
        if not ctx.check(irr, "k-point-missing", kp['name']):
            continue
        for o in irr:
            ctx.check(sorted(o.characters) == lg, "little-group", lambda: f"{kp['name']} {o.name}: lists {sorted(o.characters)}, little group is {lg}")
        if any(sorted(o.characters) != lg for o in irr):
            continue
        M = np.array([[o.characters[i] for i in lg] for o in irr])
        G = M @ M.conj().T/len(lg)
        ctx.check(np.allclose(G, np.eye(len(irr)), atol=1e-3), "orthonormality", lambda: f"{kp['name']} {[o.name for o in irr]}: {np.round(G, 4).tolist()}")
        ctx.check(sum(o.dim**2 for o in irr) == len(lg), "completeness", lambda: f"{kp['name']} dims {[o.dim for o in irr]} order {len(lg)}")
        ctx.check(all(abs(o.characters[1]-o.dim) < 1e-6 for o in irr), "dimension", kp['name'])
        ctx.check(all(o.name not in names for o in irr) and len({o.name for o in irr}) == len(irr), "names", str([o.name for o in irr]))
        names |= {o.name for o in irr}
        # projective class functions: chi(a b)-phase relation under conjugation h g h^-1
        X = {}
        for i in lg:
            for j in lg:
                kk, f = fac[i-1, j-1]
                t = T.symmetries[i-1].t + T.symmetries[i-1].R @ T.symmetries[j-1].t - T.symmetries[kk].t
                X[i, j] = (kk+1, f*np.exp(2j*np.pi*(k @ t)))
        for i in lg:
            for h in lg:
                a, pa = X[h, i]
                # h i = g h  -> g is the element with X[g,h][0]==a
                g = next(g for g in lg if X[g, h][0] == a)
                ph = X[g, h][1]
                ok = np.abs(M[:, lg.index(i)]*pa - M[:, lg.index(g)]*ph).max() < 2e-3
                # D(h)D(i)=pa D(hi); D(g)D(h)=ph D(gh)=ph D(a) -> D(i) = pa/ph D(h)^-1 D(g) D(h)
                ok = np.abs(M[:, lg.index(i)] - pa/ph*M[:, lg.index(g)]).max() < 2e-3
                if not ok:
                    ctx.fail("class-function", f"{kp['name']} conj of {i} by {h}: {M[:, lg.index(i)].tolist()} {M[:, lg.index(g)].tolist()} {pa/ph}")
                    break
            else:
                continue
            break
        ctx.step(len(lg))
        ctx.outcome(len(lg), len(irr))
    # --- text round trips
    for i, o in enumerate(T.symmetries):
        p = SymopTable(o.str(spinor=spinor))
        ctx.check(np.array_equal(p.R, o.R) and np.allclose(p.t, o.t, atol=6e-6) and np.allclose(p.S, o.S if spinor else np.eye(2), atol=POL), "operation-roundtrip", lambda: o.str(spinor))
    for kp in ref.kpoints:
        a = KPoint(name=kp['name'], k=np.array(kp['k']), isym=np.array(kp['isym']))
        e = raises(lambda: KPoint(line=a.str()))
        if ctx.check(e is None, "k-point-roundtrip", lambda: f"{a.str()!r} cannot be read: {e!r}"):
            b = KPoint(line=a.str())
            ctx.check(b.name == a.name and np.allclose(a.k, b.k) and list(b.isym) == sorted(a.isym), "k-point-roundtrip", a.str())
            e = raises(lambda: (a == b) or (_ for _ in ()).throw(ValueError("not equal")))
            ctx.check(e is None, "k-point-equality", lambda: f"{a.str()} == itself read back: {e!r}")
            c = KPoint(name=kp['name'], k=np.array(kp['k'])+[0, 0, .5], isym=np.array(kp['isym']))
            d = KPoint(name=kp['name'], k=np.array(kp['k']), isym=np.array(list(kp['isym'])+[97]))
            g = KPoint(name=kp['name']+'x', k=np.array(kp['k']), isym=np.array(kp['isym']))
            for z in (c, d, g):
                ctx.check(raises(lambda: (a != z) or (_ for _ in ()).throw(ValueError())) is None and not (a == z), "k-point-inequality", z.show())
        for o in by.get(kp['name'], []):
            q = Irrep(line=o.str(), k_point=KPoint(name=kp['name'], k=np.array(kp['k']), isym=np.array(sorted(kp['isym']))))
            ok = q.name == o.name and q.dim == o.dim and set(q.characters) == set(o.characters) and all(abs(q.characters[i]-o.characters[i]) < 3*POL for i in o.characters)
            ctx.check(ok, "irrep-roundtrip", lambda: o.str())
            # operations listed in another order
            n = len(lst := sorted(kp['isym']))
            for p in ({tuple(range(n))[::-1], tuple(range(n))[1:]+(0,), tuple(sorted(range(n), key=lambda i: (i % 2, i)))}):
                perm = [lst[i] for i in p]
                kq = KPoint(line=f"kpoint {kp['name']} : {' '.join(map(repr, map(float, kp['k'])))} : {' '.join(map(str, perm))}")
                if not ctx.check(sorted(kq.isym) == lst, "k-point-order", lambda: f"{kq.isym} {perm}"):
                    break
                ch = np.array([o.characters[i] for i in perm])
                txt = "  ".join(repr(float(x)) for x in np.hstack((np.abs(ch), np.angle(ch)/np.pi)))
                q = Irrep(line=f"{o.name} {o.dim}   {txt}", k_point=kq)
                ok = set(q.characters) == set(o.characters) and all(abs(q.characters[i]-o.characters[i]) < 1e-6 for i in o.characters)
                ctx.check(ok, "irrep-order", lambda: f"{o.name} with operations {perm}")
                u = Irrep(line=q.str(), k_point=KPoint(line=kq.str()))
                ok = set(u.characters) == set(o.characters) and all(abs(u.characters[i]-o.characters[i]) < 3*POL for i in o.characters)
                ctx.check(ok, "irrep-order-roundtrip", lambda: f"{o.name} with operations {perm}: {q.str()}")
    # --- a user-supplied table: the same content written anew
    d = ctx.tmpdir()
    for lay in range(5 if spec["layouts"] else 1):
        f = f"{d}/t{lay}.dat"
        write(f, ref, sg, spinor, lay)
        compare(ctx, IrrepTable(sg, spinor, name=f), ref, sg, spinor, f"layout {lay}", 2e-6)
        ctx.step()
    for bad, kw in (("number", dict(sg=sg % 230+1)), ("spinor", dict(spinor=not spinor))):
        f = f"{d}/bad-{bad}.dat"
        write(f, ref, kw.get("sg", sg), kw.get("spinor", spinor), 0)
        ctx.check(raises(lambda: IrrepTable(sg, spinor, name=f)) is not None, "wrong-table-accepted", bad)
    ctx.trace()


def ranges(v):
    out, i = [], 0
    while i < len(v):
        j = i
        while j+1 < len(v) and v[j+1] == v[j]+1:
            j += 1
        out.append(str(v[i]) if j == i else f"{v[i]}-{v[j]}")
        i = j+1
    return " ".join(out)


def write(fname, ref, sg, spinor, lay):
    w = []
    w += [f"SG={sg}", f" name={ref.header['name']} ", f" nsym= {len(ref.ops)}", f" spinor={spinor}", "symmetries="]
    for R, t, S in ref.ops:
        l = "   ".join(" ".join(str(x) for x in r) for r in R)+"     "+" ".join(repr(float(x)) for x in t)
        if S is not None:
            l += "      "+"  ".join(repr(float(x)) for x in np.abs(S.ravel()))+"    "+"  ".join(repr(float(x)) for x in np.angle(S.ravel())/np.pi)
        w.append(l)
        if lay == 2: w.append("")
    w += ["", ""]
    for kp in ref.kpoints:
        if lay == 4:        # operations in another order
            kp = dict(kp, isym=list(kp['isym'])[::-1], irreps=[dict(ir, ch=np.array(ir['ch'])[::-1]) for ir in kp['irreps']])
        s = ranges(kp['isym']) if lay in (0, 2) else " ".join(map(str, kp['isym']))
        w.append(f" kpoint  {kp['name']} : {' '.join(repr(float(x)) for x in kp['k'])}  : {s}")
        for ir in kp['irreps']:
            real = np.abs(np.imag(ir['ch'])).max() < 1e-9 and lay != 3
            c = "  ".join(repr(float(x)) for x in (np.real(ir['ch']) if real else np.abs(ir['ch'])))
            if not real:
                c += "   "+"  ".join(repr(float(x)) for x in np.angle(ir['ch'])/np.pi)
            w.append(f"{ir['name']} {ir['dim']}    {c}")
            if lay == 2: w.append("   ")
        w.append("")
    open(fname, "w").write("\n".join(w)+"\n")
