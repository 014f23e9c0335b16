"""C09 structures in every accepted input form: the product of all syntactic choices of every format is written for
reference structures and read by the real code; the lattice, positions and the partition into species must be the
reference ones.  Unsupported or contradictory input must be rejected."""
import itertools, os
import numpy as np
from . import crystals as X, formats as F
from .core import quiet, chdir, raises, memo_spacegroup

LEVEL = "model_checking"
CHUNK = 1
BOUNDS = {"quick": "POSCAR: 4 scale forms x species line x selective dynamics(3) x coordinates(7) x 4 endings x 3 number styles x 4 structures; "
                   "win: units(4) x atoms block(5) x 24 orders of blocks (with the parameters) x assignment(4) x case(3) x comments(4), in full for one structure and pairwise for 3; "
                   "QE and Abinit: 6 structures x alat x number styles, QE also with another initial structure (relaxations); 40 kinds of malformed input",
          "thorough": "full products for all structures, 12 structures"}
ASSUMPTIONS = ["species are compared as a partition of the atoms", "positions agree modulo nothing (exact fractional coordinates) to 1e-8"]


def structure(n):
    """reference structures: lattice rows, positions, types (grouped by type)"""
    L = [X.crystal(1, b, 0, r).lattice for b, r in ((0, 0), (2, 1), (5, 2), (3, 3))][n % 4]
    pos = np.array([[.1, .2, .3], [.6, -.15, .77], [0, .5, 1.25], [.45, .9, .05], [.33333333, .66666667, .2], [0, 0, 0]])
    types = [[1], [1, 2], [1, 1, 2], [1, 2, 2, 3], [1, 2, 3, 3, 3, 3], [1, 1, 1]][n % 6]
    c = X.Crystal()
    c.lattice = L if n < 4 else L[::-1]*1.0         # the others are left-handed
    c.pos, c.typ = pos[:len(types)].copy(), types
    if n >= 6:
        c.pos = c.pos[::-1].copy()
    if n == BIG:                                    # many atoms and species
        c.typ = [1]*11+[2]+[i for i in range(3, 13)]
        c.pos = np.array([[(.07*i*i) % 1, (.13*i+.01*(i % 3)) % 1-.3, .045*i] for i in range(len(c.typ))])
    c.rec = 2*np.pi*np.linalg.inv(c.lattice).T
    return c


NSTR = 6
BIG = 99
NAMES = ["Si", "O", "Pb", "Fe", "F", "C", "Ca", "S", "B", "Bi", "I", "In"]


def cases(tier):
    out = []
    ns = NSTR if tier == "quick" else 2*NSTR
    for n in range(ns):
        for style in range(3):
            out.append(dict(kind="poscar", n=n, style=style))
        out.append(dict(kind="qe", n=n))
        out.append(dict(kind="abi", n=n))
        for u in range(4):
            for a in range(5):
                out.append(dict(kind="win", n=n, u=u, a=a, full=int(n == 1 or tier != "quick")))
    for k in ("qe", "abi"):
        out.append(dict(kind=k, n=BIG))
    out.append(dict(kind="poscar", n=BIG, style=0))
    for a in range(5):
        out.append(dict(kind="win", n=BIG, u=a % 4, a=a, full=0))
    for b in ("poscar", "win", "qe", "vasp"):
        out.append(dict(kind="bad", what=b))
    return out


def run_case(spec, ctx):
    globals()["run_"+spec["kind"]](spec, ctx)


def same(ctx, tag, bs, c):
    L, p, t = bs.spacegroup.Lattice, np.array(bs.spacegroup.positions, float), list(bs.spacegroup.typat)
    ctx.step(); ctx.trace()
    ok = ctx.check(np.abs(L-c.lattice).max() < 1e-7 and np.abs(bs.Lattice-c.lattice).max() < 1e-7, "lattice", lambda: f"{tag}:\n{L}\nexpected\n{c.lattice}")
    ok &= ctx.check(p.shape == c.pos.shape and np.abs(p-c.pos).max() < 1e-7, "positions", lambda: f"{tag}:\n{p}\nexpected\n{c.pos}")
    ok &= ctx.check(len(t) == len(c.typ) and [[a == b for a in t] for b in t] == [[a == b for a in c.typ] for b in c.typ], "species", lambda: f"{tag}: {t} expected {c.typ}")
    return ok


def num(x, style):
    return ("%.12f" % x, "%.13E" % x, "  %+.14g\t" % x)[style]


def poscar_text(c, scale, spec, sel, coord, end, style, species_line="Xx"):
    V = abs(np.linalg.det(c.lattice))
    if scale == "vol":
        s, L, sc = -V, c.lattice*1.7, 1/1.7
    else:
        s, sc = scale, scale
        L = c.lattice/scale
    ty = sorted(set(c.typ))
    assert c.typ == sorted(c.typ)
    lines = ["some title  1 2 3" if style else "", num(s, style)]
    lines += [" ".join(num(x, style) for x in r) for r in L]
    if spec:
        lines.append(" ".join(NAMES[i] for i in range(len(ty))))
    lines.append(" ".join(str(c.typ.count(t)) for t in ty))
    if sel:
        lines.append(sel)
    lines.append(coord)
    P = c.pos if coord[0].lower() == "d" else (c.pos @ c.lattice)/sc
    fl = [" T T F", " F F F", " T F T"]
    lines += [" ".join(num(x, style) for x in r)+(fl[i % 3] if sel else "")+(" Si" if end == 3 and not sel else "") for i, r in enumerate(P)]
    t = "\n".join(lines)
    return t+("", "\n", "\n\n  0.1 0.2 0.3\n  0.4 0.5 0.6\n", "\n\n")[end]


SCALES = [1.0, 0.529177, 2.5, "vol"]
SELS = ["", "Selective dynamics", "s"]
COORDS = ["Direct", "direct", "D", "Cartesian", "cart", "C", "c"]


def onlysym(code, kw, d):
    from irrep.bandstructure import BandStructure
    with chdir(d), quiet():
        return BandStructure(onlysym=True, code=code, **kw)


def run_poscar(spec, ctx):
    c = structure(spec["n"])
    d = ctx.tmpdir()
    for sc, sp, sel, co, end in itertools.product(SCALES, (0, 1), SELS, COORDS, range(4)):
        t = poscar_text(c, sc, sp, sel, co, end, spec["style"])
        with open(d+"/P", "w") as f:
            f.write(t)
        ctx.state(spec, str(sc), sp, sel, co, end)
        bs = onlysym("vasp", dict(fPOS=d+"/P", spinor=False), d)
        same(ctx, f"POSCAR\n{t}\n", bs, c)
    # forms that may be rejected, but not misread
    for co in ("Kartesian", "k", "Fractional", "xyz"):
        for sc in SCALES:
            cart = co[0].lower() == "k"
            t = poscar_text(c, sc, 1, "", "c" if cart else "d", 1, spec["style"]).replace("\nc\n" if cart else "\nd\n", f"\n{co}\n")
            with open(d+"/P", "w") as f:
                f.write(t)
            try:
                bs = onlysym("vasp", dict(fPOS=d+"/P", spinor=False), d)
            except Exception:
                ctx.step(); ctx.outcome("rejected", co); continue
            if co == "xyz":
                ctx.fail("unknown coordinates", f"{co} accepted")
            same(ctx, f"POSCAR\n{t}\n", bs, c)
    ctx.outcome("poscar", spec["n"])


UNITS = ["", "ang", "bohr", "Bohr"]
ATOMS = ["frac", "cart", "cart ang", "cart bohr", "cart Ang"]


def win_blocks(c, unit, atoms, assign):
    B = F.bohr()
    names = {1: "Si", 2: "o", 3: "Pb1"} if max(c.typ) < 4 else {i+1: x for i, x in enumerate(NAMES)}
    L = c.lattice/(B if unit.lower() == "bohr" else 1)
    f = lambda v: " ".join("%.12f" % x for x in v)
    cell = ["begin unit_cell_cart"]+([unit] if unit else [])+[f(r) for r in L]+["end unit_cell_cart"]
    if atoms == "frac":
        at = ["begin atoms_frac"]+[names[t]+" "+f(p) for t, p in zip(c.typ, c.pos)]+["end atoms_frac"]
    else:
        u = (atoms.split()+[""])[1]
        P = c.pos @ c.lattice/(B if u.lower() == "bohr" else 1)
        at = ["begin atoms_cart"]+([u] if u else [])+[names[t]+" "+f(p) for t, p in zip(c.typ, P)]+["end atoms_cart"]
    kp = ["begin kpoints", "0.0 0.0 0.0", "0.5 0.25 -0.125 0.5", "end kpoints"]
    par = [f"num_bands{assign}2", f"spinors{assign}.false.", f"mp_grid{assign}2 1 1", f"num_wann{assign}2", f"fermi_energy{assign}0.5"]
    proj = ["begin projections", "Si:sp3", "f=0.25,0.25,0.25:s", "end projections"]
    return dict(cell=cell, at=at, kp=kp, par=par, proj=proj)


def mangle(lines, case, com):
    out = []
    for i, l in enumerate(lines):
        if case == 1:
            l = l.upper()
        elif case == 2:
            l = "".join(ch.upper() if (j+i) % 2 else ch for j, ch in enumerate(l))
        if com == 1:
            out += ["! comment = 5", "# num_bands = 7", "   "]
        if com == 2:
            l = "   "+l+"   ! 0.5 bohr"
        if com == 3:
            l = l+" # x : y = 3"
            out += [""]
        out.append(l)
    return out


def run_win(spec, ctx):
    c = structure(spec["n"])
    d = ctx.tmpdir()
    with open(d+"/w.eig", "w") as f:
        f.write("1 1 0.0\n2 1 1.0\n1 2 0.0\n2 2 1.0\n")
    orders = list(itertools.permutations(("cell", "at", "kp", "par")))
    assigns = [" = ", "=", " : ", "  "]
    for io, o in enumerate(orders):
        for ia, ass in enumerate(assigns):
            for case in range(3):
                for com in range(4):
                    if not spec["full"] and (io+ia+2*case+3*com) % 6:
                        continue
                    b = win_blocks(c, UNITS[spec["u"]], ATOMS[spec["a"]], ass)
                    lines = sum((b[x] for x in o), [])
                    if io % 2:
                        lines = lines+b["proj"]
                    t = "\n".join(mangle(lines, case, com))+"\n"
                    with open(d+"/w.win", "w") as f:
                        f.write(t)
                    ctx.state(spec, io, ia, case, com)
                    bs = onlysym("wannier90", dict(prefix=d+"/w", Ecut=20.), d)
                    if not same(ctx, t[:900], bs, c):
                        return
    ctx.outcome("win", spec["u"], spec["a"])


def run_qe(spec, ctx):
    c = structure(spec["n"])
    ks = [[0., 0, 0], [.1, .2, .3]]
    for al in (None, 1.0, 7.123):
        for perm in itertools.permutations(range(len(c.typ))) if len(c.typ) < 4 else [list(range(len(c.typ)))[::-1], list(range(len(c.typ)))]:
            cc = X.Crystal()
            cc.lattice, cc.rec = c.lattice, c.rec
            cc.pos, cc.typ = c.pos[list(perm)], [c.typ[i] for i in perm]
            calc = F.random_calc(cc, ks, False, 2, npw=8)
            d = ctx.tmpdir()
            F.espresso(calc, d+"/qe", alat=al)
            ctx.state(spec, al, list(perm))
            bs = onlysym("espresso", dict(prefix=d+"/qe"), d)
            same(ctx, "QE", bs, cc)
            # relaxations: the wave functions are those of the last structure
            for move, strain in ((.04, 0), (0, .03), (.03, .02)):
                c0 = X.Crystal()
                c0.lattice, c0.typ = c.lattice @ (np.eye(3)+strain*np.array([[1, .3, 0], [.3, -1, 0], [0, 0, .5]])), cc.typ
                c0.pos = cc.pos+move*np.array([[1, -2, (i % 3)-1] for i in range(len(cc.typ))])
                d = ctx.tmpdir()
                F.espresso(calc, d+"/qe", alat=al, initial=c0)
                ctx.state(spec, al, list(perm), move, strain)
                bs = onlysym("espresso", dict(prefix=d+"/qe"), d)
                same(ctx, "QE after a relaxation", bs, cc)
    ctx.outcome("qe", spec["n"])


def run_abi(spec, ctx):
    c = structure(spec["n"])
    ks = [[0., 0, 0], [.1, .2, .3]]
    for nk in (1, 2):
        for perm in itertools.permutations(range(len(c.typ))) if len(c.typ) < 4 else [list(range(len(c.typ)))[::-1], list(range(len(c.typ)))]:
            cc = X.Crystal()
            cc.lattice, cc.rec = c.lattice, c.rec
            cc.pos, cc.typ = c.pos[list(perm)], [c.typ[i] for i in perm]
            calc = F.random_calc(cc, ks[:nk], False, 2, npw=8)
            d = ctx.tmpdir()
            F.abinit(calc, d+"/w")
            ctx.state(spec, nk, list(perm))
            bs = onlysym("abinit", dict(fWFK=d+"/w"), d)
            same(ctx, "Abinit", bs, cc)
    ctx.outcome("abi", spec["n"])


def run_bad(spec, ctx):
    c = structure(3)
    d = ctx.tmpdir()
    n = 0

    def must(tag, code, kw):
        nonlocal n
        n += 1
        ctx.step(); ctx.trace(); ctx.state(spec, tag)
        e = raises(lambda: onlysym(code, kw, d))
        ctx.check(e is not None, "malformed input accepted", tag)

    if spec["what"] == "poscar":
        good = poscar_text(c, 1.0, 1, "", "Direct", 1, 0)
        L = good.split("\n")
        bad = {}
        for i in range(8, 12):
            bad[f"position {i} missing"] = L[:i]+L[i+1:]
            for v in ("0.1 0.2", "0.1", "0.1 x 0.2", ""):
                bad[f"position {i} {v!r}"] = L[:i]+[v]+L[i+1:]
        for i in range(2, 5):
            for v in ("1.0 2.0", "1.0 a 2.0", "", "1.0 2.0 3.0 4.0"):
                bad[f"lattice {i} {v!r}"] = L[:i]+[v]+L[i+1:]
        for v in ("", "x", "1.0 x"):
            bad[f"scale {v!r}"] = L[:1]+[v]+L[2:]
        for v in ("", "xyz", "Fract"):
            bad[f"coordinates {v!r}"] = L[:7]+[v]+L[8:]
        for v in ("1 2 2", "1 2 x", ""):
            bad[f"numbers {v!r}"] = L[:6]+[v]+L[7:]
        for i in range(1, 12):
            bad[f"only {i} lines"] = L[:i]
        for k, t in bad.items():
            with open(d+"/P", "w") as f:
                f.write("\n".join(t)+"\n")
            must("POSCAR "+k, "vasp", dict(fPOS=d+"/P", spinor=False))
        must("POSCAR absent", "vasp", dict(fPOS=d+"/none", spinor=False))
    elif spec["what"] == "win":
        with open(d+"/w.eig", "w") as f:
            f.write("1 1 0.0\n2 1 1.0\n1 2 0.0\n2 2 1.0\n")
        b = win_blocks(c, "ang", "frac", " = ")
        bad = {}
        for x in ("cell", "at", "kp", "par"):
            if x != "kp":       # not needed for the structure
                bad["no "+x] = {y: b[y] for y in b if y != x and y != "proj"}
            if x != "par":
                bad["twice "+x] = dict({y: b[y] for y in b if y != "proj"}, again=b[x])
                bad["not ended "+x] = dict({y: b[y] for y in b if y not in ("proj", x)}, last=b[x][:-1])
                bad["wrong end "+x] = dict({y: b[y] for y in b if y not in ("proj", x)}, last=b[x][:-1]+["end other"])
        bad["line missing in cell"] = dict(b, cell=b["cell"][:-2]+b["cell"][-1:])
        bad["line more in cell"] = dict(b, cell=b["cell"][:-1]+["1 2 3"]+b["cell"][-1:])
        bad["k-point missing"] = dict(b, kp=b["kp"][:-2]+b["kp"][-1:])
        bad["k-point more"] = dict(b, kp=b["kp"][:-1]+["0.1 0.1 0.1"]+b["kp"][-1:])
        bad["atom without coordinate"] = dict(b, at=b["at"][:2]+["Si 0.1 0.2"]+b["at"][3:])
        bad["atom with word"] = dict(b, at=b["at"][:2]+["Si 0.1 0.2 x"]+b["at"][3:])
        bad["atoms_xyz"] = dict(b, at=["begin atoms_xyz"]+b["at"][1:-1]+["end atoms_xyz"])
        bad["unit"] = dict(b, cell=["begin unit_cell_cart", "nm"]+b["cell"][2:])
        for i in range(3):
            bad[f"parameter {b['par'][i]} twice"] = dict(b, par=b["par"]+[b["par"][i]])
            bad[f"parameter {b['par'][i]} missing"] = dict(b, par=b["par"][:i]+b["par"][i+1:])
        bad["num_bands"] = dict(b, par=["num_bands = 3"]+b["par"][1:])
        bad["num_bands word"] = dict(b, par=["num_bands = x"]+b["par"][1:])
        bad["mp_grid"] = dict(b, par=b["par"][:2]+["mp_grid = 3 1 1"]+b["par"][3:])
        bad["spinors"] = dict(b, par=b["par"][:1]+["spinors = maybe"]+b["par"][2:])
        for k, t in bad.items():
            with open(d+"/w.win", "w") as f:
                f.write("\n".join(sum(t.values(), []))+"\n")
            must("win "+k, "wannier90", dict(prefix=d+"/w", Ecut=20.))
        with open(d+"/w.win", "w") as f:
            f.write("\n".join(sum(b.values(), []))+"\n")
        for k, t in {"short": "1 1 0.0\n2 1 1.0\n1 2 0.0\n", "long": "1 1 0.0\n2 1 1.0\n1 2 0.0\n2 2 1.0\n3 2 1.0\n", "bands": "1 1 0.0\n3 1 1.0\n1 2 0.0\n2 2 1.0\n",
                     "k": "1 1 0.0\n2 1 1.0\n1 3 0.0\n2 3 1.0\n", "order": "1 1 0.0\n1 2 0.0\n2 1 1.0\n2 2 1.0\n", "columns": "1 1\n2 1\n1 2\n2 2\n", "empty": ""}.items():
            with open(d+"/w.eig", "w") as f:
                f.write(t)
            must("eig "+k, "wannier90", dict(prefix=d+"/w", Ecut=20.))
    elif spec["what"] == "qe":
        calc = F.random_calc(c, [[0., 0, 0]], False, 2, npw=8)
        F.espresso(calc, d+"/qe")
        p = d+"/qe.save/data-file-schema.xml"
        t = open(p).read()
        bad = {"ntyp": t.replace('ntyp="3"', 'ntyp="2"'), "atom name": t.replace('<atom name="El1"', '<atom name="Zz"'), "no cell": t.replace("<cell>", "<cel>").replace("</cell>", "</cel>"),
               "a3 missing": t.replace("<a3>", "<a4>").replace("</a3>", "</a4>"), "noncolin": t.replace("<noncolin>false", "<noncolin>x"),
               "no ecutwfc": t.replace("ecutwfc", "ecut"), "not xml": t[:-30], "positions": t.replace("<atomic_positions>", "<crystal>").replace("</atomic_positions>", "</crystal>"),
               "no nbnd": t.replace("nbnd", "xbnd")}
        for k, v in bad.items():
            assert v != t, k
            with open(p, "w") as f:
                f.write(v)
            must("QE "+k, "espresso", dict(prefix=d+"/qe"))
    else:
        from irrep.bandstructure import BandStructure
        calc = F.random_calc(c, [[0., 0, 0]], False, 2, npw=8)
        L = c.lattice
        variants = {"scaled": L*1.001, "rows swapped": L[[1, 0, 2]], "transposed": L.T.copy(), "rotated": L @ X.ROTS[1].T, "other handedness": -L, "bohr": L/F.bohr()}
        e = np.zeros((3, 3)); e[1, 2] = 0.01
        variants["sheared"] = L+e
        for k, M in variants.items():
            F.poscar(calc, d+"/POSCAR")
            F.wavecar(calc, d+"/WAVECAR", lattice=M)
            ctx.step(); ctx.trace(); ctx.state(spec, k)
            er = raises(lambda: BandStructure(code="vasp", fPOS=d+"/POSCAR", fWAV=d+"/WAVECAR", spinor=False))
            ctx.check(er is not None, "contradictory lattices accepted", k)
        F.wavecar(calc, d+"/WAVECAR")
        with quiet():
            BandStructure(code="vasp", fPOS=d+"/POSCAR", fWAV=d+"/WAVECAR", spinor=False)
        n += 7
    ctx.outcome("bad", spec["what"], n)
