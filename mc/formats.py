"""Writers of the wave-function and structure files of the four codes, from one description of a calculation."""
import os
import numpy as np
from . import physics as P

HARTREE = 27.211386         # eV, consistent with Rydberg_eV = 13.605693
BOHR = 0.529177210903       # angstrom (CODATA); the code's own value is read from irrep.utility where files are in bohr


def bohr():
    from irrep.utility import BOHR as B
    return B


class Calc:
    """lattice (rows, angstrom), pos, typ, spinor, ecut (eV), kpts: list of dict(k, g (npw,3), C (bands, npw*(1+spinor)), E (eV))"""
    def __init__(self, c, kpts, spinor, ecut, efermi=None):
        self.c, self.lattice, self.pos, self.typ = c, c.lattice, c.pos, list(c.typ)
        self.kpts, self.spinor, self.ecut, self.efermi = kpts, spinor, ecut, efermi
        self.rec = c.rec

    @property
    def nb(self):
        return self.kpts[0]["C"].shape[0]


def common_ecut(ks, rec, npw, gap=0.02):
    """cutoff lying in a gap between shells for every k-point"""
    e0 = max(P.choose_ecut(k, rec, npw) for k in ks)
    es = np.sort(np.concatenate([P.sphere(k, rec, e0*1.5+5)[1] for k in ks]))
    es = es[es > 0.8*e0]
    for g in (gap, gap/3, gap/10):
        for a, b in zip(es, es[1:]):
            if b-a > g:
                return 0.5*(a+b)
    raise RuntimeError("no gap")


def random_calc(c, ks, spinor, nb, ecut=None, npw=16, seed=0, efermi=None, closed=True):
    """unphysical states: orthonormal random coefficients; energies different at every k-point and band"""
    rs = np.random.RandomState(seed)
    if ecut is None:
        ecut = common_ecut(ks, c.rec, npw)
    kp = []
    for i, k in enumerate(ks):
        g, e = P.sphere(np.array(k, float), c.rec, ecut)
        g = g[rs.permutation(len(g))]
        n = len(g)*(1+spinor)
        A = rs.normal(size=(n, nb))+1j*rs.normal(size=(n, nb))
        C = np.linalg.qr(A)[0].T if nb <= n else (A/np.linalg.norm(A, axis=0)).T
        E = np.sort(np.round(-3+0.731*i+np.arange(nb)*0.517+0.2*rs.rand(nb), 6))
        kp.append(dict(k=np.array(k, float), g=g, C=C, E=E))
    return Calc(c, kp, spinor, ecut, efermi)


def physical_calc(c, ks, spinor, nb, ecut=None, npw=30, gauge=0, efermi=None, tol=1e-4):
    if ecut is None:
        ecut = common_ecut(ks, c.rec, npw)
    kp = []
    for k in ks:
        r = P.solve(np.array(k, float), c, spinor, nb=None, ecut=ecut, gauge=gauge, tol=tol)
        kp.append(dict(k=np.array(k, float), g=r["g"], C=r["C"], E=r["E"]))
    # the same number of bands at every k-point
    n = min(len(x["E"]) for x in kp)
    m = min(nb, n)
    for x in kp:
        x["C"], x["E"] = x["C"][:m].copy(), x["E"][:m].copy()
    return Calc(c, kp, spinor, ecut, efermi)


# ---------------------------------------------------------------- VASP
def poscar(calc, path, text=None):
    L, pos, typ = calc.lattice, calc.pos, calc.typ
    if text is None:
        order = sorted(set(typ))
        n = [typ.count(t) for t in order]
        assert typ == [t for t, m in zip(order, n) for _ in range(m)]
        text = "title\n1.0\n"+"\n".join(" ".join(f"{x:.14f}" for x in r) for r in L)+"\n"+" ".join("X%d" % t for t in order)+"\n" + \
            " ".join(map(str, n))+"\nDirect\n"+"\n".join(" ".join(f"{x:.14f}" for x in r) for r in pos)+"\n"
    with open(path, "w") as f:
        f.write(text)


def vasp_order(g):
    n = 2*np.abs(g).max(0)+1
    w = g % n
    return np.lexsort((w[:, 0], w[:, 1], w[:, 2]))


def wavecar(calc, path, ispin=1, prec=45200, npw_written=None, ecut=None, lattice=None):
    nb = calc.nb
    npws = [x["C"].shape[1] for x in calc.kpts]
    rl = max(8*max(npws), 8*(4+3*nb), 8*16)
    rl = (rl+7)//8*8
    with open(path, "wb") as f:
        def rec(i, a):
            f.seek(i*rl); f.write(np.ascontiguousarray(a).tobytes())
        rec(0, np.array([rl, ispin, prec], float))
        rec(1, np.concatenate([[len(calc.kpts), nb, calc.ecut if ecut is None else ecut], (calc.lattice if lattice is None else lattice).ravel(), [calc.efermi or 0.]]))
        for ik, x in enumerate(calc.kpts):
            o = vasp_order(x["g"])
            n = len(o)
            occ = np.zeros((nb, 3)); occ[:, 0] = x["E"]; occ[:, 2] = 1
            rec(2+ik*(nb+1), np.concatenate([[npws[ik] if npw_written is None else npw_written], x["k"], occ.ravel()]))
            for ib in range(nb):
                C = x["C"][ib]
                C = np.concatenate([C[:n][o], C[n:][o]]) if calc.spinor else C[o]
                rec(3+ik*(nb+1)+ib, C.astype(np.complex64))
        f.seek(0, 2)
        end = (2+len(calc.kpts)*(nb+1))*rl
        if f.tell() < end:
            f.truncate(end)


# ---------------------------------------------------------------- Fortran records
class Fortran:
    def __init__(self, path):
        self.f = open(path, "wb")

    def rec(self, *parts):
        b = b"".join(p if isinstance(p, bytes) else np.ascontiguousarray(p).tobytes() for p in parts)
        m = np.array([len(b)], np.int32).tobytes()
        self.f.write(m+b+m)

    def close(self):
        self.f.close()


i4 = lambda *a: np.array(a, np.int32)
f8 = lambda *a: np.array(a, np.float64)


def abinit(calc, path, version="9.6.2", headform=80, nsppol=1, occopt=1, istwfk=1, usepaw=0, nsym=1, npsp=None, order="file", nspinor=None, nshiftk=1, nshiftk_orig=None):
    """WFK file; lengths in bohr, energies in hartree"""
    B = bohr()
    L = calc.lattice/B
    nat, nk, nb = len(calc.typ), len(calc.kpts), calc.nb
    nty = len(set(calc.typ))
    npsp = npsp or nty
    nshiftk_orig = nshiftk if nshiftk_orig is None else nshiftk_orig
    nspinor = nspinor or (2 if calc.spinor else 1)
    # hartree cutoff: |k+G|^2/2 with G in 1/bohr; the code's eV value is Hartree_eV times it
    ecut = ecut_hartree(calc)
    F = Fortran(path)
    major = int(version.split(".")[0])
    F.rec(version.encode().ljust(6 if major < 9 else 8), i4(headform, 2))
    nbs = [len(x["E"]) for x in calc.kpts]
    bantot = sum(nbs)
    ints = [bantot, 20240101, 0, 1, nat, 9, 9, 9, nk, 1, nspinor, nsppol, nsym, npsp, nty, occopt, 0, usepaw]
    fl = [ecut, 0., 0., ecut, 0., 0., 0.]+list(L.ravel())+[0., 0., 0.]
    F.rec(i4(*ints), f8(*fl), i4(0, nshiftk_orig, nshiftk, max(nbs)))
    npw = [len(x["g"]) for x in calc.kpts]
    F.rec(i4(*([istwfk]*nk if np.isscalar(istwfk) else istwfk)), i4(*nbs), i4(*npw), i4(*[1]*npsp), i4(*[1]*nsym), np.array([np.eye(3)]*nsym, np.int32), i4(*calc.typ),
          np.array([x["k"] for x in calc.kpts], float), np.ones(bantot), np.zeros((nsym, 3)), f8(*range(1, nty+1)), np.ones(nk)/nk)
    F.rec(f8(1e-12), np.array(calc.pos, float), f8(-7.5), f8((calc.efermi or 0.)/HARTREE), f8(*range(10, 10+nty)))
    F.rec(i4(1, 0), f8(8., 0.), i4(0), i4(*[1, 0, 0, 0, 1, 0, 0, 0, 1]), i4(*[1, 0, 0, 0, 1, 0, 0, 0, 1]), np.zeros((nshiftk_orig, 3)), np.zeros((nshiftk, 3)))
    for i in range(npsp):
        F.rec(b"psp".ljust(132), f8(1., 1.), i4(0, 0, 0, 0, 0), b"md5".ljust(32))
    if usepaw == 1:
        F.rec(i4(1, 2)); F.rec(i4(3))
    for x in calc.kpts:
        n = len(x["g"])
        F.rec(i4(n, nspinor, len(x["E"])))
        F.rec(np.asarray(x["g"], np.int32))
        F.rec(np.asarray(x["E"])/HARTREE, np.ones(len(x["E"])))
        for ib in range(len(x["E"])):
            F.rec(np.asarray(x["C"][ib], np.complex128))
    F.close()


def ecut_hartree(calc):
    """cutoff in hartree lying in the same gap between shells as calc.ecut"""
    B = bohr()
    rec = calc.rec*B
    emax = max(0.5*(((x["k"]+x["g"]) @ rec)**2).sum(1).max() for x in calc.kpts)
    return max(calc.ecut/HARTREE, emax*(1+1e-9))


def espresso(calc, prefix, down=None, alat=None, wfc_case=str.lower, efermi_tag=True, npw_xml=None, wfc_k=None, kfile=None, gamma_only=0, initial=None):
    """prefix.save; `down`: second Calc with the other spin channel (LSDA: eigenvalues are written up first, then down)"""
    B = bohr()
    d = prefix+".save"
    os.makedirs(d, exist_ok=True)
    L = calc.lattice/B
    alat = np.linalg.norm(L[0]) if alat is None else alat
    names = ["El%d" % t for t in sorted(set(calc.typ))]
    nm = {t: n for t, n in zip(sorted(set(calc.typ)), names)}
    s = ['<?xml version="1.0" encoding="UTF-8"?>', '<qes:espresso xmlns:qes="http://www.quantum-espresso.org/ns/qes/qes-1.0">']
    species = f'<atomic_species ntyp="{len(names)}">'+"".join(f'<species name="{n}"><mass>1.0</mass><pseudo_file>x</pseudo_file></species>' for n in names)+'</atomic_species>'
    def structure(cry):
        struct = f'<atomic_structure nat="{len(cry.typ)}" alat="{alat:.15e}"><atomic_positions>'
        for i, (p, t) in enumerate(zip(cry.pos @ cry.lattice/B, cry.typ)):
            struct += f'<atom name="{nm[t]}" index="{i+1}">{" ".join("%.15e" % x for x in p)}</atom>'
        return struct+'</atomic_positions><cell>'+"".join(f'<a{i+1}>{" ".join("%.15e" % x for x in cry.lattice[i]/B)}</a{i+1}>' for i in range(3))+'</cell></atomic_structure>'
    struct = structure(calc)
    first = struct if initial is None else structure(initial)     # before the relaxation
    ecut = ecut_hartree(calc)
    if down is not None:
        ecut = max(ecut, ecut_hartree(down))
    s.append(f'<input>{species}{first}<basis><ecutwfc>{ecut:.15e}</ecutwfc></basis></input>')
    s.append(f'<output>{species}{struct}<band_structure><lsda>{"true" if down else "false"}</lsda><noncolin>{"true" if calc.spinor else "false"}</noncolin>')
    if down is None:
        s.append(f'<nbnd>{calc.nb}</nbnd>')
    else:
        s.append(f'<nbnd_up>{calc.nb}</nbnd_up><nbnd_dw>{down.nb}</nbnd_dw>')
    if efermi_tag and calc.efermi is not None:
        s.append(f'<fermi_energy>{calc.efermi/HARTREE:.15e}</fermi_energy>')
    s.append(f'<nks>{len(calc.kpts)}</nks>')
    recb = calc.rec*B
    for ik, x in enumerate(calc.kpts):
        E = np.asarray(x["E"])
        if down is not None:
            E = np.concatenate([E, down.kpts[ik]["E"]])
        k_xml = (x["k"] @ recb)*alat/(2*np.pi)
        n = len(x["g"]) if npw_xml is None else npw_xml
        s.append(f'<ks_energies><k_point weight="1.0">{" ".join("%.15e" % v for v in k_xml)}</k_point><npw>{n}</npw>'
                 f'<eigenvalues size="{len(E)}">\n{" ".join("%.15e" % (e/HARTREE) for e in E)}\n</eigenvalues><occupations size="{len(E)}">{" ".join(["1.0"]*len(E))}</occupations></ks_energies>')
    s.append('</band_structure></output></qes:espresso>')
    with open(d+"/data-file-schema.xml", "w") as f:
        f.write("\n".join(s)+"\n")
    for ch, cc in ([("", calc)] if down is None else [("up", calc), ("dw", down)]):
        for ik, x in enumerate(cc.kpts):
            n = len(x["g"])
            F = Fortran(os.path.join(d, wfc_case(f"wfc{ch}{ik+1}")+".dat"))
            kk = x["k"] if wfc_k is None else wfc_k[ik]
            F.rec(i4(ik+1), f8(*(kk @ recb)), i4(2 if ch == "dw" else 1), i4(gamma_only), f8(1.0))
            F.rec(i4(n, n, 2 if cc.spinor else 1, cc.nb))
            F.rec(np.asarray(recb, float))
            F.rec(np.asarray(x["g"], np.int32))
            for ib in range(cc.nb):
                F.rec(np.asarray(x["C"][ib], np.complex128))
            F.close()


def unk_grid(calc, extra=0):
    m = np.max([np.abs(x["g"]).max(0) for x in calc.kpts], axis=0)
    return 2*m+1+np.array([extra, 0, extra])


def win_text(calc, nk_grid=None, units="ang", frac=True, names=None, extra="", spinors=None, nb=None):
    names = names or {t: "X%d" % t for t in set(calc.typ)}
    g = nk_grid or (len(calc.kpts), 1, 1)
    L = calc.lattice/(bohr() if units == "bohr" else 1)
    s = f"num_bands = {nb or calc.nb}\nspinors = {'.true.' if (calc.spinor if spinors is None else spinors) else '.false.'}\nmp_grid = {g[0]} {g[1]} {g[2]}\n"
    if calc.efermi is not None:
        s += f"fermi_energy = {calc.efermi:.10f}\n"
    s += extra
    s += "begin unit_cell_cart\n"+(units+"\n" if units else "")+"\n".join(" ".join("%.14f" % x for x in r) for r in L)+"\nend unit_cell_cart\n"
    s += "begin atoms_frac\n"+"\n".join(f"{names[t]} "+" ".join("%.14f" % x for x in p) for t, p in zip(calc.typ, calc.pos))+"\nend atoms_frac\n"
    s += "begin kpoints\n"+"\n".join(" ".join("%.14f" % v for v in x["k"]) for x in calc.kpts)+"\nend kpoints\n"
    return s


def wannier90(calc, prefix, win=None, extra=1, grid=None, only_files=None):
    """prefix.win, prefix.eig and UNK files next to it"""
    d = os.path.dirname(os.path.abspath(prefix))
    with open(prefix+".win", "w") as f:
        f.write(win if win is not None else win_text(calc))
    with open(prefix+".eig", "w") as f:
        for ik, x in enumerate(calc.kpts):
            for ib, e in enumerate(x["E"]):
                f.write(f"{ib+1:5d} {ik+1:5d} {e:20.12f}\n")
    n = unk_grid(calc, extra) if grid is None else np.array(grid)
    for ik, x in enumerate(calc.kpts):
        F = Fortran(os.path.join(d, "UNK%05d.%s" % (ik+1, "NC" if calc.spinor else "1")))
        F.rec(i4(n[0], n[1], n[2], ik+1, calc.nb))
        m = len(x["g"])
        for ib in range(calc.nb):
            for s in range(2 if calc.spinor else 1):
                A = np.zeros(tuple(n), complex)
                A[tuple((x["g"] % n).T)] = x["C"][ib, s*m:(s+1)*m]
                u = np.fft.ifftn(A)*np.prod(n)
                F.rec(u.ravel(order="F"))
        F.close()


CODES = ("vasp", "abinit", "espresso", "wannier90")


def write(calc, code, d, **kw):
    """writes the calculation in directory d; returns the arguments of BandStructure that read it (wannier90: from cwd d)"""
    if code == "vasp":
        poscar(calc, os.path.join(d, "POSCAR"))
        wavecar(calc, os.path.join(d, "WAVECAR"), **kw)
        return dict(code="vasp", fWAV=os.path.join(d, "WAVECAR"), fPOS=os.path.join(d, "POSCAR"), spinor=calc.spinor)
    if code == "abinit":
        abinit(calc, os.path.join(d, "x_WFK"), **kw)
        return dict(code="abinit", fWFK=os.path.join(d, "x_WFK"))
    if code == "espresso":
        espresso(calc, os.path.join(d, "qe"), **kw)
        return dict(code="espresso", prefix=os.path.join(d, "qe"))
    wannier90(calc, os.path.join(d, "w"), **kw)
    return dict(code="wannier90", prefix=os.path.join(d, "w"), Ecut=calc.ecut)
