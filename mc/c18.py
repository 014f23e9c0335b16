"""C18 damaged and contradictory input files: exhaustive fault enumeration. Every file of a small calculation is cut at every
byte (text: after every word), every record of every Fortran file is dropped, emptied, shortened, lengthened or its markers
broken, every redundant header field is changed, files are removed, and files of different calculations are mixed in every
combination; the real BandStructure then has to raise an error, or return exactly what the undamaged files contain."""
import os, re, copy, itertools
import numpy as np
from . import crystals as X, formats as F, outputs as O
from .core import quiet, chdir, memo_spacegroup

LEVEL = "fault_enumeration"
CHUNK = 1
BOUNDS = {"quick": "4 codes x scalar/spinor (and spin-polarised QE), 2 k-points, 3 bands: every binary file cut at every byte and read with 3 selections; text files cut after every word; 7 faults of every "
                   "record of every Fortran file; about 120 header fields x 3-8 wrong values; each file missing; mixtures of the files of 2 calculations that differ in one of 6 ways; files with half of the plane waves (3 codes); 40 faults through the command line",
          "thorough": "the same with 3 k-points, 4 bands, one and two atoms, all bytes, all selections, pairs of faults of records"}
RULE = "every fault of the lists in BOUNDS; a run evaluates one damaged set of files with one selection of k-points and bands: it ends with an error, or with exactly the energies, k-points, plane waves and coefficients of the undamaged files"
ASSUMPTIONS = ["faults that leave a self-consistent file are not faults: a text file cut inside its last number, an energy, coefficient or k-point changed to another value where the file does not repeat it",
               "records of band coefficients of equal length carry no label: their exchange can't be noticed"]
THOROUGH_BUDGET = 2*3600
KS = [[0.5, 0.13, -0.21], [0.31, -0.27, 0.44], [0., 0.25, -0.4]]


def base(sp, nk=2, nb=3, nat=2, seed=0, ks=None, scale=1.0, npw=7, ecut=None):
    c = X.crystal(1, 2, 0, 1, norb=2 if nat == 2 else 1)
    if scale != 1.0:
        import copy
        c = copy.deepcopy(c)
        c.lattice = c.lattice*scale
        c.rec = c.rec/scale
    return F.random_calc(c, ks or KS[:nk], bool(sp), nb, npw=npw, seed=seed, efermi=0.4, ecut=ecut)


def write(calc, code, d, lsda=False, win=None):
    if code == "wannier90" and win is not None:
        F.wannier90(calc, os.path.join(d, "w"), win=win)
        return dict(code="wannier90", prefix=os.path.join(d, "w"), Ecut=calc.ecut)
    if code == "espresso" and lsda:
        down = base(0, len(calc.kpts), calc.nb, len(calc.typ), seed=77, ecut=calc.ecut)
        return {**F.write(calc, code, d, down=down), "spin_channel": lsda}
    return F.write(calc, code, d)


def listing(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


def slurp(d):
    return {n: open(os.path.join(d, n), "rb").read() for n in listing(d)}


def put(d, n, b):
    with open(os.path.join(d, n), "wb") as f:
        f.write(b)


def selections(nk, nb, full):
    out = [{}, dict(kplist=[1], IBend=1), dict(kplist=[nk], IBstart=nb)]
    if full:
        out += [dict(kplist=[k+1], IBstart=a, IBend=b) for k in range(nk) for a in range(1, nb+1) for b in range(a, nb+1)]
    return out


def read(kw, d, sel):
    """what BandStructure reads: exact content, or None and the error"""
    from irrep.bandstructure import BandStructure
    with chdir(d), quiet(), memo_spacegroup():
        try:
            b = BandStructure(calculate_traces=False, EF="0.25", **{**kw, **sel})
        except Exception as e:
            return None, e
    out = [np.array(b.Lattice).tolist(), sorted(zip(map(str, b.spacegroup.typat), np.round(b.spacegroup.positions, 9).tolist()), key=str) if hasattr(b.spacegroup, "typat") else None, bool(b.spinor), len(b.kpoints)]
    for kp in b.kpoints:
        g = np.array(kp.ig[:3]).T
        o = np.lexsort(g.T)
        W = np.array(kp.WF)
        n = len(g)
        W = np.hstack([W[:, :n][:, o], W[:, n:][:, o]]) if b.spinor and W.shape[1] == 2*n else W[:, o] if W.shape[1] == n else W
        out.append([kp.ik0, np.array(kp.k).tolist(), np.array(kp.Energy_raw).tolist(), repr(kp.upper), kp.num_bands, g[o].tolist(), np.round(W, 7).tolist()])
    return out, None


class Case:
    def __init__(self, spec, ctx, **kw):
        self.d = ctx.tmpdir()
        self.ctx, self.spec = ctx, spec
        self.calc = base(spec["sp"], spec.get("nk", 2), spec.get("nb", 3), spec.get("nat", 2))
        self.code, self.lsda = spec["code"], spec.get("lsda", False)
        self.kw = write(self.calc, self.code, self.d, self.lsda, **kw)
        self.files = slurp(self.d)
        self.sels = selections(len(self.calc.kpts), self.calc.nb, spec.get("full"))
        self.ref = []
        for s in self.sels:
            r, e = read(self.kw, self.d, s)
            ctx.require(r is not None, "undamaged files", lambda: f"{spec} {s}: {type(e).__name__} {e}")
            self.ref.append(r)
        self.n = dict(error=0, same=0)

    def fault(self, what, change, key, must=None, sels=None):
        """change: {file: bytes or None}; must: selections (indices) for which reading must fail"""
        ctx = self.ctx
        for n, b in change.items():
            if b is None:
                os.remove(os.path.join(self.d, n))
            else:
                put(self.d, n, b)
        kw = self.kw
        for i, s in enumerate(self.sels):
            if sels is not None and i not in sels:
                continue
            r, e = read(kw, self.d, s)
            ctx.evals += 1
            ctx.step()
            ctx.state(self.spec["code"], self.spec["sp"], self.spec["kind"], str(self.spec.get("file")), what, i)
            self.n["error" if r is None else "same"] += 1
            if must and (must is True or i in must):
                ctx.check(r is None, key+" not rejected", lambda: f"{self.spec} {what} selection {s}")
            else:
                ctx.check(r is None or r == self.ref[i], key, lambda: f"{self.spec} {what} selection {s}: {difference(r, self.ref[i])}")
        for n in change:
            put(self.d, n, self.files[n])

    def done(self):
        self.ctx.trace()
        self.ctx.outcome(self.spec["kind"], self.code, "spinor" if self.spec["sp"] else "scalar", *[k for k, v in self.n.items() if v])


def difference(a, b):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return f"[{i}]"+difference(x, y)
    return f" {str(a)[:160]} expected {str(b)[:160]}"


# ---------------------------------------------------------------- truncation

def words(b):
    """ends of words and of lines"""
    t = b.decode()
    return sorted({0} | {i for i in range(len(t)) if i and t[i].isspace() != t[i-1].isspace()} | {i+1 for i, ch in enumerate(t) if ch == "\n"}-{len(t)})


def cut(spec, ctx):
    win = None
    if spec.get("tail"):     # parameters of .win after the blocks
        calc = base(spec["sp"], spec.get("nk", 2), spec.get("nb", 3), spec.get("nat", 2))
        t = F.win_text(calc)
        i = t.index("begin")
        win = t[i:]+t[:i]
    C = Case(spec, ctx, **({"win": win} if win else {}))
    n = spec["file"]
    b = C.files[n]
    if n.endswith((".dat", "WAVECAR", "_WFK")) or "UNK" in n:
        rng = range(spec.get("part", 0), len(b), spec.get("of", 1))
    else:
        w = words(b)
        rng = w[spec.get("part", 0)::spec.get("of", 1)]
    for k in rng:
        C.fault(f"{n} cut at byte {k} of {len(b)}", {n: b[:k]}, "cut file read as valid")
    C.done()


def missing(spec, ctx):
    C = Case(spec, ctx)
    for n in C.files:
        C.fault(f"{n} missing", {n: None}, "missing file")
        C.fault(f"{n} empty", {n: b""}, "empty file")
    C.done()


# ---------------------------------------------------------------- records of Fortran files

def parse_records(b):
    out, i = [], 0
    while i < len(b):
        m = int(np.frombuffer(b[i:i+4], np.int32)[0])
        out.append(b[i+4:i+4+m])
        i += m+8
    return out


def mark(r, head=None, tail=None):
    m = lambda x: np.array([x], np.int32).tobytes()
    return m(len(r) if head is None else head)+r+m(len(r) if tail is None else tail)


def join(recs):
    return b"".join(mark(r) for r in recs)


def record_faults(recs, j):
    r = recs[j]
    yield "dropped", join(recs[:j]+recs[j+1:])
    yield "empty", join(recs[:j]+[b""]+recs[j+1:])
    for k in (4, 8, 16):
        if len(r) > k:
            yield f"{k} bytes shorter", join(recs[:j]+[r[:-k]]+recs[j+1:])
            yield f"only {k} bytes", join(recs[:j]+[r[:k]]+recs[j+1:])
    if len(r) % 2 == 0:
        yield "half", join(recs[:j]+[r[:len(r)//2]]+recs[j+1:])
    yield "8 bytes longer", join(recs[:j]+[r+b"\0"*8]+recs[j+1:])
    yield "16 bytes longer", join(recs[:j]+[r+b"\0"*16]+recs[j+1:])
    yield "twice as long", join(recs[:j]+[r+r]+recs[j+1:])
    for dh, dt in ((4, 0), (0, 4), (-4, 0), (0, -4), (len(r), 0), (0, len(r))):
        yield f"markers {dh} {dt}", b"".join(mark(x) for x in recs[:j])+mark(r, len(r)+dh, len(r)+dt)+b"".join(mark(x) for x in recs[j+1:])


def records(spec, ctx):
    C = Case(spec, ctx)
    for n in C.files:
        if not (n.endswith((".dat", "_WFK")) or "UNK" in n):
            continue
        recs = parse_records(C.files[n])
        for j in range(len(recs)):
            for what, b in record_faults(recs, j):
                C.fault(f"{n} record {j+1} of {len(recs)} ({len(recs[j])} bytes) {what}", {n: b}, "damaged record read as valid")
            if spec.get("pairs"):
                for i in range(j+1, len(recs)):
                    C.fault(f"{n} records {j+1} and {i+1} dropped", {n: join([r for m, r in enumerate(recs) if m not in (i, j)])}, "damaged record read as valid")
    C.done()


# ---------------------------------------------------------------- header fields

def patched(b, off, val, dtype):
    v = np.array([val], dtype).tobytes()
    return b[:off]+v+b[off+len(v):]


def ints(v):
    return [x for x in dict.fromkeys([v+1, v-1, 0, -1, -v, 2*v, v+2, v//2]) if x != v]


def fields_vasp(C):
    b, nb, nk = C.files["WAVECAR"], C.calc.nb, len(C.calc.kpts)
    rl = int(np.frombuffer(b[:8])[0])
    g = lambda off: float(np.frombuffer(b[off:off+8])[0])
    for v in (rl+8, rl-8, rl+1, 0, -rl, 2*rl, rl//2, 8):
        yield "WAVECAR", "length of records", 0, v, float, True
    for v in (0, 2, 3, -1):
        yield "WAVECAR", "ISPIN", 8, v, float, True
    for v in (45210, 53300, 53310, 0, 45199):
        yield "WAVECAR", "precision", 16, v, float, True
    for v in (nk+1, 2*nk):
        yield "WAVECAR", "NK", rl, v, float, (0,)
    for v in (nb+1, nb-1, 2*nb):
        yield "WAVECAR", "NB", rl+8, v, float, (0,)
    for v in (0, -nb):
        yield "WAVECAR", "NB", rl+8, v, float, True
    for f in (0.5, 1.6, 0., -1.):
        yield "WAVECAR", "cutoff", rl+16, g(rl+16)*f, float, True
    for i in range(9):
        for dv in (0.01, -0.5, 3.):
            yield "WAVECAR", f"lattice {i}", rl+24+8*i, g(rl+24+8*i)+dv, float, True
        yield "WAVECAR", f"lattice {i}", rl+24+8*i, np.nan, float, True
    for ik in range(nk):
        o = (2+ik*(nb+1))*rl
        sel = [0]+[i for i, s in enumerate(C.sels) if s.get("kplist") == [ik+1]]
        for v in ints(int(g(o))):
            yield "WAVECAR", f"npw of k-point {ik+1}", o, v, float, tuple(sel)


def fields_abinit(C):
    n = "x_WFK"
    b = C.files[n]
    recs = parse_records(b)
    start = np.cumsum([0]+[len(r)+8 for r in recs])+4
    calc = C.calc
    nk, nb, nat = len(calc.kpts), calc.nb, len(calc.typ)
    o1 = start[1]
    names = ["bantot", "date", "intxc", "ixc", "natom", "ng1", "ng2", "ng3", "nkpt", "nspden", "nspinor", "nsppol", "nsym", "npsp", "ntypat", "occopt", "pertcase", "usepaw"]
    i4 = lambda o: int(np.frombuffer(b[o:o+4], np.int32)[0])
    for i, nm in enumerate(names):
        o = o1+4*i
        if nm in ("bantot", "natom", "nkpt", "nsppol", "nsym", "npsp", "ntypat"):
            for v in ints(i4(o)):
                yield n, nm, o, v, np.int32, True
        elif nm == "nspinor":
            for v in (0, 3, 3-i4(o), -1):
                yield n, nm, o, v, np.int32, True
        elif nm == "occopt":
            yield n, nm, o, 9, np.int32, True
        elif nm == "usepaw":
            yield n, nm, o, 1, np.int32, True
    oe = o1+18*4
    e = float(np.frombuffer(b[oe:oe+8])[0])
    for f in (0.5, 0.9, 0., -1., np.nan):
        yield n, "ecut", oe, e*f, float, (0,)
    o2 = start[2]
    for ik in range(nk):
        for v in (0, 2, 3, -1):
            yield n, f"istwfk {ik}", o2+4*ik, v, np.int32, True
        for v in ints(i4(o2+4*(nk+ik))):
            yield n, f"nband {ik}", o2+4*(nk+ik), v, np.int32, True
        sel = [0]+[i for i, s in enumerate(C.sels) if s.get("kplist") == [ik+1]]
        for v in ints(i4(o2+4*(2*nk+ik))):
            yield n, f"npwarr {ik}", o2+4*(2*nk+ik), v, np.int32, tuple(sel)
        j = len(recs)-nk*(nb+3)+ik*(nb+3)
        for i, nm in enumerate(("npw", "nspinor", "nband")):
            for v in ints(i4(start[j]+4*i)):
                yield n, f"{nm} of block {ik+1}", start[j]+4*i, v, np.int32, tuple(sel)
    # nband exchanged between k-points is covered by the blocks; head form
    oh = start[0]+8
    for v in (79, 57, 0, -1):
        yield n, "headform", oh, v, np.int32, True


def fields_espresso(C):
    calc = C.calc
    nb = calc.nb
    ch = {"up": "up", "dw": "dw", False: ""}[C.lsda]
    for ik in range(len(calc.kpts)):
        n = f"qe.save/wfc{ch}{ik+1}.dat"
        recs = parse_records(C.files[n])
        start = np.cumsum([0]+[len(r)+8 for r in recs])+4
        b = C.files[n]
        i4 = lambda o: int(np.frombuffer(b[o:o+4], np.int32)[0])
        f8 = lambda o: float(np.frombuffer(b[o:o+8])[0])
        sel = tuple([0]+[i for i, s in enumerate(C.sels) if s.get("kplist") == [ik+1]])
        for i in range(3):
            for dv in (0.05, -0.3, np.nan):
                yield n, f"k-point {i}", start[0]+4+8*i, f8(start[0]+4+8*i)+dv, float, sel
        for i, nm in enumerate(("ngw", "igwx", "npol", "nbnd")):
            if nm == "ngw":
                continue
            for v in ints(i4(start[1]+4*i)):
                yield n, nm, start[1]+4*i, v, np.int32, sel
        for i in range(9):
            for dv in (0.1, -0.4, np.nan):
                yield n, f"reciprocal lattice {i}", start[2]+8*i, f8(start[2]+8*i)+dv, float, sel


def fields_wannier90(C):
    calc = C.calc
    for ik in range(len(calc.kpts)):
        n = "UNK%05d.%s" % (ik+1, "NC" if calc.spinor else "1")
        b = C.files[n]
        i4 = lambda o: int(np.frombuffer(b[o:o+4], np.int32)[0])
        sel = tuple([0]+[i for i, s in enumerate(C.sels) if s.get("kplist") == [ik+1]])
        for i, nm in enumerate(("ngx", "ngy", "ngz", "ik", "nbnd")):
            for v in ints(i4(4+4*i)):
                yield n, nm, 4+4*i, v, np.int32, sel


def fields(spec, ctx):
    C = Case(spec, ctx)
    for n, nm, off, v, dt, must in globals()["fields_"+C.code](C):
        C.fault(f"{n}: {nm} = {v}", {n: patched(C.files[n], int(off), v, dt)}, f"wrong header {C.code}", must=must,
                sels=(0,) if (n, nm) == ("WAVECAR", "NB") else None)      # one k-point alone doesn't show how many records each has
    C.done()


# ---------------------------------------------------------------- text files

def sub(t, old, new, n=1):
    assert t.count(old) >= 1, old
    return t.replace(old, new, n)


def text_faults(C):
    """name, file, new text; all contradict another part of the input"""
    calc = C.calc
    nb, nk, nat = calc.nb, len(calc.kpts), len(calc.typ)
    if C.code == "vasp":
        t = C.files["POSCAR"].decode()
        l = t.splitlines()
        J = lambda x: "\n".join(x)+"\n"
        for i in range(len(l)):
            if i not in (0, 5):      # comment and the optional line of species
                yield f"line {i+1} of POSCAR dropped", "POSCAR", J(l[:i]+l[i+1:])
            if i not in (0, 5):
                yield f"line {i+1} of POSCAR empty", "POSCAR", J(l[:i]+[""]+l[i+1:])
            if i not in (0, 5, 6) and len(l[i].split()) > 1:      # fewer atoms: what follows may be velocities
                yield f"line {i+1} of POSCAR short", "POSCAR", J(l[:i]+[" ".join(l[i].split()[:-1])]+l[i+1:])
            if i > 0 and i != 5:
                yield f"line {i+1} of POSCAR is text", "POSCAR", J(l[:i]+["x y z"]+l[i+1:])
        n = l[6].split()
        for j in range(len(n)):
            for v in (str(int(n[j])+1), "-1", "1.5"):
                yield f"number of atoms {j} {v}", "POSCAR", J(l[:6]+[" ".join(n[:j]+[v]+n[j+1:])]+l[7:])
        for v in ("0.5", "2.0", "1.001", "-100.0", "nan"):
            yield f"scale {v}", "POSCAR", J([l[0], v]+l[2:])
        for i in range(3):
            for j in range(3):
                w = l[2+i].split()
                w[j] = repr(float(w[j])+0.02)
                yield f"lattice {i}{j}", "POSCAR", J(l[:2+i]+[" ".join(w)]+l[3+i:])
    elif C.code == "espresso":
        n = "qe.save/data-file-schema.xml"
        t = C.files[n].decode()
        for tag in ("ecutwfc", "noncolin", "nbnd", "nbnd_up", "nbnd_dw", "ks_energies", "npw", "eigenvalues", "k_point", "cell", "a1", "a3", "atomic_positions", "species", "basis", "band_structure", "input", "output"):
            m = re.search(f"<{tag}[ >]", t)
            if not m:
                continue
            i = m.start()
            j = t.index(f"</{tag}>", i)+len(tag)+3
            if tag in ("ks_energies",):
                # the last block lost: fewer k-points than announced
                i = t.rindex("<ks_energies>"); j = t.rindex("</ks_energies>")+len("</ks_energies>")
            yield f"<{tag}> dropped", n, t[:i]+t[j:]
            if tag not in ("species",):
                k = t.index(">", i)+1
                yield f"<{tag}> empty", n, t[:k]+t[j-len(tag)-3:]
        if C.lsda:
            yield "nbnd_up +1", n, sub(t, f"<nbnd_up>{nb}<", f"<nbnd_up>{nb+1}<")
            yield "nbnd_dw +1", n, sub(t, f"<nbnd_dw>{nb}<", f"<nbnd_dw>{nb+1}<")
            yield "nbnd_up -1", n, sub(t, f"<nbnd_up>{nb}<", f"<nbnd_up>{nb-1}<")
            yield "nbnd_dw -1", n, sub(t, f"<nbnd_dw>{nb}<", f"<nbnd_dw>{nb-1}<")
        else:
            for v in (nb+1, nb-1, 2*nb, 1, 0, -1, "x"):
                yield f"nbnd {v}", n, sub(t, f"<nbnd>{nb}<", f"<nbnd>{v}<")
            for v in ("true", "false"):
                if f"<noncolin>{v}<" not in t:
                    yield f"noncolin {v}", n, t.replace("<noncolin>true<" if v == "false" else "<noncolin>false<", f"<noncolin>{v}<")
        for ik in range(nk):
            npw = len(calc.kpts[ik]["g"])
            i = [m for m in range(len(t)) if t.startswith("<npw>", m)][ik]
            for v in (npw+1, npw-1, 2*npw, 1, 0, npw+2):
                yield f"npw {ik} {v}", n, t[:i]+t[i:].replace(f"<npw>{npw}<", f"<npw>{v}<", 1)
            i = [m for m in range(len(t)) if t.startswith("<eigenvalues", m)][ik]
            i = t.index(">", i)+1
            j = t.index("</eigenvalues>", i)
            w = t[i:j].split()
            yield f"energies {ik} one less", n, t[:i]+" ".join(w[:-1])+t[j:]
            yield f"energies {ik} one more", n, t[:i]+" ".join(w+["1.0"])+t[j:]
            yield f"energies {ik} half", n, t[:i]+" ".join(w[:len(w)//2])+t[j:]
            i = [m for m in range(len(t)) if t.startswith("<k_point", m)][ik]
            i = t.index(">", i)+1
            j = t.index("</k_point>", i)
            w = t[i:j].split()
            for a in range(3):
                yield f"k-point {ik} component {a}", n, t[:i]+" ".join(w[:a]+[repr(float(w[a])+0.07)]+w[a+1:])+t[j:]
        for a in range(3):
            i = t.index(f"<a{a+1}>")+4
            j = t.index("<", i)
            w = t[i:j].split()
            for m in range(3):
                yield f"lattice {a}{m}", n, t[:i]+" ".join(w[:m]+[repr(float(w[m])+0.3)]+w[m+1:])+t[j:]
        ec = t[t.index("<ecutwfc>")+9:t.index("</ecutwfc>")]
        for f in (0.5, 0.9, -1):
            yield f"ecutwfc x{f}", n, sub(t, ec, repr(float(ec)*f))
    elif C.code == "wannier90":
        t = C.files["w.win"].decode()
        for v in (nb+1, nb-1, 0, 2*nb, "x"):
            yield f"num_bands {v}", "w.win", sub(t, f"num_bands = {nb}", f"num_bands = {v}")
        for v in (f"{nk+1} 1 1", f"{nk} 2 1", "1 1 1" if nk > 1 else "2 1 1", "0 1 1", "x 1 1"):
            yield f"mp_grid {v}", "w.win", sub(t, f"mp_grid = {nk} 1 1", f"mp_grid = {v}")
        yield "spinors", "w.win", t.replace("spinors = .true.", "spinors = .FALSE") if calc.spinor else t.replace("spinors = .false.", "spinors = .true.")
        l = t.splitlines()
        for i, x in enumerate(l):
            if not x.startswith(("fermi_energy", "x", "X")):     # optional; the number of atoms is not repeated
                yield f"line {i+1} of .win dropped: {x}", "w.win", "\n".join(l[:i]+l[i+1:])+"\n"
            if not x.startswith("fermi_energy") and x != "ang":
                yield f"line {i+1} of .win twice: {x}", "w.win", "\n".join(l[:i+1]+l[i:])+"\n"
        e = C.files["w.eig"].decode().splitlines()
        for i in range(len(e)):
            yield f"line {i+1} of .eig dropped", "w.eig", "\n".join(e[:i]+e[i+1:])+"\n"
            yield f"line {i+1} of .eig twice", "w.eig", "\n".join(e[:i+1]+e[i:])+"\n"
            w = e[i].split()
            yield f"line {i+1} of .eig short", "w.eig", "\n".join(e[:i]+[" ".join(w[:2])]+e[i+1:])+"\n"
            for j in (0, 1):
                w2 = list(w); w2[j] = str(int(w[j])+1)
                yield f"line {i+1} of .eig index {j}", "w.eig", "\n".join(e[:i]+[" ".join(w2)]+e[i+1:])+"\n"
            if i+1 < len(e):
                yield f"lines {i+1} {i+2} of .eig exchanged", "w.eig", "\n".join(e[:i]+[e[i+1], e[i]]+e[i+2:])+"\n"


def text(spec, ctx):
    C = Case(spec, ctx)
    for what, n, t in text_faults(C):
        C.fault(what, {n: t.encode()}, f"contradictory file {C.code}")
    C.done()


# ---------------------------------------------------------------- mixtures

VARIANTS = {"lattice": dict(scale=1.03), "k-points": dict(ks=[[0.4, 0.13, -0.21], [0.31, -0.17, 0.44]]), "bands": dict(nb=4), "number of k-points": dict(nk=3, ks=KS[:3]), "spinor": dict(sp=1), "plane waves": dict(npw=15)}


def mixture(spec, ctx):
    """files of two calculations in every combination: those that contradict each other must be rejected"""
    what = spec["what"]
    a = base(spec["sp"])
    var = dict(VARIANTS[what])
    sp2 = 1-spec["sp"] if what == "spinor" else spec["sp"]
    var.pop("sp", None)
    b = base(sp2, **{"ecut": a.ecut, **var} if what not in ("plane waves", "lattice") else var)
    da, db, d = ctx.tmpdir(), ctx.tmpdir(), ctx.tmpdir()
    code = spec["code"]
    ka, kb = write(a, code, da), write(b, code, db)
    fa, fb = slurp(da), slurp(db)
    names = sorted(set(fa) | set(fb))
    kws = [{k: v.replace(x, d) if isinstance(v, str) else v for k, v in q.items()} for x, q in ((da, ka), (db, kb))]
    both = [n for n in names if n in fa and n in fb]
    rest = [n for n in names if n not in both]
    refs = []
    for q, src in ((ka, da), (kb, db)):
        r, e = read(q, src, {})
        ctx.require(r is not None, "undamaged files", lambda: f"{spec} {e}")
        refs.append(r)
    n = 0
    for mask in itertools.product((0, 1), repeat=len(both)):
        if len(set(mask)) == 1 and not rest:
            continue
        for n0 in listing(d):
            os.remove(os.path.join(d, n0))
        for nm, m in zip(both, mask):
            os.makedirs(os.path.dirname(os.path.join(d, nm)), exist_ok=True)
            put(d, nm, (fa, fb)[m][nm])
        for nm in rest:
            put(d, nm, fa.get(nm) or fb.get(nm))
        for i in (0, 1):
            if code == "vasp" and kws[0] == kws[1] and i:
                continue
            r, e = read(kws[i], d, {})
            ctx.evals += 1
            ctx.step()
            ctx.state(code, what, spec["sp"], mask, i)
            t = f"{spec} files {[nm for nm, m in zip(both, mask) if m]} of the second calculation, others of the first"
            ctx.check(r is None or r in refs, "files of different calculations read as one", lambda: f"{t}: {difference(r, refs[0])}")
            n += r is None
    ctx.trace()
    ctx.outcome("mixture", code, what, "some rejected" if n else "none rejected")


# ---------------------------------------------------------------- command line

def commandline(spec, ctx):
    """the run stops with an error and no results are written"""
    C = Case(spec, ctx)
    a = {"vasp": ["-fWAV=WAVECAR", "-fPOS=POSCAR"]+(["-spinor"] if C.calc.spinor else []), "abinit": ["-code=abinit", "-fWFK=x_WFK"], "espresso": ["-code=espresso", "-prefix=qe"],
         "wannier90": ["-code=wannier90", "-prefix=w", f"-Ecut={C.calc.ecut!r}"]}[C.code]
    r = O.run_cli(a, C.d)
    ctx.require(r.rc == 0 and "irrep-output.json" in r.files, "undamaged files", lambda: f"{spec} {r.rc} {r.exc}")
    O.wipe(C.d, r)
    for n, b in C.files.items():
        L = len(b)
        w = words(b) if n in ("POSCAR", "w.win", "w.eig") or n.endswith("xml") else None
        for f in (0, 0.1, 0.3, 0.5, 0.7, 0.9):
            k = w[int(f*len(w))] if w else int(L*f)
            put(C.d, n, b[:k])
            r = O.run_cli(a, C.d)
            ctx.evals += 1
            ctx.step()
            ctx.state("cli", C.code, spec["sp"], n, f)
            ctx.check(r.rc != 0, "run does not stop with an error", lambda: f"{spec} {n} cut at {k} of {L}")
            ctx.check(not (set(r.files) & {"irrep-output.json", "trace.txt", "irreps.dat"}), "results written from a damaged file", lambda: f"{spec} {n} cut at {k} of {L}: {sorted(r.files)}")
            O.wipe(C.d, r)
            put(C.d, n, b)
    ctx.trace()
    ctx.outcome("cli", C.code)


def gamma(spec, ctx):
    """files of calculations that store half of the plane waves: C(-G) = C(G)*"""
    code, nk = spec["code"], spec["nk"]
    calc = base(0, nk, 3, 2, ks=[[0., 0., 0.]]*nk if code != "abinit" else None)
    for halves in itertools.product((0, 1), repeat=nk):
        if not any(halves):
            continue
        h = copy.copy(calc)
        h.kpts = []
        for x, half in zip(calc.kpts, halves):
            sel = [i for i, g in enumerate(x["g"]) if tuple(g) >= (0, 0, 0)] if half else list(range(len(x["g"])))
            h.kpts.append(dict(x, g=np.array(x["g"])[sel], C=np.array(x["C"])[:, sel]))
        for w in (range(2, 10) if code == "abinit" else (1,)):
            d = ctx.tmpdir()
            if code == "abinit":
                kw = F.write(h, code, d, istwfk=[w if i else 1 for i in halves])
            elif code == "espresso":
                kw = F.write(h, code, d, gamma_only=1)
            else:
                kw = F.write(h, code, d)
            ctx.state(spec, halves, w)
            for sel in [{}]+[dict(kplist=[i+1]) for i, x in enumerate(halves) if x]:
                r, e = read(kw, d, sel)
                ctx.step()
                ctx.check(r is None, "half of the plane waves", lambda: f"{spec} {halves} {w} {sel}: read as all of them")
    ctx.trace()
    ctx.outcome("gamma", code)


def cases(tier):
    out = [dict(kind="gamma", code=code, nk=nk) for code in ("vasp", "espresso", "abinit") for nk in (1, 2)]
    q = tier == "quick"
    sets = [dict(code=code, sp=sp) for code in F.CODES for sp in (0, 1)]+[dict(code="espresso", sp=0, lsda="dw")]
    if not q:
        sets = [dict(s, **v) for s in sets for v in (dict(), dict(nk=3, nb=4, nat=1, full=1), dict(nk=1, nb=1, full=1), dict(nk=2, nb=2, full=1, nat=1))]+[dict(code="espresso", sp=0, lsda="up")]
    for s in sets:
        out += [dict(kind=k, **s) for k in ("missing", "fields", "commandline") if k != "commandline" or not s.get("lsda")]
        out.append(dict(kind="records", **s, **({} if q else {"pairs": 1})))
        if s["code"] != "abinit":
            out.append(dict(kind="text", **s))
    if q:
        more = dict(nk=3, nb=4, nat=1, full=1)
        for s in sets:
            out += [dict(kind=k, **s, **more) for k in ("fields", "records", "text") if k != "text" or s["code"] != "abinit"]
    for s in sets:
        if s["code"] == "vasp":
            fl = ["WAVECAR", "POSCAR"]
        elif s["code"] == "abinit":
            fl = ["x_WFK"]
        elif s["code"] == "espresso":
            ch = s.get("lsda") or ""
            fl = [f"qe.save/wfc{ch}{i+1}.dat" for i in range(s.get("nk", 2))]+["qe.save/data-file-schema.xml"]
        else:
            fl = ["UNK%05d.%s" % (i+1, "NC" if s["sp"] else "1") for i in range(s.get("nk", 2))]+["w.win", "w.eig"]
        for n in fl:
            parts = 4 if n in ("WAVECAR", "x_WFK") or "UNK" in n else 1
            for p in range(parts):
                out.append(dict(kind="cut", file=n, part=p, of=parts, **s))
        if s["code"] == "wannier90":
            out.append(dict(kind="cut", file="w.win", tail=1, **s))
    for code in ("vasp", "espresso", "wannier90"):
        for sp in (0, 1):
            for w in VARIANTS:
                if code == "wannier90" and w not in ("bands", "number of k-points"):
                    continue       # .win, .eig and UNK files have nothing else in common
                out.append(dict(kind="mixture", code=code, sp=sp, what=w))
    return out


def run_case(spec, ctx):
    globals()[spec["kind"]](spec, ctx)
