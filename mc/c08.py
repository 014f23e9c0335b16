"""C08 wave-function files of the four codes.

Files of every code are written from one reference calculation (mc/formats.py) whose coefficients, energies and
k-points are all different; then every selection of k-points (all ordered subsets, repetitions) and of bands
(all windows) is read with the real BandStructure and compared with the reference, coefficient by coefficient."""
import itertools
import numpy as np
from . import crystals as X, formats as F
from .core import quiet, chdir, raises, memo_spacegroup

LEVEL = "model_checking"
CHUNK = 1
KS = [[0., 0., 0.], [.5, .13, -.21], [.31, -.27, .44], [-.4, .5, 1/3], [0.75, 0.1, -0.5]]
BOUNDS = {"quick": "4 codes x scalar/spinor x (NK, NB) in {(1,1),(1,3),(2,1),(3,3)} x all ordered subsets of k-points (+ repeated ones) x windows of bands "
                   "(all 1<=a<=b<=NB, defaults, beyond the last band) x Fermi level (number, auto, absent) x cutoff (none, reduced, larger); QE spin channels; Abinit headers; QE files in capitals; all orders of the energies in the file; 12 k-points with 11 bands, 330 plane waves",
          "thorough": "the same with (4,4), all windows for every selection, 3 cell shapes, 5 k-points"}
ASSUMPTIONS = ["files are written by the reference writers in mc/formats.py, following the formats documented by the codes",
               "energies agree to 1e-5 eV (units), coefficients to single precision for VASP and 1e-9 otherwise"]


def cases(tier):
    out = []
    sizes = [(1, 1), (1, 3), (2, 1), (3, 3)] if tier == "quick" else [(1, 1), (1, 3), (2, 1), (3, 3), (4, 4), (5, 2)]
    for code in F.CODES:
        for sp in (0, 1):
            for nk, nb in sizes:
                for nat in ((1, 2) if (nk, nb) in ((1, 1), (3, 3)) else (2,)):
                    for shape in ((0,) if tier == "quick" else (0, 1, 2)):
                        out.append(dict(kind="sel", code=code, sp=sp, nk=nk, nb=nb, nat=nat, shape=shape, full=1))
            out.append(dict(kind="ef", code=code, sp=sp))
            out.append(dict(kind="cut", code=code, sp=sp))
    for nk, nb in ((1, 1), (2, 2), (3, 3)):
        for nbd in (nb, nb+1, max(1, nb-1)):
            out.append(dict(kind="lsda", nk=nk, nb=nb, nbd=nbd))
    for v in range(len(ABI)):
        out.append(dict(kind="abi", v=v))
    out.append(dict(kind="qecaps"))
    for code in F.CODES:
        for sp in (0, 1):
            out.append(dict(kind="order", code=code, sp=sp))
            out.append(dict(kind="many", code=code, sp=sp, nk=12, nb=11, npw=9))
            out.append(dict(kind="many", code=code, sp=sp, nk=2, nb=2, npw=330 if tier == "quick" else 1400))
    for sp in (0, 1):
        out.append(dict(kind="abiband", sp=sp))
    return out


def crystal(nat, shape):
    c = X.crystal(1, [0, 2, 5][shape], 0, [0, 1, 2][shape], norb=2 if nat == 2 else 1)
    if nat == 1:                                    # left-handed set of basis vectors
        c.lattice, c.rec = c.lattice[[1, 0, 2]], c.rec[[1, 0, 2]]
    return c


def compare(ctx, tag, bs, calc, sel, lo, hi, ef, tol, ecut=None):
    """sel: 0-based indices in order; bands lo..hi (0-based, exclusive)"""
    ctx.require(len(bs.kpoints) == len(sel), "number of k-points", lambda: f"{tag}: {len(bs.kpoints)} expected {len(sel)}")
    sp = calc.spinor
    ctx.check(np.abs(bs.RecLattice-calc.rec).max() < 1e-4*np.abs(calc.rec).max(), "reciprocal lattice", lambda: f"{tag}:\n{bs.RecLattice}\nexpected\n{calc.rec}")
    for kp, ik in zip(bs.kpoints, sel):
        x = calc.kpts[ik]
        t = f"{tag} k #{ik+1} bands {lo+1}-{hi}"
        ctx.check(np.abs(np.array(kp.k)-x["k"]).max() < 1e-8, "k-point", lambda: f"{t}: k={kp.k} expected {x['k']}")
        ctx.check(kp.ik0 == ik+1, "index of k-point", lambda: f"{t}: {kp.ik0}")
        E = x["E"][lo:hi]-ef
        if not ctx.check(np.shape(kp.Energy_raw) == E.shape and np.abs(kp.Energy_raw-E).max() < 1e-5, "energies", lambda: f"{t}: {kp.Energy_raw} expected {E}"):
            continue
        ctx.check(kp.num_bands == hi-lo, "number of bands", lambda: f"{t}: {kp.num_bands}")
        nxt = x["E"][hi]-ef if hi < len(x["E"]) else None
        ctx.check((nxt is None and np.isnan(kp.upper)) or (nxt is not None and abs(kp.upper-nxt) < 1e-5), "next band", lambda: f"{t}: upper {kp.upper} expected {nxt}")
        keep = np.arange(len(x["g"]))
        if ecut is not None:
            from .physics import TWOMHBAR2
            e = (((x["k"]+x["g"]) @ calc.rec)**2).sum(1)/TWOMHBAR2
            keep = np.where(e < ecut)[0]
        g = x["g"][keep]
        idx = {tuple(v): i for i, v in enumerate(g)}
        got = [tuple(v) for v in np.array(kp.ig[:3]).T]
        if not ctx.check(sorted(got) == sorted(idx), "plane waves", lambda: f"{t}: {len(got)} plane waves, expected {len(idx)}"):
            continue
        p = np.array([idx[v] for v in got])
        n = len(x["g"])
        C = x["C"][lo:hi]
        C = np.hstack([C[:, :n][:, keep][:, p], C[:, n:][:, keep][:, p]]) if sp else C[:, keep][:, p]
        C = C/np.linalg.norm(C, axis=1)[:, None]
        if ctx.check(kp.WF.shape == C.shape, "coefficients", lambda: f"{t}: shape {kp.WF.shape} expected {C.shape}"):
            err = np.abs(kp.WF-C).max()
            ctx.check(err < tol, "coefficients", lambda: f"{t}: largest difference {err}")
        ctx.step()


def tolerance(code):
    return 3e-6 if code == "vasp" else 1e-8


def read(code, kw, d, **more):
    from irrep.bandstructure import BandStructure
    with chdir(d), quiet(), memo_spacegroup():
        return BandStructure(calculate_traces=False, **kw, **more)


def selections(nk, full):
    s = []
    for r in range(1, nk+1):
        s += list(itertools.permutations(range(nk), r))
    s = [list(x) for x in s]
    if nk > 1:
        s += [[0, 0], [nk-1, 0, nk-1]]
    return s


def windows(nb):
    """(IBstart, IBend, first, last) as the user gives them and as expected"""
    w = [(a, b, a-1, b) for a in range(1, nb+1) for b in range(a, nb+1)]
    w += [(None, None, 0, nb), (0, 0, 0, nb), (-1, nb+7, 0, nb), (nb, 0, nb-1, nb)]
    return w


def run_case(spec, ctx):
    globals()["run_"+spec["kind"]](spec, ctx)


def run_sel(spec, ctx):
    code, sp, nk, nb = spec["code"], bool(spec["sp"]), spec["nk"], spec["nb"]
    c = crystal(spec["nat"], spec["shape"])
    calc = F.random_calc(c, KS[:nk], sp, nb, npw=9, seed=nk*7+nb+spec["shape"], efermi=1.37)
    d = ctx.tmpdir()
    kw = F.write(calc, code, d)
    allw = windows(nb)
    n = 0
    for i, sel in enumerate([None]+selections(nk, True)):
        ws = allw if (spec["full"] or sel is None or len(sel) == 1) else [allw[(i+j*3) % len(allw)] for j in range(3)]
        for w in ws:
            kl = None if sel is None else (np.array(sel)+1 if n % 2 else [int(s)+1 for s in sel])
            before = None if kl is None else list(kl)
            bs = read(code, kw, d, kplist=kl, IBstart=w[0], IBend=w[1])
            ctx.trace(); n += 1
            ctx.state(spec, sel, w)
            ctx.check(kl is None or list(kl) == before, "list of k-points changed", lambda: f"{before} became {list(kl)}")
            compare(ctx, f"{code} kplist {before}", bs, calc, list(range(nk)) if sel is None else sel, w[2], w[3], 0., tolerance(code))
            ctx.check(bool(bs.spinor) == sp, "spinor")
    ctx.outcome(code, sp, nk, nb)
    # selections outside the file: error, or only points that exist
    for kl in ([nk+1], [1, nk+3], [0, 1]):
        ctx.step()
        try:
            bs = read(code, kw, d, kplist=np.array(kl))
        except Exception:
            continue
        exp = [k-1 for k in kl if 1 <= k <= nk]
        compare(ctx, f"{code} kplist {kl}", bs, calc, exp, 0, nb, 0., tolerance(code))
    for a, b in ((nb+1, nb+1), (2, 1)):
        e = raises(lambda: read(code, kw, d, IBstart=a, IBend=b))
        ctx.check(e is not None, "empty window of bands", f"bands {a}-{b} of {nb} accepted")


def run_ef(spec, ctx):
    code, sp = spec["code"], bool(spec["sp"])
    c = crystal(2, 0)
    for efile in (1.37, -4.25, 0.0, None):
        calc = F.random_calc(c, KS[:2], sp, 3, npw=9, seed=11, efermi=efile)
        d = ctx.tmpdir()
        kw = F.write(calc, code, d)
        for ef in ("0.0", "auto", "AUTO", "2.5", "-3", "1e-1", 2.5, 0):
            if isinstance(ef, str) and ef.lower() == "auto":
                exp = 0. if code == "vasp" else efile or 0.
            else:
                exp = float(ef)
            bs = read(code, kw, d, EF=ef)
            ctx.trace(); ctx.state(spec, efile, str(ef))
            ctx.check(abs(bs.efermi-exp) < 1e-6, "Fermi level", lambda: f"{code} EF={ef!r}: {bs.efermi} expected {exp} (file {efile})")
            compare(ctx, f"{code} EF={ef}", bs, calc, [0, 1], 0, 3, exp, tolerance(code))
        for bad in ("none", "", "1,5", "automatic"):
            e = raises(lambda: read(code, kw, d, EF=bad))
            ctx.check(e is not None, "invalid Fermi level", f"{bad!r} accepted")
            ctx.step()


def run_cut(spec, ctx):
    from . import physics as P
    code, sp = spec["code"], bool(spec["sp"])
    c = crystal(2, 0)
    calc = F.random_calc(c, KS[:2], sp, 3, npw=24, seed=3)
    d = ctx.tmpdir()
    kw = F.write(calc, code, d)
    base = kw.pop("Ecut", None)
    es = np.sort(np.concatenate([P.sphere(x["k"], c.rec, calc.ecut)[1] for x in calc.kpts]))
    cuts = [(0.5*(a+b), 0.5*(a+b)) for a, b in zip(es, es[1:]) if b-a > 0.01 and a > es[-1]*0.25]
    for given, eff in cuts + ([(None, None), (-1., None), (0., None), (calc.ecut*1.7, None)] if code != "wannier90" else [(calc.ecut, None)]):
        bs = read(code, kw, d, Ecut=given)
        ctx.trace(); ctx.state(spec, given)
        compare(ctx, f"{code} Ecut={given}", bs, calc, [0, 1], 0, 3, 0., tolerance(code), ecut=eff)
    ctx.outcome(code, "cutoffs", len(cuts))


def run_lsda(spec, ctx):
    from .formats import write
    c = crystal(2, 0)
    nk, nb, nbd = spec["nk"], spec["nb"], spec["nbd"]
    ec = F.common_ecut(KS[:nk], c.rec, 9)
    up = F.random_calc(c, KS[:nk], False, nb, ecut=ec, seed=5, efermi=0.4)
    dn = F.random_calc(c, KS[:nk], False, nbd, ecut=ec, seed=6, efermi=0.4)
    for x in dn.kpts:
        x["E"] = np.round(x["E"]-2.345, 6)
    d = ctx.tmpdir()
    F.espresso(up, d+"/qe", down=dn)
    kw = dict(code="espresso", prefix=d+"/qe")
    for ch, calc in (("up", up), ("dw", dn), ("UP", up), ("down", dn), ("DW", dn)):
        for sel in [None]+selections(nk, True):
            for w in windows(calc.nb):
                bs = read("espresso", kw, d, spin_channel=ch, kplist=None if sel is None else np.array(sel)+1, IBstart=w[0], IBend=w[1], EF="auto")
                ctx.trace(); ctx.state(spec, ch, sel, w)
                compare(ctx, f"spin channel {ch}", bs, calc, list(range(nk)) if sel is None else sel, w[2], w[3], 0.4, 1e-8)
    ctx.outcome("lsda", nk, nb, nbd)
    ctx.check(raises(lambda: read("espresso", kw, d)) is not None, "spin channel missing", "accepted")
    ctx.check(raises(lambda: read("espresso", kw, d, spin_channel="x")) is not None, "spin channel invalid", "accepted")
    F.espresso(up, d+"/qe2")
    ctx.check(raises(lambda: read("espresso", dict(code="espresso", prefix=d+"/qe2"), d, spin_channel="up")) is not None, "spin channel of unpolarised", "accepted")


ABI = [dict(version="8.6.3"), dict(version="8.10.3"), dict(version="9.6.2"), dict(version="9.10.1"), dict(usepaw=1), dict(nsym=4), dict(npsp=3),
       dict(nshiftk=2), dict(version="10.0.3", usepaw=1, nsym=2), dict(nshiftk_orig=4), dict(nshiftk=4, nshiftk_orig=2), dict(nshiftk=2, nshiftk_orig=0)]


def run_abi(spec, ctx):
    for nat in (1, 2):
        c = crystal(nat, 0)
        for nk in (1, 3):
            calc = F.random_calc(c, KS[:nk], False, 2, npw=9, seed=5, efermi=0.4)
            d = ctx.tmpdir()
            kw = F.write(calc, "abinit", d, **ABI[spec["v"]])
            for sel in [None]+selections(nk, True):
                bs = read("abinit", kw, d, kplist=None if sel is None else np.array(sel)+1, EF="auto")
                ctx.trace(); ctx.state(spec, nat, nk, sel)
                compare(ctx, f"abinit {ABI[spec['v']]}", bs, calc, list(range(nk)) if sel is None else sel, 0, 2, 0.4, 1e-8)
    ctx.outcome("abinit", spec["v"])


def run_abiband(spec, ctx):
    """numbers of bands different at every k-point"""
    c = crystal(2, 0)
    calc = F.random_calc(c, KS[:3], bool(spec["sp"]), 4, npw=9, seed=5)
    for perm in itertools.permutations((2, 3, 4)):
        k2 = [dict(x, C=x["C"][:n], E=x["E"][:n]) for x, n in zip(calc.kpts, perm)]
        cc = F.Calc(c, k2, calc.spinor, calc.ecut)
        d = ctx.tmpdir()
        kw = F.write(cc, "abinit", d)
        for sel in selections(3, True):
            for a, b in ((1, 2), (1, 1), (2, 2)):
                bs = read("abinit", kw, d, kplist=np.array(sel)+1, IBstart=a, IBend=b)
                ctx.trace(); ctx.state(spec, perm, sel, a, b)
                compare(ctx, f"nband {perm}", bs, cc, sel, a-1, b, 0., 1e-8)
        # all bands: those that exist at each k-point, or an error
        try:
            bs = read("abinit", kw, d)
        except Exception:
            ctx.outcome("rejected"); continue
        for kp, x in zip(bs.kpoints, k2):
            ctx.check(len(kp.Energy_raw) == len(x["E"]) == len(kp.WF) == kp.num_bands, "bands of a k-point", lambda: f"{perm}")
        ctx.outcome("all bands")


def run_order(spec, ctx):
    """energies that the file lists in any order, with ties: each stays with its own state"""
    c = crystal(2, 0)
    d = ctx.tmpdir()
    for p in itertools.permutations(range(4)):
        for tie in (0, 1):
            calc = F.random_calc(c, KS[:2], bool(spec["sp"]), 4, npw=9, seed=5)
            if tie:
                calc.kpts[0]["E"][1] = calc.kpts[0]["E"][0]
                calc.kpts[1]["E"][3] = calc.kpts[1]["E"][1]
            calc.kpts[1]["E"] = calc.kpts[1]["E"][list(p)]
            kw = F.write(calc, spec["code"], d)
            for a, b in ((None, None), (2, 3), (1, 3), (4, 4)):
                for sel in (None, [1], [1, 0]):
                    bs = read(spec["code"], kw, d, IBstart=a, IBend=b, kplist=None if sel is None else np.array(sel)+1)
                    ctx.trace(); ctx.state(spec, p, tie, a, b, sel)
                    compare(ctx, f"{spec['code']} energies in the order {p}", bs, calc, sel or [0, 1], (a or 1)-1, b or 4, 0., tolerance(spec["code"]))
    ctx.outcome("order", spec["code"])


def run_many(spec, ctx):
    """numbers of k-points and bands of two digits, and many plane waves"""
    c = crystal(2, 0)
    nk, nb, sp = spec["nk"], spec["nb"], bool(spec["sp"])
    calc = F.random_calc(c, [[round(.05*i-.2, 3), round(.013*i, 3), .31-.02*i] for i in range(nk)], sp, nb, npw=spec["npw"], seed=5, efermi=-2.75)
    d = ctx.tmpdir()
    kw = F.write(calc, spec["code"], d)
    sels = [None, [nk-1], list(range(nk))[::-1]]+[[i, (i*5+1) % nk] for i in range(nk)]
    for sel in sels:
        if spec["code"] == "wannier90" and nk == 12:
            with open(d+"/w.win", "w") as f:
                f.write(F.win_text(calc, ((1, 12, 1), (2, 3, 2), (1, 1, 12), (4, 3, 1))[len(sel or []) % 4]))
        for a, b in ((None, None), (nb, nb), (nb-1, nb), (1, nb-1), (nb, 3*nb)):
            bs = read(spec["code"], kw, d, IBstart=a, IBend=b, kplist=None if sel is None else np.array(sel)+1)
            ctx.trace(); ctx.state(spec, sel, a, b)
            compare(ctx, f"{spec['code']} {nk} k-points, {nb} bands", bs, calc, list(range(nk)) if sel is None else sel, (a or 1)-1, min(b or nb, nb), 0., tolerance(spec["code"]))
    ctx.outcome("many", spec["code"])


def run_qecaps(spec, ctx):
    c = crystal(2, 0)
    for sp in (False, True):
        calc = F.random_calc(c, KS[:3], sp, 2, npw=9, seed=5)
        d = ctx.tmpdir()
        F.espresso(calc, d+"/qe", wfc_case=str.upper)
        for sel in [None]+selections(3, True):
            bs = read("espresso", dict(code="espresso", prefix=d+"/qe"), d, kplist=None if sel is None else np.array(sel)+1)
            ctx.trace(); ctx.state(spec, sp, sel)
            compare(ctx, "QE capitals", bs, calc, list(range(3)) if sel is None else sel, 0, 2, 0., 1e-8)
