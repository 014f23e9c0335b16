"""C07 levels, gaps, parity counts and topological indices.

Enumerated on the real code: every pattern of energy gaps (in units of the degeneracy threshold) times every
assignment of parities to the levels, built from exact parity eigenstates of a P-1 crystal at the TRIMs (and at
a general k-point), for every window of bands, threshold, origin and spin; the reference model regroups the
energies and counts parities by itself."""
import itertools, re, json
import numpy as np
from . import crystals as X, physics as P, formats as F
from .core import quiet, chdir

LEVEL = "model_checking"
CHUNK = 1
NB = 5
GAPS = (0.0, 0.5, 2.0, 1e3)            # in units of the threshold
GAPSX = (0.0, 1-2.**-10, 1.0, 1+2.**-10)
TRIMS = [list(t) for t in itertools.product((0., .5), repeat=3)]
GEN = [.13, .24, .31]
BOUNDS = {"quick": "P-1 crystal; Kpoint: 5 bands, 4^4 gap patterns x 8 parity words x thresholds {1e-8,1e-4,1e-2}(one per case) x 3 inversion centres x scalar/spinor, Gamma/TRIM/general k; the same with gaps equal to the threshold to the last bit, and with a reference cell on another inversion centre; "
                   "BandStructure from files: sets of 1-4 k-points out of 8 TRIM + general, windows of bands (first, last) in 1..5 incl. out of range, EF number/none; 230 groups (scalar or spinor) x every tabulated k-point, lines, planes, general points",
          "thorough": "as quick, all 32 parity words, all 9 k-points, more k-point sets"}
ASSUMPTIONS = ["parity eigenvalues are exact (states built as eigenvectors of the operator)",
               "gaps refer to the mean energy of the highest selected level, to within the width of the level",
               "Z2 and Z4 of scalar states are checked only when the number of odd states is even"]
WINDOWS = [(1, 5), (1, 4), (2, 4), (3, 3), (2, 5), (1, 1), (0, 0), (4, 9)]


def cases(tier):
    words = range(8) if tier == "quick" else range(4)
    out = []
    for sp in (0, 1):
        for org in (0, 2, 3):
            for ik in ((0, 3, 7, 8) if tier == "quick" else range(9)):
                for thr in (1e-8, 1e-4, 1e-2):
                    if tier == "quick" and org and thr != 1e-4:
                        continue
                    out.append(dict(kind="kp", sp=sp, org=org, ik=ik, thr=thr, all=int(tier != "quick")))
    for sp in (0, 1):
        for org in (0, 3):
            for ik in ((0, 3, 7) if tier == "quick" else range(9)):
                # gaps equal to the threshold, to the last bit
                out.append(dict(kind="kp", sp=sp, org=org, ik=ik, thr=2.**-14, all=0, exact=1))
                # reference cell with the origin on another inversion centre
                out.append(dict(kind="kp", sp=sp, org=org, ik=ik, thr=1e-4, all=0, ref=1))
    for sg in range(1, 231):        # all groups, scalar or spinor states of a Hamiltonian with their symmetry
        for sp in ((sg+sg//16) % 2,) if tier == "quick" else (0, 1):
            for j in range(1 if tier == "quick" else 3):
                out.append(dict(kind="sg", sg=sg, sp=sp, basis=(sg+j) % 7, org=(sg//2+3*j) % 6, rot=(sg+j) % 4))
    sets = [[0], [8], [0, 1], [7, 8, 2], [0, 3, 5, 6], list(range(8)), [8, 0]]
    if tier != "quick":
        sets += [[a, b] for a in range(9) for b in range(9) if a < b] + [list(range(9))]
    for sp in (0, 1):
        for org in (0, 3):
            for s in sets:
                for w in range(len(WINDOWS)):
                    for ef in ("0.0", "-1.25", "auto"):
                        if ef != "0.0" and (w % 3 or org):
                            continue
                        if sp and tier == "quick" and (org or ef == "auto"):
                            continue
                        out.append(dict(kind="bs", sp=sp, org=org, ks=s, w=w, ef=ef, all=int(tier != "quick")))
    return out


def parity_states(c, k, spinor, npw=14):
    """orthonormal exact even and odd states at k"""
    ec = P.choose_ecut(k, c.rec, npw)
    g, e = P.sphere(k, c.rec, ec)
    o = np.argsort(e, kind="stable"); g = g[o]
    n = len(g)
    A, T = c.ops[[i for i, (a, t) in enumerate(c.ops) if np.allclose(a, -np.eye(3))][0]]
    T = T - np.floor(T+1e-9)
    R = P.rep(k, g, np.eye(n, dtype=complex), A, T)
    if R is None:
        return g, None, None
    w, v = np.linalg.eigh((R+R.conj().T)/2)
    ev, od = v[:, w > .5].T, v[:, w < -.5].T
    rs = np.random.RandomState(5)
    mix = lambda a: np.linalg.qr(rs.normal(size=(len(a), len(a)))+1j*rs.normal(size=(len(a), len(a))))[0] @ a
    if not spinor:
        return g, mix(ev), mix(od)
    z = lambda a: np.concatenate([np.hstack([a, 0*a]), np.hstack([0*a, a])])
    return g, mix(z(ev)), mix(z(od))


def bands(g, ev, od, word, nb, spinor):
    """nb states whose parities are the bits of word; for spinors bands come in pairs (so 2*nb states)"""
    C, par = [], []
    ie = io = 0
    for i in range(nb):
        for _ in range(2 if spinor else 1):
            p = -1 if (word >> i) & 1 else 1
            if p > 0:
                C.append(ev[ie]); ie += 1
            else:
                C.append(od[io]); io += 1
            par.append(p)
    return np.array(C), np.array(par)


def ref_levels(E, thr):
    b = [0]
    for i in range(1, len(E)):
        if E[i]-E[i-1] > thr:
            b.append(i)
    return b+[len(E)]


def run_case(spec, ctx):
    dict(kp=run_kp, bs=run_bs, sg=run_sg)[spec["kind"]](spec, ctx)


def run_sg(spec, ctx):
    """parities at every tabulated k-point, also where the little group has other improper operations or none"""
    from irrep.spacegroup import SpaceGroup
    from .c04 import make, kpoints
    sp = bool(spec["sp"])
    c = X.crystal(spec["sg"], spec["basis"], spec["org"], spec["rot"], norb=2 if len(X.coset_ops(spec["sg"])) < 24 else 1)
    S = SpaceGroup(c.cell, spinor=sp, search_cell=bool(spec["sg"] % 2))
    inv = [o for o in S.symmetries if np.array_equal(np.round(o.rotation), -np.eye(3))]
    for ik, (name, k, kin) in enumerate(kpoints(spec["sg"], sp, np.array(c.refUC, float), True)):
        r = P.solve(k, c, sp, npw=24, nb=8, gauge=ik % 2)
        b = r["borders"]
        with quiet():
            kp, ig, o = make(S, c, kin, r["g"], r["C"], r["E"], sp)
        ctx.step(); ctx.trace(); ctx.state(spec, ik)
        t = f"{spec} {name} {k}"
        want = None
        if inv and np.abs(2*k-np.round(2*k)).max() < 1e-7:
            x = P.level_traces(k, r["g"], r["C"], b, -np.eye(3), inv[0].translation, np.eye(2) if sp else None)
            ctx.require(x is not None, "plane-wave set", t)
            want = int(round(sum((np.diff(b)-x.real)/2)))
        ctx.check(list(kp.degeneracies) == list(np.diff(b)), "levels", lambda: f"{t}: {kp.degeneracies}, expected {np.diff(b)}")
        ctx.check(kp.num_bandinvs == want, "number of odd states", lambda: f"{t}: {kp.num_bandinvs} odd states, expected {want}")
        ctx.outcome("odd", want)


def setup(spec):
    from irrep.spacegroup import SpaceGroup
    c = X.crystal(2, 0, spec["org"])
    return c


def run_kp(spec, ctx):
    from irrep.spacegroup import SpaceGroup
    from irrep.kpoint import Kpoint
    c = setup(spec)
    sp, thr = bool(spec["sp"]), spec["thr"]
    SG = SpaceGroup(c.cell, sp)
    if spec.get("ref"):
        t = [s.translation for s in SG.symmetries if np.allclose(s.rotation, -np.eye(3))][0]
        SG = SpaceGroup(c.cell, sp, refUC=np.eye(3), shiftUC=t/2+np.array([.5, 0, 0]), search_cell=True)
    # inversion as reported
    inv = [s for s in SG.symmetries if np.allclose(s.rotation, -np.eye(3))]
    ctx.require(len(inv) == 1 and len(SG.symmetries) == 2, "symmetries", f"{len(SG.symmetries)} operations in P-1")
    k = np.array((TRIMS+[GEN])[spec["ik"]])
    nb = NB
    g, ev, od = parity_states(c, k, sp)
    T0 = [t for a, t in c.ops if np.allclose(a, -np.eye(3))][0]
    d = inv[0].translation - (T0-np.floor(T0+1e-9))
    sgn = round(np.real(np.exp(2j*np.pi*np.dot(np.round(d), 2*0*k+k)*1)))if ev is not None else 0
    if ev is None:
        rs = np.random.RandomState(3)
        C0 = np.linalg.qr(rs.normal(size=(len(g)*(1+sp), 2*nb))+1j*rs.normal(size=(len(g)*(1+sp), 2*nb)))[0].T
    ig, o = P.shells(g, k, c.rec)
    perm = np.concatenate([o, o+len(g)]) if sp else o
    words = range(32) if spec["all"] else (0, 31, 1, 10, 21, 6, 16, 13)
    G_ = GAPSX if spec.get("exact") else GAPS
    for pat in itertools.product(range(len(G_)), repeat=nb-1):
        gaps = np.array([G_[p] for p in pat])*thr
        E1 = -2.0+np.concatenate([[0], np.cumsum(gaps)])
        E = np.repeat(E1, 2) if sp else E1
        b = ref_levels(E, thr)
        for word in (words if ev is not None else words[:1]):
            if ev is None:
                C, par = C0[:len(E)].copy(), None
            else:
                C, par = bands(g, ev, od, word, nb, sp)
                for i, j in zip(b, b[1:]):      # any basis inside a level
                    n = j-i
                    if n > 1:
                        U = np.fft.fft(np.eye(n))/np.sqrt(n)
                        C[i:j] = U @ C[i:j]
            with quiet():
                kp = Kpoint(ik=0, num_bands=len(E), RecLattice=c.rec, symmetries_SG=SG.symmetries, calculate_traces=True, spinor=sp,
                            kpt=k, WF=C[:, perm].copy(), Energy=E.copy(), ig=ig, upper=1.0, degen_thresh=thr,
                            refUC=SG.refUC, shiftUC=SG.shiftUC, symmetries_tables=SG.symmetries_tables)
            ctx.step(); ctx.trace()
            ctx.state(spec["ik"], spec["org"], sp, thr, pat, word)
            deg = [j-i for i, j in zip(b, b[1:])]
            ctx.check(list(kp.degeneracies) == deg, "levels", lambda: f"gaps {gaps/thr} x thr: degeneracies {list(kp.degeneracies)}, expected {deg}")
            if len(kp.Energy_mean) == len(deg):
                ctx.check(np.allclose(kp.Energy_mean, [E[i:j].mean() for i, j in zip(b, b[1:])], atol=1e-9, rtol=0), "mean energy", lambda: f"{kp.Energy_mean} for {E}")
            if word == words[0]:                    # the same levels everywhere
                with quiet():
                    rho, unf = kp.get_rho_spin(thr), np.array(kp.unfold(np.eye(3), k, degen_thresh=thr))
                ctx.check([(r[0], r[1]) for r in rho] == list(zip(b, b[1:])), "levels of spin matrices", lambda: f"gaps {gaps/thr} x thr: {[(r[0], r[1]) for r in rho]}, expected {b}")
                ctx.check(len(unf) == len(deg) and np.allclose(unf[:, 1], deg, atol=1e-6), "levels when unfolding", lambda: f"gaps {gaps/thr} x thr: {unf}, expected {deg}")
            if ev is None:
                ctx.check(kp.num_bandinvs is None, "no inversion", lambda: f"num_bandinvs={kp.num_bandinvs} at {k}")
            else:
                nodd = int((par*sgn < 0).sum())
                ctx.check(kp.num_bandinvs == nodd, "number of odd states", lambda: f"{kp.num_bandinvs} odd states, expected {nodd} (parities {par*sgn}, k={k})")
                ctx.outcome("levels", len(deg), "odd", nodd)


def run_bs(spec, ctx):
    from irrep.bandstructure import BandStructure
    c = setup(spec)
    sp = bool(spec["sp"])
    thr = 1e-4
    ks = [(TRIMS+[GEN])[i] for i in spec["ks"]]
    nb = 5
    ec = F.common_ecut(ks, c.rec, 24)
    ef = -1.25 if spec["ef"] == "-1.25" else 0.0
    T0 = [t for a, t in c.ops if np.allclose(a, -np.eye(3))][0]
    ib0, ib1 = WINDOWS[spec["w"]]
    m = 2 if sp else 1
    # windows are given in pairs for spinors
    IB0, IB1 = (m*(ib0-1)+1 if ib0 > 0 else ib0), m*ib1
    a, z = max(IB0-1, 0), (IB1 if 0 < IB1 <= m*nb else m*nb)
    for shift in range(4 if not sp else 1 if not spec.get('all') else 4):
        kpts, pars = [], []
        for j, k in enumerate(ks):
            k = np.array(k)
            g, _ = P.sphere(k, c.rec, ec)
            ev = parity_basis(c, k, g, sp)
            gaps = np.array([GAPS[(3*i+j+shift+(i*j) % 3) % 4] for i in range(nb-1)])*thr
            E1 = -3.0+0.37*((j*(shift+2)) % 5)+np.concatenate([[0], np.cumsum(np.where(gaps > 10*thr, gaps+0.01*j+0.3, gaps))])
            E = np.repeat(E1, m)
            word = (7*j+11*shift+5*spec["w"]+3) % 32
            if ev is None:
                rs = np.random.RandomState(j)
                C = np.linalg.qr(rs.normal(size=(len(g)*m, m*nb))+1j*rs.normal(size=(len(g)*m, m*nb)))[0].T
                par = None
            else:
                C, par = bands(g, ev[0], ev[1], word, nb, sp)
            kpts.append(dict(k=k, g=g, C=C, E=E)); pars.append(par)
        calc = F.Calc(c, kpts, sp, ec)
        d = ctx.tmpdir()
        kw = F.write(calc, "vasp", d)
        with quiet() as q:
            bs = BandStructure(IBstart=IB0, IBend=IB1, EF=spec["ef"], calculate_traces=True, degen_thresh=thr, **kw)
        inv = [s for s in bs.spacegroup.symmetries if np.allclose(s.rotation, -np.eye(3))][0]
        dT = np.round(inv.translation-(T0-np.floor(T0+1e-9)))
        ctx.step(); ctx.trace(); ctx.state(spec, shift)
        tot = 0
        gd, lo, up = [], [], []
        for j, (kp, x, par) in enumerate(zip(bs.kpoints, kpts, pars)):
            E = x["E"]-ef
            Es = E[a:z]
            b = ref_levels(Es, thr)
            deg = [q1-p1 for p1, q1 in zip(b, b[1:])]
            ctx.check(list(kp.degeneracies) == deg, "levels", lambda: f"{list(kp.degeneracies)} vs {deg}")
            ctx.check(np.allclose(kp.Energy_raw, Es, atol=1e-7), "energies", lambda: f"{kp.Energy_raw} vs {Es}")
            ctx.check(sum(kp.degeneracies) == z-a == kp.num_bands, "number of bands")
            width = Es[-1]-Es[b[-2]]+1e-7
            if z < m*nb:
                ctx.check(abs(kp.upper-E[z]) < 1e-7, "upper", lambda: f"upper {kp.upper} expected {E[z]}")
                gd.append(E[z]-Es[-1]); up.append(E[z])
            else:
                ctx.check(kp.upper is None or np.isnan(kp.upper), "upper", lambda: f"upper {kp.upper}, no next band")
            lo.append(Es[-1])
            if par is None:
                ctx.check(kp.num_bandinvs is None, "no inversion", lambda: f"{kp.num_bandinvs} at {x['k']}")
            else:
                sgn = round(np.cos(2*np.pi*np.dot(dT, x["k"])))
                n = int((par[a:z]*sgn < 0).sum())
                ctx.check(kp.num_bandinvs == n, "number of odd states", lambda: f"{kp.num_bandinvs} expected {n} at {x['k']}")
                tot += n
        tol = 5*thr
        ctx.check(bs.num_bandinvs == tot, "total of odd states", lambda: f"{bs.num_bandinvs} expected {tot}")
        if gd:
            ctx.check(abs(bs.gap_direct-min(gd)) < tol, "direct gap", lambda: f"{bs.gap_direct} expected {min(gd)}")
            ctx.check(abs(bs.gap_indirect-(min(up)-max(lo))) < tol, "indirect gap", lambda: f"{bs.gap_indirect} expected {min(up)-max(lo)}")
        else:
            ctx.check(not np.isfinite(bs.gap_direct) and not np.isfinite(bs.gap_indirect), "gap without next band", lambda: f"{bs.gap_direct} {bs.gap_indirect}")
        # printed and json
        with quiet() as q:
            bs.identify_irreps(None)
            bs.write_characters()
            js = bs.json()
        t = q.text
        pairs = tot//2 if sp else tot
        r = re.findall(r"TOTAL number of inversions-odd (Kramers pairs|states) : (\S+)", t)
        ctx.check(r == [("Kramers pairs" if sp else "states", str(pairs))], "printed total", lambda: f"{r} expected {pairs}")
        per = re.findall(r"Invariant under inversion: (\w+)(?:\nNumber of inversions-odd (?:Kramers pairs|states) : (\d+))?", t)
        exp = []
        for par, x in zip(pars, kpts):
            if par is None:
                exp.append(("No", ""))
            else:
                sgn = round(np.cos(2*np.pi*np.dot(dT, x["k"])))
                n = int((par[a:z]*sgn < 0).sum())
                exp.append(("Yes", str(n//2 if sp else n)))
        ctx.check(per == exp, "printed parities", lambda: f"{per} expected {exp}")
        if tot % 2 == 0:
            for nm, mod in (("Z2", 2), ("Z4", 4)):
                r = re.findall(nm+r" invariant: (\S+)", t)
                ctx.check(r == [str((tot//2) % mod)], nm, lambda: f"{r} expected {(tot//2) % mod}")
        jn = js.get("number of inversion-odd Kramers pairs" if sp else "number of inversion-odd states")
        ctx.check(jn == pairs, "json odd", lambda: f"{jn} expected {pairs}")
        if sp:
            ctx.check(int(np.ravel(js["Z4"])[0]) == pairs % 4, "json Z4", lambda: f"{js['Z4']} expected {pairs % 4}")
        ctx.outcome("k", len(ks), "bands", z-a, "odd", tot, "gap", bool(gd))


def parity_basis(c, k, g, sp):
    n = len(g)
    A, T = [(a, t) for a, t in c.ops if np.allclose(a, -np.eye(3))][0]
    T = T-np.floor(T+1e-9)
    R = P.rep(k, g, np.eye(n, dtype=complex), A, T)
    if R is None:
        return None
    w, v = np.linalg.eigh((R+R.conj().T)/2)
    ev, od = v[:, w > .5].T, v[:, w < -.5].T
    if sp:
        zz = lambda a: np.concatenate([np.hstack([a, 0*a]), np.hstack([0*a, a])])
        ev, od = zz(ev), zz(od)
    return ev, od
