"""C13 unfolding: every supercell up to a determinant, every folding k-point and its images, with states of known composition."""
import itertools
import numpy as np
from . import crystals as X, physics as P, formats as F
from .core import quiet, chdir, memo_spacegroup

LEVEL = "model_checking"
CHUNK = 2
BOUNDS = {"quick": "all 56 sublattices of index <= 4 (in 2 bases, also negative determinant), 5 of index 5 and 6, x scalar/spinor x 5 supercell k-points x every folding primitive k-point and "
                   "2 images of it x states of primitive k-points mixed within degenerate levels, and random states x 3 thresholds; k-points that do not fold on a 1/12 grid, and at .2, .03 and .004 from folding ones",
          "thorough": "sublattices of index <= 6 in 4 bases, 8 k-points"}
ASSUMPTIONS = ["plane-wave states read from Abinit files (double precision)"]
KS = [(0, 0, 0), (0.5, 0, 0), (1/3, 1/3, 0), (0.137, 0.211, -0.318), (0.5, 0.5, 0.5), (0.25, 0.75, 0), (1, -1, 0.5), (0.1, 0.2, 1.3)]
UNI = [np.eye(3, dtype=int), np.array([[1, 1, 0], [0, 1, 0], [0, -1, 1]]), np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]]), np.array([[1, 0, 0], [2, 1, 0], [-1, 1, 1]])]
THOROUGH_BUDGET = 3600


def hnf(n):
    for a in range(1, n+1):
        if n % a:
            continue
        for b in range(1, n//a+1):
            if (n//a) % b:
                continue
            c = n//a//b
            for x, y, z in itertools.product(range(b), range(c), range(c)):
                yield np.array([[a, x, y], [0, b, z], [0, 0, c]])


def cases(tier):
    t = tier == "thorough"
    out = []
    for n in range(1, 7 if t else 5):
        for i, M in enumerate(hnf(n)):
            for sp in (0, 1):
                for u in (range(4) if t else [0] if i % 2 == 0 else [1 + (i % 4 == 3)]):
                    out.append(dict(M=(UNI[u] @ M).tolist(), sp=sp, nk=8 if t else 5))
    if not t:
        for i, M in enumerate([np.diag(d) for d in ((5, 1, 1), (1, 6, 1), (1, 1, 5))]+[np.diag((1, 2, 3)), np.array([[1, 0, 2], [0, 1, 3], [0, 0, 5]])]):
            out.append(dict(M=M.tolist(), sp=i % 2, nk=3))
    return out


def folding(M, K):
    """all primitive k-points (mod 1) that fold onto K of the supercell"""
    Mi = np.linalg.inv(M.T)
    n = abs(round(np.linalg.det(M)))
    out = []
    for G in itertools.product(range(-n, n+1), repeat=3):
        p = (np.array(K)+G) @ Mi
        if not any(np.abs((p-q)-np.round(p-q)).max() < 1e-7 for q in out):
            out.append(p)
        if len(out) == n:
            break
    assert len(out) == n
    return out


def run_case(spec, ctx):
    from irrep.bandstructure import BandStructure
    M = np.array(spec["M"]); sp = bool(spec["sp"])
    det = abs(round(np.linalg.det(M)))
    Mi = np.linalg.inv(M.T)
    Lp = np.array([[3.1, 0.2, 0.], [-0.4, 3.6, 0.3], [0.5, 0., 2.9]])
    c = X.crystal(1, 0, 0, 0, norb=1)
    c.lattice = M @ Lp
    c.rec = 2*np.pi*np.linalg.inv(c.lattice).T
    rs = np.random.RandomState(int(np.abs(M).sum())*7+spec["sp"])
    nb = 2*det+3
    kp, comp = [], []
    ks = [np.array(k, float) for k in KS[:spec["nk"]]]
    ecut = F.common_ecut(ks, c.rec, 14*det+10, gap=0.003)
    for ik, K in enumerate(ks):
        g, e = P.sphere(K, c.rec, ecut)
        n = len(g)
        p = (K+g) @ Mi
        fold = folding(M, K)
        cls = np.array([next(j for j, q in enumerate(fold) if np.abs((x-q)-np.round(x-q)).max() < 1e-6) for x in p])
        C = rs.normal(size=(nb, n*(1+sp)))+1j*rs.normal(size=(nb, n*(1+sp)))
        perfect = ik % 2 == 0
        if perfect:
            # every state lives on one primitive k-point
            for b in range(nb):
                on = cls == (b+ik) % det
                C[b] *= np.hstack([on, on]) if sp else on
        Q = np.linalg.qr(C.T)[0].T if perfect is False else None
        if perfect:
            for j in range(det):
                m = [b for b in range(nb) if (b+ik) % det == j]
                ctx.require(len(m) <= (cls == j).sum(), "harness", str(spec))
                C[m] = np.linalg.qr(C[m].T)[0].T
            Q = C
        # levels: sizes 1,2,3.. with exact degeneracy, then near-degeneracies 2e-5 apart
        sizes, E, lev = [], [], 0.
        while len(E) < nb:
            s = min(1+len(sizes) % 3, nb-len(E))
            sizes.append(s)
            E += [lev]*s
            lev += 2e-5 if len(sizes) % 3 == 2 else 0.731
        E = np.array(E)
        b0 = 0
        for s in sizes:
            A = np.linalg.qr(rs.normal(size=(s, s))+1j*rs.normal(size=(s, s)))[0]
            Q[b0:b0+s] = A @ Q[b0:b0+s]
            b0 += s
        kp.append(dict(k=K, g=g, C=Q, E=E))
        comp.append((cls, fold))
    calc = F.Calc(c, kp, sp, ecut, 0.)
    d = ctx.tmpdir()
    a = F.write(calc, "abinit", d)
    with chdir(d), quiet(), memo_spacegroup():
        bs = BandStructure(calculate_traces=False, **a)
    ctx.trace()
    sig = X.SIG
    for ik, (kpt, x) in enumerate(zip(bs.kpoints, kp)):
        cls, fold = comp[ik]
        n = len(x["g"])
        for thr in (1e-4, 1e-6, 10.):
            bo = P.borders(x["E"], thr)
            t0 = f"{spec} K={x['k']} threshold {thr}"
            # spin expectation values
            rho = kpt.get_rho_spin(thr)
            ctx.require([(r[0], r[1]) for r in rho] == list(zip(bo, bo[1:])), "levels", lambda: f"{t0}: {[(r[0], r[1]) for r in rho]} {bo}")
            mats = []
            for (b1, b2), r in zip(zip(bo, bo[1:]), rho):
                C = x["C"][b1:b2]
                ops = [C.conj() @ C.T]
                if sp:
                    S3 = C.reshape(b2-b1, 2, n)
                    ops += [np.einsum("isg,st,jtg->ij", S3.conj(), s, S3) for s in sig]
                ctx.require(len(r[3]) == len(ops), "matrices", t0)
                ctx.check(abs(r[2]-x["E"][b1:b2].mean()) < 1e-5, "energy", t0)
                for m1, m2 in zip(r[3], ops):
                    ctx.check(np.abs(np.array(m1)-m2).max() < 1e-6, "spin matrix", lambda: f"{t0} bands {b1}-{b2}: {m1} vs {m2}")
                mats.append(ops)
            total = 0
            for j, q in enumerate(fold):
                for img in (np.zeros(3), np.array([1, -1, 0]), np.array([-2, 0, 1])):
                    t = f"{t0} onto {q+img}"
                    res = np.array(kpt.unfold(M, q+img, degen_thresh=thr))
                    ctx.step(); ctx.state(spec, ik, thr, j, img.tolist())
                    ctx.require(res.shape == (len(bo)-1, 5 if sp else 2), "shape", lambda: f"{t}: {res.shape}")
                    want = []
                    for (b1, b2), ops in zip(zip(bo, bo[1:]), mats):
                        on = cls == j
                        W = x["C"][b1:b2]*(np.hstack([on, on]) if sp else on)
                        proj = W.conj() @ W.T
                        row = [x["E"][b1:b2].mean(), np.trace(proj).real]
                        if sp:
                            if ik % 2 == 0:
                                # Bloch states of the primitive cell: spin of the projected states, directly
                                S3 = W.reshape(b2-b1, 2, n)
                                direct = [np.einsum("isg,st,itg->", S3.conj(), s, S3).real for s in sig]
                                ctx.check(np.abs(res[len(want), 2:]-direct).max() < 1e-5, "spin of projected states", lambda: f"{t}: {res[len(want)]} vs {direct}")
                            trace = [np.trace(proj @ o).real for o in ops[1:]]
                            row += trace
                        want.append(row)
                    ctx.check(np.abs(res-np.array(want)).max() < 1e-5, "weights and spins", lambda: f"{t}: {res.tolist()} instead of {want}")
                    if not img.any():
                        total = total+res[:, 1]
            ctx.check(np.abs(total-np.diff(bo)).max() < 1e-5, "sum of weights", lambda: f"{t0}: {total}")
        # k-points that do not fold
        bad = 0
        for m in itertools.product(range(0, 12, 2 if ik else 1), repeat=3):
            q = np.array(m)/12+(0.0003 if ik == 1 else 0)
            y = q @ M.T-x["k"]
            near = np.linalg.solve(M, x["k"]+np.round(y)+np.eye(3)[sum(m) % 3]*(.004, -.03, .2)[(m[0]+m[2]) % 3])
            try:        # close to one that folds
                kpt.unfold(M, near)
                ctx.check(False, "k-point that does not fold", f"{spec} K={x['k']} onto {near}")
            except RuntimeError:
                pass
            ctx.step()
            if np.abs(y-np.round(y)).max() > 1e-4:
                bad += 1
                if bad > (60 if ik else 200):
                    break
                try:
                    kpt.unfold(M, q)
                    ctx.check(False, "k-point that does not fold", f"{spec} K={x['k']} onto {q}")
                except RuntimeError:
                    pass
                ctx.step()
    run_line(bs, M, Lp, spec, ctx)
    ctx.outcome("spinor" if sp else "scalar", det)


def run_line(bs, M, Lp, spec, ctx):
    """length along a path of the primitive cell, every word of steps"""
    B = 2*np.pi*np.linalg.inv(Lp).T
    dirs = [np.array([.6, -.8, 0.]), np.array([0., .28, .96]), np.array([-.5, .5, 2**-.5])]
    for word in itertools.product((0., .02, .095, .105, .7), repeat=3):
        k = [np.array([.1, .2, .3])]
        for w, v in zip(word, dirs):
            k.append(k[-1]+w*v @ np.linalg.inv(B))
        for thr in (None, .05, 100.):
            x = bs.KPOINTSline(kpred=k, supercell=M, **({} if thr is None else dict(breakTHRESH=thr)))
            want = np.cumsum([0.]+[w if w <= (thr or .1) else 0. for w in word])
            ctx.step()
            ctx.check(np.shape(x) == (4,) and np.abs(x-want).max() < 1e-8, "length of the path", lambda: f"{spec} steps {word} threshold {thr}: {x}")
