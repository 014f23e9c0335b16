"""C12 Zak phases and Wannier charge centres: loops of every direction, length, starting point and folding, for states whose
centres are known exactly and for Bloch states of models, in every gauge."""
import itertools
import numpy as np
from . import crystals as X, physics as P, formats as F
from .core import quiet, chdir, memo_spacegroup

LEVEL = "model_checking"
CHUNK = 2
DIRS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 0), (0, 1, 1), (1, 1, 1), (-1, 0, 0)]
BOUNDS = {"quick": "exactly solvable: 8 loop directions x 3..6 k-points x scalar/spinor x 1..4 bands x (every starting point, 3 foldings by reciprocal vectors, 4 gauges, 2 displacements); "
                   "models: 6 inversion-symmetric space groups x spin x 2 directions x gauges x windows of complete bands; every overlap matrix",
          "thorough": "3..9 k-points, 1..6 bands, 6 foldings, 8 gauges; 30 space groups x 4 directions"}
ASSUMPTIONS = ["at least three k-points on the loop (the direction of closing is otherwise ambiguous)", "sign convention of the implementation: phases of the product of <u_k|u_k+1>, i.e. a centre x counts as -x"]
INVSG = [2, 14, 62, 136, 166, 221]
INVSG2 = [2, 10, 11, 12, 14, 47, 52, 61, 62, 64, 69, 70, 72, 83, 88, 123, 136, 139, 147, 148, 164, 166, 175, 191, 194, 200, 205, 221, 225, 227]
THOROUGH_BUDGET = 2*3600


def cases(tier):
    t = tier == "thorough"
    out = []
    for d in DIRS:
        for n in range(3, 10 if t else 7):
            for sp in (0, 1):
                out.append(dict(kind="exact", dir=list(d), n=n, sp=sp, nb=list(range(1, 7 if t else 5)), fold=6 if t else 3, gauge=8 if t else 4))
    for sg in (INVSG2 if t else INVSG):
        for sp in (0, 1):
            for d in (DIRS[:4] if t else [DIRS[0], DIRS[3 + sg % 4]]):
                out.append(dict(kind="model", sg=sg, sp=sp, dir=list(d), n=5 + sg % 2 if not t else 8, gauge=3))
    return out


def unitary(seed, n):
    rs = np.random.RandomState(seed)
    return np.linalg.qr(rs.normal(size=(n, n))+1j*rs.normal(size=(n, n)))[0]


def load(calc, ctx, **kw):
    from irrep.bandstructure import BandStructure
    d = ctx.tmpdir()
    a = F.write(calc, "abinit", d)
    with chdir(d), quiet(), memo_spacegroup():
        return BandStructure(calculate_traces=False, **a, **kw)


def ref_overlap(x, y, n, spinor):
    """<u_m,k|u_n,k'> with k' taken as the image closest to k"""
    G = np.round(x["k"]-y["k"]).astype(int)
    ix = {tuple(g): i for i, g in enumerate(x["g"])}
    A = np.zeros((n, n), complex)
    nx, ny = len(x["g"]), len(y["g"])
    p = [(ix[tuple(g-G)], j) for j, g in enumerate(y["g"]) if tuple(g-G) in ix]
    i = np.array([a for a, b in p], int); j = np.array([b for a, b in p], int)
    for s in range(2 if spinor else 1):
        A += x["C"][:n, i+s*nx].conj() @ y["C"][:n, j+s*ny].T
    return A


def sets_equal(a, b, tol=2e-6):
    """equality of two sets of numbers modulo 1"""
    a, b = np.sort(np.mod(a, 1)), np.sort(np.mod(b, 1))
    if len(a) != len(b):
        return False
    for s in range(len(a)):
        d = np.roll(b, s)-a
        if np.abs(d-np.round(d)).max() < tol:
            return True
    return False


def measure(calc, ctx, t, overlaps=False, regular=True):
    bs = load(calc, ctx)
    with quiet():
        w = np.array(bs.wcc())
        z, gap, cent, loc = bs.zakphase()
    n = calc.nb
    ctx.trace()
    ctx.step()
    ctx.require(len(w) == n and len(z) == n and len(gap) == n and len(cent) == n and len(loc) == n, "shapes", t)
    ctx.check((w >= 0).all() and (w < 1+1e-12).all() and (np.diff(w) >= -1e-12).all(), "centres sorted in [0,1)", lambda: f"{t}: {w}")
    d = w.sum()-z[-1]/(2*np.pi)
    ctx.check(not regular or abs(d-round(d)) < 1e-6, "sum of centres is the Zak phase", lambda: f"{t}: {w.sum()} {z[-1]/2/np.pi}")
    E = np.array([x["E"] for x in calc.kpts])-0.
    up = np.hstack([E[:, 1:].min(0), [np.inf]])
    dn = E.max(0)
    ctx.check(np.allclose(gap[:-1], (up-dn)[:-1], atol=1e-5) and np.isinf(gap[-1]) and np.allclose(cent[:-1], ((up+dn)/2)[:-1], atol=1e-5), "gaps", lambda: f"{t}: {gap} {up-dn}")
    ctx.check(np.allclose(loc[:-1], (E[:, 1:]-E[:, :-1]).min(0), atol=1e-5), "local gaps", t)
    if overlaps:
        for i in range(len(calc.kpts)):
            for j in range(len(calc.kpts)):
                O = bs.kpoints[i].overlap(bs.kpoints[j])
                R = ref_overlap(calc.kpts[i], calc.kpts[j], n, calc.spinor)
                dk = np.abs(np.abs(calc.kpts[i]["k"]-calc.kpts[j]["k"]) % 1-0.5).min()
                if dk > 1e-6:
                    ctx.check(np.abs(O-R).max() < 1e-6, "overlap", lambda: f"{t}: k-points {i} {j}: {np.abs(O-R).max()}")
                ctx.step()
    return w, z


def transform(calc, rot=0, fold=0, gauge=0, disp=None, mix="all", borders=None):
    """the same loop in another representation"""
    kp = []
    rs = np.random.RandomState(17*fold+1)
    for i, x in enumerate(calc.kpts):
        k, g, C, E = x["k"].copy(), x["g"].copy(), x["C"].copy(), x["E"].copy()
        if disp is not None:
            ph = np.exp(-2j*np.pi*((k+g) @ disp))
            C = C*(np.hstack([ph, ph]) if calc.spinor else ph)
        if gauge:
            n = len(C)
            if mix == "all":
                C = unitary(1000*gauge+i, n) @ C
            elif mix == "levels":
                for a, b in zip(borders[i], borders[i][1:]):
                    C[a:b] = unitary(1000*gauge+i+77*a, b-a) @ C[a:b]
            else:
                C = C*np.exp(1j*np.random.RandomState(1000*gauge+i).rand(n)*7)[:, None]
        if fold:
            G = rs.randint(-1, 2, size=3)
            k, g = k+G, g-G
        kp.append(dict(k=k, g=g, C=C, E=E))
    kp = kp[rot:]+kp[:rot]
    return F.Calc(calc.c, kp, calc.spinor, calc.ecut, calc.efermi)


def exact(spec, ctx):
    d = np.array(spec["dir"])
    n, sp = spec["n"], bool(spec["sp"])
    c = X.crystal(1, 2 if n % 2 else 0, 3, n % 3, norb=1)
    k0 = np.array([0.0713, 0.0391, 0.0557])*(n % 3)/2
    ks = [k0+d*i/n for i in range(n)]
    for nb in spec["nb"]:
        # bands live on disjoint lines of plane waves (classes of G modulo the direction)
        cls = {}
        basis = [m for m in itertools.product((-1, 0, 1), repeat=3) if abs(np.cross(m, d)).sum() > 0]
        ecut = F.common_ecut([k+G for k in ks for G in [np.zeros(3)]], c.rec, 60, gap=0.005)
        xs = np.array([(0.137+0.219*j+0.05*n) % 1 for j in range(nb)])
        kp = []
        for i, k in enumerate(ks):
            g, e = P.sphere(k, c.rec, ecut)
            C = np.zeros((nb, len(g)*(1+sp)), complex)
            key = [tuple(np.cross(x, d)) for x in g]
            for j in range(nb):
                line = (0, 0, 0) if j == 0 else None
                if j:
                    ms = sorted({tuple(np.cross(m, d)) for m in basis}, key=lambda q: (sum(abs(v) for v in q), q))
                    line = ms[(j-1) % len(ms)]
                on = np.array([q == line for q in key])
                # centre: n.x must be xs[j]
                r = np.zeros(3); a = np.nonzero(d)[0][0]; r[a] = xs[j]/d[a]
                f = np.exp(-0.05*e)*np.exp(-2j*np.pi*((k+g) @ r))*on
                if sp:
                    th = 0.7*j+0.3
                    C[j, :len(g)] = f*np.cos(th); C[j, len(g):] = f*np.sin(th)*np.exp(0.4j)
                else:
                    C[j] = f
            nrm = np.linalg.norm(C, axis=1)
            ctx.require((nrm > 1e-8).all(), "harness", str(spec))
            C /= nrm[:, None]
            kp.append(dict(k=k, g=g, C=C, E=np.arange(nb)*1.0+0.1*np.cos(i+np.arange(nb))))
        calc = F.Calc(c, kp, sp, ecut, 0.)
        # the phase of every overlap must not be lost
        t = f"{spec['dir']} n={n} sp={sp} nb={nb}"
        want = (-xs) % 1
        w, z = measure(calc, ctx, t, overlaps=True)
        ctx.state(str(spec["dir"]), n, sp, nb)
        ctx.check(sets_equal(w, want), "centres of exactly solvable states", lambda: f"{t}: {w} instead of {want}")
        dz = z/(2*np.pi)-np.cumsum(want)
        ctx.check(np.abs(dz-np.round(dz)).max() < 1e-6, "Zak phases of exactly solvable states", lambda: f"{t}: {z/2/np.pi} instead of {np.cumsum(want)}")
        for rot in range(n):
            for fold in range(spec["fold"] if rot < 2 else 1):
                for gauge in range(spec["gauge"] if rot < 2 else 2):
                    if rot == fold == gauge == 0:
                        continue
                    tt = f"{t} start={rot} fold={fold} gauge={gauge}"
                    mix = "all" if gauge % 2 else "phases"
                    w2, z2 = measure(transform(calc, rot, fold, gauge, mix=mix), ctx, tt, overlaps=gauge == 1 and rot == 0)
                    ctx.state(str(spec["dir"]), n, sp, nb, rot, fold, gauge)
                    ctx.check(sets_equal(w2, want), "centres independent of representation", lambda: f"{tt}: {w2} instead of {want}")
                    dz = (z2-z)/(2*np.pi)
                    dz = dz if mix == "phases" else dz[-1:]
                    ctx.check(np.abs(dz-np.round(dz)).max() < 1e-6, "Zak phases independent of representation", lambda: f"{tt}: {z2} {z}")
        for disp in (np.array([0.11, 0.27, -0.35]), np.array([0.5, 0., 0.25])):
            tt = f"{t} displaced {disp}"
            w2, z2 = measure(transform(calc, 0, 1, 1, disp), ctx, tt)
            ctx.check(sets_equal(w2, want-d @ disp), "centres of displaced crystal", lambda: f"{tt}: {w2} vs {want-d @ disp}")
    ctx.outcome("exact", n)


def model(spec, ctx):
    d = np.array(spec["dir"])
    n, sp = spec["n"], bool(spec["sp"])
    c = X.crystal(spec["sg"], 0, 0, 0, norb=1)
    o = np.argsort(c.typ, kind="stable")
    c.pos, c.typ = c.pos[o], [c.typ[i] for i in o]
    ks = [d*i/n for i in range(n)]
    calc = F.physical_calc(c, ks, sp, 10, npw=30, gauge=0)
    E = np.array([x["E"] for x in calc.kpts])
    full = [m for m in range(1, E.shape[1]) if (E[:, m]-E[:, m-1] > 0.02).all()]
    # an inversion centre at s: x -> -x+2s
    T = next(T for A, T in c.ops if (A == -np.eye(3)).all())
    seen = 0
    for m in full[:4]:
        cm = F.Calc(c, [dict(k=x["k"], g=x["g"], C=x["C"][:m].copy(), E=x["E"][:m].copy()) for x in calc.kpts], sp, calc.ecut, 0.)
        t = f"{spec} bands 1-{m}"
        R = [ref_overlap(cm.kpts[i], cm.kpts[(i+1) % n], m, sp) for i in range(n)]
        good = lambda q: min(np.linalg.svd(r[:q, :q])[1].min() for r in R) > 0.02
        w, z = measure(cm, ctx, t, overlaps=True, regular=good(m))
        ctx.state(spec, m)
        if not good(m):
            ctx.outcome("loop too coarse")
            continue
        seen += 1
        W = np.eye(m)
        for r in R:
            u, s, v = np.linalg.svd(r)
            W = W @ (u @ v)
        ctx.check(sets_equal(w, np.angle(np.linalg.eigvals(W))/2/np.pi, 1e-5), "centres", lambda: f"{t}: {w}")
        # inversion symmetry: the set of centres is symmetric
        ctx.check(sets_equal(w, -w-d @ T, 1e-4), "inversion-symmetric centres", lambda: f"{t}: {w}, centre {d @ T}")
        if n % 2 == 0:
            x = -1
            f = lambda k: np.linalg.det(P.rep(cm.kpts[k]["k"], cm.kpts[k]["g"], cm.kpts[k]["C"], -np.eye(3), T, np.eye(2) if sp else None))
            par = f(0)*f(n//2)
            ph = np.exp(-1j*z[-1])
            ctx.check(abs(ph-par*np.exp(0)) < 1e-4, "Zak phase from parities", lambda: f"{t}: {ph} vs {par}")
        bo = [P.borders(x["E"], 1e-3) for x in cm.kpts]
        for gauge in range(1, 1+spec["gauge"]):
            for rot in (0, 1, n-1):
                tt = f"{t} start={rot} gauge={gauge}"
                w2, z2 = measure(transform(cm, rot, gauge, gauge, mix="levels", borders=bo), ctx, tt)
                ctx.state(spec, m, gauge, rot)
                ctx.check(sets_equal(w2, w, 1e-5), "gauge invariance", lambda: f"{tt}: {w2} vs {w}")
                w3, z3 = measure(transform(cm, rot, gauge, gauge, mix="all"), ctx, tt)
                ctx.check(sets_equal(w3, w, 1e-5), "gauge invariance (mixing)", lambda: f"{tt}: {w3} vs {w}")
                for q in full:
                    if q <= m and good(q):
                        dz = (z2[q-1]-z[q-1])/(2*np.pi)
                        ctx.check(abs(dz-round(dz)) < 1e-5, "Zak gauge invariance", lambda: f"{tt}: {z2} vs {z}")
        disp = np.array([0.21, 0.37, -0.13])
        w2, z2 = measure(transform(cm, 0, 1, 1, disp), ctx, t+" displaced")
        ctx.check(sets_equal(w2, w-d @ disp, 1e-5), "displaced crystal", lambda: f"{t}: {w2} vs {w}")
    ctx.outcome("model", "spinor" if sp else "scalar", "windows", seen)


def run_case(spec, ctx):
    (exact if spec["kind"] == "exact" else model)(spec, ctx)
