"""C06: plane-wave sets, order and cutoffs are exactly those of the calculation."""
import numpy as np
from .core import quiet, raises
from .crystals import *
from . import physics as P
from irrep.gvectors import calc_gvectors, sortIG, twomhbar2
from irrep.readfiles import Hartree_eV

LEVEL = "model_checking"
CELLS = [(1, 0), (2, 3), (5, 2), (5, 6), (16, 0), (22, 0), (23, 7), (38, 1), (75, 0), (79, 3), (143, 0), (143, 2), (146, 0), (146, 6), (195, 0),
         (196, 0), (196, 3), (197, 0), (197, 7)]
KPTS = [(0, 0, 0), (.5, 0, 0), (.5, .5, 0), (.5, .5, .5), (1/3, 1/3, 0), (-1/3, 2/3, .5), (.25, .25, .25), (.11, .27, -.38), (0, 0, .01),
        (1.5, 0, -.5), (-2, 1, 3.25), (2.7, 2.6, -2.8)]
BOUNDS = {"quick": "19 cells x 12 k-points x every cutoff between consecutive shells of the first 40 plane waves (and 3 larger ones) x every smaller "
                   "reduced cutoff of a set x spin; wrong sizes around the right one; order of sortIG for 4 file orders, also with the last shell at the cutoff",
          "thorough": "19 cells x 8 bases x 12 k-points, first 150 plane waves"}
ASSUMPTIONS = ["VASP stores G in the order of a periodic grid, the first index fastest, 0..max,-max..-1 along each direction",
               "the sphere of plane waves is recomputed by exhaustive search in a box that contains it"]
CHUNK = 2


def cases(tier):
    for sg, b in CELLS:
        for ba in ((b,) if tier == "quick" else range(8)):
            for ik in range(len(KPTS)):
                yield dict(kind="order", sg=sg, basis=ba, k=ik, n=40 if tier == "quick" else 150)


def vasp_order(g):
    """positions of the vectors of g on the periodic grid, first index fastest"""
    n = 2*np.abs(g).max(0)+1
    w = g % n
    return np.lexsort((w[:, 0], w[:, 1], w[:, 2]))


def check_set(ctx, ig, g_file, k, rec, ecut, thresh, tag, spinor=False, const=P.TWOMHBAR2):
    """ig: result of the code; g_file: plane waves in the order of the file; ecut: cutoff to apply"""
    e = (((k+g_file) @ rec)**2).sum(1)/const
    want = {tuple(x): i for i, x in enumerate(g_file) if e[i] < ecut}
    got = [tuple(x) for x in ig[:3].T]
    if not ctx.check(sorted(got) == sorted(want), "set", lambda: f"{tag}: missing {sorted(set(want)-set(got))[:5]} extra {sorted(set(got)-set(want))[:5]} duplicated {len(got)-len(set(got))}"):
        return False
    bad = [(x, int(i), want[x]) for x, i in zip(got, ig[3]) if want[x] != i]
    if not ctx.check(not bad, "order", lambda: f"{tag}: G={bad[0][0]} is read from position {bad[0][1]} of the file instead of {bad[0][2]} ({len(bad)} wrong)"):
        return False
    es = np.array([e[want[x]] for x in got])
    ok = np.all(es[1:]-es[:-1] > -1e-9)
    ctx.check(ok, "sorted", lambda: f"{tag}: not in order of energy")
    # every group of equal energies is one shell [first,last)
    w = [0]+[i for i in range(1, len(es)) if es[i]-es[i-1] > thresh]+[len(es)]
    a = np.concatenate([[x]*(y-x) for x, y in zip(w, w[1:])]); b = np.concatenate([[y]*(y-x) for x, y in zip(w, w[1:])])
    near = np.abs(np.diff(es)-thresh).min() < 0.2*thresh if len(es) > 1 else False
    ctx.check(near or (np.array_equal(ig[4], a) and np.array_equal(ig[5], b)), "shells", lambda: f"{tag}: shells {ig[4].tolist()} {ig[5].tolist()} vs {a.tolist()} {b.tolist()}")
    return True


def run_case(spec, ctx):
    c = crystal(spec["sg"], spec["basis"], 0, 1 if spec["sg"] % 2 else 0, norb=1)
    k = np.array(KPTS[spec["k"]], float)
    rec = c.rec
    N = spec["n"]
    emax = P.choose_ecut(k, rec, N+30)
    g, e = P.sphere(k, rec, emax)
    o = np.argsort(e, kind='stable'); g, e = g[o], e[o]
    gaps = [i for i in range(1, len(e)) if e[i]-e[i-1] > 4e-3]
    mids = [0.5*(e[i]+e[i-1]) for i in gaps]
    some = [m for i, m in zip(gaps, mids) if i <= N]+mids[-3:]
    reduced = some[::max(1, len(some)//6)]
    for ec in some:
        gf, _ = P.sphere(k, rec, ec)
        gf = gf[vasp_order(gf)]
        n = len(gf)
        for spinor in (False, True):
            npl = 2*n if spinor else n
            for e1 in [-1, ec]+([x for x in reduced if x < ec] if not spinor or ec == some[-1] else []):
                tag = f"k={k.tolist()} ecut={ec:.4f} reduced={e1:.4f} n={n} spinor={spinor}"
                ig = calc_gvectors(k, rec, ec, npl, e1, spinor=spinor)
                check_set(ctx, ig, gf, k, rec, ec if e1 <= 0 else e1, 1e-3, tag)
                ctx.step(); ctx.trace()
                ctx.state(spec["sg"], spec["basis"], spec["k"], n, int((e < e1).sum()), spinor)
        # sizes that disagree with the file
        for m in sorted({n-2, n-1, n+1, n+2, n//2, (n+1)//2, 2*n}-{n, 0, -1}):
            if m > 0:
                x = raises(calc_gvectors, k, rec, ec, m, spinor=False)
                ctx.check(x is not None, "size", lambda: f"k={k.tolist()} ecut={ec:.4f}: {m} plane waves in the file accepted although the sphere has {n}")
                x = raises(calc_gvectors, k, rec, ec, 2*m, spinor=True)
                ctx.check(x is not None, "size", lambda: f"k={k.tolist()} ecut={ec:.4f}: 2*{m} plane waves in the file accepted although the sphere has {n}")
                ctx.step(2)
        # search without knowledge of the number of plane waves, limited only by the number of L1 shells
        lim = int(np.abs(gf).sum(1).max())+1
        ig = calc_gvectors(k, rec, ec, spinor=False, nplanemax=lim)
        check_set(ctx, ig, gf, k, rec, ec, 1e-3, f"unlimited k={k.tolist()} ecut={ec:.4f}")
    # sortIG: the file gives G explicitly, in any order
    recb = rec*np.sqrt(2/P.TWOMHBAR2/Hartree_eV)      # so that Hartree/2 |k+G|^2 is the energy in eV used by sortIG
    for ec in some[-4:]+some[:2]:
        gf, ef = P.sphere(k, rec, ec)
        n = len(gf)
        rs = np.random.RandomState(3)
        orders = [np.arange(n), vasp_order(gf), np.argsort(ef, kind='stable')[::-1], rs.permutation(n)]
        for io, od in enumerate(orders):
            gk = gf[od]
            for spinor in (False, True):
                nb = 2
                CG = np.arange(nb)[:, None]*1000+np.arange(n*(1+spinor))[None, :]+0j
                for e1 in [ec]+[x for x in reduced if x < ec]:
                    for big in (1.0, 3.0):
                        W, ig = sortIG(0, gk.copy(), k, CG.copy(), recb, ec*big, e1 if e1 < ec else ec*big, spinor)
                        tag = f"sortIG k={k.tolist()} ecut={ec:.4f} reduced={e1:.4f} order {io} spinor={spinor}"
                        pos = {tuple(x): i for i, x in enumerate(gk)}
                        ig2 = ig.copy(); ig2[3] = [pos.get(tuple(x), -1) for x in ig[:3].T]
                        if check_set(ctx, ig2, gk, k, rec, e1, 1e-4, tag):
                            sel = ig2[3]
                            want = CG[:, np.r_[sel, sel+n] if spinor else sel]
                            ctx.check(W.shape == want.shape and np.array_equal(W, want), "coefficients", lambda: f"{tag}: coefficients do not follow their plane waves")
                        ctx.step()
                # the last shell at the cutoff: nothing in the file is above it, up to rounding
                top = Hartree_eV/2*max((((gk+k) @ recb)**2).sum(1))
                for f in (1-2e-10, 1-2e-16, 1, 1+2e-16, 1+2e-10) if top > 1e-3 else ():
                    tag = f"sortIG k={k.tolist()} cutoff at the last shell x {f} order {io} spinor={spinor}"
                    W, ig = sortIG(0, gk.copy(), k, CG.copy(), recb, top*f, top*f, spinor)
                    pos = {tuple(x): i for i, x in enumerate(gk)}
                    ctx.check(ig.shape == (6, n) and sorted(map(tuple, ig[:3].T)) == sorted(pos), "last shell", lambda: f"{tag}: {ig.shape[1]} of {n} plane waves")
                    if ig.shape[1] == n:
                        sel = [pos[tuple(x)] for x in ig[:3].T]
                        ctx.check(np.array_equal(W, CG[:, np.r_[sel, np.array(sel)+n] if spinor else sel]), "coefficients", tag)
                    ctx.step()
                x = raises(sortIG, 0, gk.copy(), k, CG.copy(), recb, max(ef)*0.98, max(ef)*0.98, spinor)
                ctx.check(x is not None, "cutoff-disagrees", f"plane wave of {max(ef):.3f} eV accepted in a file with cutoff {max(ef)*0.98:.3f} eV")
    ctx.outcome(f"{len(some)} cutoffs")
