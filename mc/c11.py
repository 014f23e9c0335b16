"""C11 separation: every sequence of separating symmetries up to a depth is applied to the bands of every crystal; at
every node of that tree the subspaces are compared with an independent application of the operators."""
import numpy as np
from . import crystals as X, physics as P, formats as F, tables
from .core import quiet, chdir, memo_spacegroup, canon

LEVEL = "model_checking"
CHUNK = 1
SGS = [2, 5, 10, 14, 19, 31, 47, 62, 72, 81, 88, 92, 99, 122, 136, 143, 147, 152, 166, 174, 176, 186, 194, 198, 205, 216, 220, 221, 230]
SETS = [(0, 0, 0), (2, 3, 1), (1, 1, 2), (3, 4, 1), (6, 2, 3), (4, 5, 0)]
BOUNDS = {"quick": "29 space groups x spin x grouping mode x up to 3 lists of k-points (tabulated points, pairs with Gamma, symmetry lines) x "
                   "all separating symmetries, all ordered pairs of up to 5 of them that leave the subspaces invariant",
          "thorough": "230 space groups x spin x grouping mode x up to 6 lists; all ordered pairs of up to 10 symmetries, all triples of up to 4"}
ASSUMPTIONS = ["Bloch states are eigenstates of model Hamiltonians with the symmetry of the crystal", "the last level is complete"]
THOROUGH_BUDGET = 3*3600


def cases(tier):
    sgs = SGS if tier == "quick" else range(1, 231)
    out = []
    for i, sg in enumerate(sgs):
        for sp in (0, 1):
            out.append(dict(sg=sg, sp=sp, set=(i+sp) % 6 if tier == "quick" else (sg+sp) % 6, full=int(tier != "quick")))
    return out


def snapshot(bs, names=None):
    """public state of a band structure; restricted to `names` (a value cached on the way is not a change of the original)"""
    mine = {}

    def state(tag, o, skip):
        keep = names.get(tag, ()) if names is not None else {n for n in vars(o) if not n.startswith("_") and n not in skip}
        mine[tag] = keep
        return {n: (v.copy() if isinstance(v, np.ndarray) else v) for n, v in sorted(vars(o).items()) if n in keep}

    out = []
    for i, kp in enumerate(bs.kpoints):
        out.append(state(i, kp, ("little_group",)))
        out.append([s.ind for s in kp.little_group])
    out.append(state("bs", bs, ("kpoints", "spacegroup")))
    out.append([id(k) for k in bs.kpoints])
    return canon(out), mine


class Ref:
    """operators acting on the plane waves of one k-point, written down independently of the package"""

    def __init__(self, bs):
        self.sp = bs.spinor
        self.ops = {s.ind: (np.array(s.rotation, float), np.array(s.translation, float), np.array(s.spinor_rotation) if bs.spinor else None) for s in bs.spacegroup.symmetries}

    def act(self, kp, ind, C):
        A, T, S = self.ops[ind]
        return P.apply_op(np.array(kp.k, float), kp.ig[:3].T, C, A, T, S)

    def invariant(self, bs, ind):
        for kp in bs.kpoints:
            D = self.act(kp, ind, kp.WF)
            if D is None:
                return False
            M = kp.WF.conj() @ D.T
            if np.abs(M @ M.conj().T-np.eye(len(M))).max() > 1e-4:
                return False
        return True


def check_tree(ctx, ref, orig, parent, seq, gk, ops, depth, spec, done):
    for ind in ops:
        if not ref.invariant(parent, ind):
            ctx.outcome("not invariant")
            continue
        before, names = snapshot(parent)
        with quiet():
            sub = parent.Separate(ind, degen_thresh=1e-4, groupKramers=gk)
        s2 = seq+(ind,)
        t = f"{spec} grouped={gk} sequence {s2}"
        ctx.state(canon(spec), gk, s2, canon([len(orig.kpoints), [list(np.round(k.k, 4)) for k in orig.kpoints], [round(complex(x).real, 3) for x in done]]))
        ctx.step()
        ctx.check(snapshot(parent, names)[0] == before, "original changed", t)
        check_partition(ctx, ref, orig, parent, sub, s2, gk, t)
        ctx.outcome("subspaces", len(sub), "depth", len(s2))
        if depth > 1:
            for w, child in sub.items():
                if child is not parent or len(seq) == 0:
                    check_tree(ctx, ref, orig, child, s2, gk, ops, depth-1, spec, done+(w,))


def check_partition(ctx, ref, orig, parent, sub, seq, gk, t):
    ind = seq[-1]
    used = 0
    for pk in parent.kpoints:
        mine = [(w, kp) for w, s in sub.items() for kp in s.kpoints if kp.ik0 == pk.ik0]
        used += len(mine)
        tk = f"{t} k={pk.k}"
        ctx.require(len(mine) > 0 and sum(kp.num_bands for w, kp in mine) == pk.num_bands, "number of states", lambda: f"{tk}: {[(w, kp.num_bands) for w, kp in mine]} of {pk.num_bands}")
        C = np.vstack([kp.WF for w, kp in mine])
        ctx.check(np.abs(C.conj() @ C.T-np.eye(len(C))).max() < 1e-5, "orthonormal", lambda: f"{tk}: {np.abs(C.conj() @ C.T-np.eye(len(C))).max()}")
        pr = C @ pk.WF.conj().T
        ctx.check(np.abs(pr @ pr.conj().T-np.eye(len(C))).max() < 1e-5, "span", tk)
        ok = next(k for k in orig.kpoints if k.ik0 == pk.ik0)
        vals = []
        for w, kp in mine:
            tw = f"{tk} eigenvalue {w}"
            n = kp.num_bands
            ctx.require(kp.WF.shape[0] == n and len(kp.Energy_mean) == sum(kp.degeneracies if kp is ok else [1]*n) or kp is ok, "lengths", tw)
            D = ref.act(kp, ind, kp.WF)
            M = kp.WF.conj() @ D.T
            ev = np.linalg.eigvals(M)
            vals.append((w, ev))
            if gk:
                ctx.check(np.abs(ev.real-complex(w).real).max() < 0.06 and abs(complex(w).imag) < 1e-9, "eigenvalue", lambda: f"{tw}: {ev}")
                x = ev.real.mean()
                ctx.check(np.abs(ev.real-x).max() < 0.06, "one value", lambda: f"{tw}: {ev}")
                D2 = ref.act(kp, ind, D)
                if np.abs(ev.real-x).max() < 1e-4:
                    ctx.check(np.abs(D2-2*x*D+kp.WF).max() < 1e-3, "eigenstates", tw)
            else:
                ctx.check(np.abs(ev-w).max() < 0.06, "eigenvalue", lambda: f"{tw}: {ev}")
                ctx.check(np.abs(ev-ev.mean()).max() < 1e-3, "one value", lambda: f"{tw}: {ev}")
                ctx.check(np.abs(D-ev.mean()*kp.WF).max() < 1e-3, "eigenstates", tw)
            # earlier separations survive
            for j in seq[:-1]:
                Mj = np.linalg.eigvals(kp.WF.conj() @ ref.act(kp, j, kp.WF).T)
                q = Mj.real if gk else Mj
                ctx.check(np.abs(q-q.mean()).max() < (0.06 if gk else 1e-3), "earlier separation", lambda: f"{tw} by {j}: {Mj}")
            # energies and labels of the levels of the original calculation
            E = np.repeat(kp.Energy_mean, kp.degeneracies) if len(kp.Energy_mean) == len(kp.degeneracies) else kp.Energy_mean
            ctx.require(len(E) == n, "energies", tw)
            ctx.check((np.diff(E) >= -1e-9).all(), "order of energies", lambda: f"{tw}: {E}")
            lab = np.repeat(np.arange(len(kp.degeneracies)), kp.degeneracies)
            for i in range(n):
                lv = int(np.argmin(np.abs(np.array(ok.Energy_mean)-E[i])))
                ctx.check(abs(ok.Energy_mean[lv]-E[i]) < 1e-6, "energy", lambda: f"{tw} state {i}: {E[i]} not in {ok.Energy_mean}")
                W = ok.WF[ok.borders[lv]:ok.borders[lv+1]]
                ctx.check(abs((np.abs(W.conj() @ kp.WF[i])**2).sum()-1) < 1e-4, "state of level", lambda: f"{tw} state {i} with energy {E[i]}")
                ctx.check(np.abs(kp.char[lab[i]]-ok.char[lv]).max() < 1e-9 and np.abs(kp.char_refUC[lab[i]]-ok.char_refUC[lv]).max() < 1e-9, "characters of level", tw)
                if hasattr(ok, "irreps"):
                    ctx.require(len(kp.irreps) == len(kp.degeneracies), "irreps", tw)
                    ctx.check(kp.irreps[lab[i]] == ok.irreps[lv], "irreps of level", lambda: f"{tw} state {i}: {kp.irreps[lab[i]]} vs {ok.irreps[lv]}")
            ctx.check(np.abs(np.array(kp.k)-ok.k).max() < 1e-12 and kp.NG == ok.NG, "k-point", tw)
            u, v = kp.upper, ok.upper
            ctx.check(u == v or (np.isnan(u) and np.isnan(v)), "next band", tw)
        for i, (w, e) in enumerate(vals):
            for w2, e2 in vals[:i]:
                d = abs(e.real.mean()-e2.real.mean()) if gk else abs(e.mean()-e2.mean())
                ctx.check(d > 0.03, "one subspace per value", lambda: f"{tk}: {w} {w2}")
    ctx.check(used == sum(len(s.kpoints) for s in sub.values()), "k-points of subspaces", t)
    order = [k.ik0 for k in parent.kpoints]
    for w, s in sub.items():
        o = [order.index(k.ik0) for k in s.kpoints]
        ctx.check(o == sorted(set(o)), "order of k-points", t)
    ks = list(sub)
    for i in range(len(ks)):
        for j in range(i):
            ctx.check(abs(ks[i]-ks[j]) > 0.03, "distinct eigenvalues", lambda: f"{t}: {ks}")
    with quiet():
        for w, s in sub.items():
            if hasattr(orig.kpoints[0], "irreps"):
                s.write_characters()
                js = s.json()
                ctx.check(len(js["k points"]) == len(s.kpoints), "json", t)


def run_case(spec, ctx):
    from irrep.bandstructure import BandStructure
    b, o, r = SETS[spec["set"]]
    sp = bool(spec["sp"])
    nops = len(X.coset_ops(spec["sg"]))
    c = X.crystal(spec["sg"], b, o, r, norb=2 if nops < 24 else 1)
    order = np.argsort(c.typ, kind="stable")
    c.pos, c.typ = c.pos[order], [c.typ[i] for i in order]
    from irrep.spacegroup import SpaceGroup
    with quiet():
        S0 = SpaceGroup((c.lattice, c.pos, c.typ), spinor=False, search_cell=True)
    inv = np.linalg.inv(np.array(S0.refUC, float))
    tk = tables.table(spec["sg"], sp).kpoints
    pts = [(t["name"], tables.snap(t["k"]) @ inv) for t in tk]
    g = pts[0]
    oth = pts[1:] if spec["full"] else [pts[(7*spec["sg"]+3) % (len(pts)-1)+1]] if len(pts) > 1 else []
    lists = [([g[0]], [g[1]])]
    for j, p in enumerate(oth[:5]):
        if j % 2 == 0:
            lists.append(([g[0], p[0]], [g[1], p[1]+np.array([1, 0, -1])*(spec["sg"] % 2)]))
        if j % 2 == 1 or len(oth) == 1:
            lists.append((None, [0.2*p[1], 0.37*p[1], p[1]]))
    if len(pts) > 2 and not spec["full"]:
        p = pts[(3*spec["sg"]) % (len(pts)-2)+2]
        lists.append(([p[0]], [p[1]]))
    for il, (names, ks) in enumerate(lists):
        calc = F.physical_calc(c, ks, sp, 10**6, npw=26, gauge=1, efermi=0.)
        for x in calc.kpts:
            E = x["E"]
            n = next(n for n in range(8 if not sp else 12, len(E)) if E[n]-E[n-1] > 1e-2) if len(E) > 13 else next(n for n in range(len(E)-1, 0, -1) if E[n]-E[n-1] > 1e-3)
            x["E"], x["C"] = E[:n].copy(), x["C"][:n].copy()
        d = ctx.tmpdir()
        kw = F.write(calc, "abinit", d)
        with chdir(d), quiet(), memo_spacegroup():
            bs = BandStructure(calculate_traces=True, search_cell=True, degen_thresh=1e-4, **kw)
            if il != 2 or names is not None:
                bs.identify_irreps(names)
        ctx.trace()
        ref = Ref(bs)
        common = sorted(set.intersection(*[{s.ind for s in kp.little_group} for kp in bs.kpoints]))
        nontriv = [i for i in common if i != 1]
        stride = max(1, len(nontriv)//(10 if spec["full"] else 5))
        some = nontriv[::stride][:10 if spec["full"] else 5]
        few = nontriv[::max(1, len(nontriv)//4)][:4]
        for gk in (True, False):
            check_tree(ctx, ref, bs, bs, (), gk, common, 1, spec, ())
            check_tree(ctx, ref, bs, bs, (), gk, some, 2, spec, ())
            if spec["full"]:
                check_tree(ctx, ref, bs, bs, (), gk, few, 3, spec, ())
        ctx.outcome("list", il, "common", len(common))
