"""C15 outputs: everything a run prints and writes is read back and compared with the values computed, for every
combination of crystal, spin, labels, cell search, selected operations, bands, separation and plots."""
import re
import numpy as np
from . import crystals as X, physics as P, formats as F, tables, outputs as O
from .core import quiet, chdir, memo_spacegroup

LEVEL = "model_checking"
CHUNK = 1
SGS = [1, 2, 4, 5, 9, 14, 19, 31, 43, 47, 62, 72, 81, 88, 92, 99, 106, 122, 136, 143, 147, 152, 160, 166, 174, 176, 178, 186, 194, 198, 205, 216, 220, 221, 227, 230]
SETS = [(0, 0, 0), (2, 3, 1), (1, 1, 2), (3, 4, 1), (6, 2, 3), (4, 5, 0), (0, 2, 0), (0, 1, 1)]
BOUNDS = {"quick": "36 space groups x spin x 2 of 8 settings of basis, origin, orientation; for each: all 12 combinations of {labels, cell search only, neither} x {all, selected operations} x {all bands, window of bands, window that cuts a level}, and every separating "
                   "symmetry of up to 2 of the list with plots; text, trace.txt, irrep-output.json, irreps.dat, bands-*.dat, irreptable-template and .sym read back value by value; paths with every word of 3 steps around the limit of a break",
          "thorough": "230 space groups x spin x 4 settings, every separating symmetry of up to 6"}
ASSUMPTIONS = ["Bloch states of model Hamiltonians with the symmetry of the crystal, written in the format of VASP",
               "after a separation, traces, parities and labels of a subspace are those of the levels it was taken from (as in the reference outputs of the repository)"]
THOROUGH_BUDGET = 3*3600


def cases(tier):
    out = [dict(line=i) for i in range(LINES)]
    for i, sg in enumerate(SGS if tier == "quick" else range(1, 231)):
        for sp in (0, 1):
            if tier == "quick":
                out += [dict(sg=sg, sp=sp, set=s, full=0) for s in ((i+sp) % 6, 6+(i+i//2+sp) % 2)]
            else:
                out += [dict(sg=sg, sp=sp, set=s, full=1) for s in ((sg+sp) % 3, 3+(sg+2*sp) % 3, 6, 7)]
    return out


LINES = 3


def run_line(spec, ctx):
    """length along the path, every word of steps, in the object, the JSON data and the plot file"""
    import itertools
    from irrep.bandstructure import BandStructure
    c = X.crystal(1, (0, 2, 5)[spec["line"]], 0, spec["line"])
    order = np.argsort(c.typ, kind="stable")
    c.pos, c.typ = c.pos[order], [c.typ[i] for i in order]
    B = c.rec
    dirs = [np.array([.6, -.8, 0.]), np.array([0., .28, .96]), np.array([-.5, .5, 2**-.5])]
    d = ctx.tmpdir()
    for word in itertools.product((0., .02, .06, .097, .103, .7), repeat=3):
        k = [np.array([.1, -.2, .3])]
        for w, v in zip(word, dirs):
            k.append(k[-1]+w*v @ np.linalg.inv(B))
        calc = F.random_calc(c, k, False, 3, ecut=25., seed=3)
        kw = F.write(calc, "abinit", d)
        with chdir(d), quiet(), memo_spacegroup():
            bs = BandStructure(calculate_traces=True, degen_thresh=1e-6, **kw)
            bs.identify_irreps(None)
            js = bs.json()
            bs.write_plotfile(filename="line.dat")
        want = np.cumsum([0.]+[w if w <= .1 else 0. for w in word])
        t = f"{spec} steps {word}"
        ctx.state(spec, word); ctx.trace(); ctx.step()
        ctx.check(near(bs.KPOINTSline(), want, 1e-7) and near(js["kpoints line"], want, 1e-7) and near([q["kp in line"] for q in js["k points"]], want, 1e-7), "k-points line", lambda: f"{t}: {bs.KPOINTSline()} {want}")
        bl = O.parse_plot(open(d+"/line.dat").read())
        ctx.check(len(bl) == 3 and all(near([r[0] for r in b], want, 6e-5) and near([r[1] for r in b], [x["E"][i] for x in calc.kpts], 6e-5) for i, b in enumerate(bl)), "plot file of a path", lambda: f"{t}: {bl}")
    ctx.outcome("line")


def near(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (np.abs(a-b) <= tol).all()


def mod1(a, b, tol):
    d = np.asarray(a)-np.asarray(b)
    return (np.abs(d-np.round(d)) <= tol).all()


def check_group(ctx, r, S, sel, t):
    """text, JSON, template against the space group object"""
    h = O.parse_head(r.out)
    ops = O.parse_ops(r.out)
    js = O.parse_json(r.files["irrep-output.json"])["spacegroup"]
    syms = {s.ind: s for s in S.symmetries}
    ref, sh = np.array(S.refUC, float), np.array(S.shiftUC, float)
    inv = np.linalg.inv(ref)
    ctx.check(h["name"] == S.name == js["name"] and h["number"] == S.number == js["number"], "group", f"{t} {h}")
    ctx.check(h["nsym"] == len(syms) == js["num symmetries"], "number of operations", t)
    ctx.check(js["spinor"] == S.spinor, "spinor", t)
    ctx.check(near(h["lattice"], S.Lattice, 6e-5) and near(h["reflattice"], ref.T @ S.Lattice, 6e-5), "lattice", t)
    ctx.check(near(h["refUC"], ref.T, 6e-5) and near(h["shiftUC"], sh, 6e-6), "refUC", lambda: f"{t} {h['refUC']} {h['shiftUC']}")
    ctx.check(len(h["atoms"]) == len(S.positions) and all(a == b and near(p, q, 6e-5) and near(np.array(w) @ ref.T, np.array(p)-sh, 6e-4)
                                                           for (a, p, w), b, q in zip(h["atoms"], S.typat, S.positions)), "atoms", t)
    match = np.allclose(ref, np.eye(3)) and np.allclose(sh, 0)
    ctx.check(js["cells match"] == match, "cells match", t)
    want = sorted(i for i in syms if sel is None or i in sel)
    ctx.check(sorted(ops) == want, "operations printed", lambda: f"{t}: {sorted(ops)} instead of {want}")
    ctx.check(sorted(int(i) for i in js["symmetries"]) == want, "operations in json", lambda: f"{t}: {list(js['symmetries'])} instead of {want}")
    for i in want:
        s = syms[i]
        tt = f"{t} operation {i}"
        R = np.array(s.rotation)
        Rr = inv @ R @ ref
        Tr = inv @ (np.array(s.translation)+R @ sh-sh)
        Rk = np.linalg.inv(R).T
        if i in ops:
            o = ops[i]
            ctx.check(near(o["R"], R, 0), "rotation printed", tt)
            ctx.check(mod1(o["t"], s.translation, 6e-5), "translation printed", tt)
            ctx.check(o["gk"].shape == (3, 3) and near(o["gk"], Rk, 1e-9), "gk printed", lambda: f"{tt} {o['gk'].tolist()} {Rk.tolist()}")
            if S.spinor:
                ctx.check(near(o["S"], s.spinor_rotation, 6e-4*1.5), "spin rotation printed", tt)
            ctx.check(o["inversion"] == bool(s.inversion) == (np.linalg.det(R) < 0) and o["angle"] == s.angle_str.strip(), "type printed", tt)
            ctx.check(near(o["axis"], s.axis, 2e-6), "axis printed", lambda: f"{tt} {o['axis']} {s.axis}")
            if not match:
                ctx.check("Rref" in o and near(o["Rref"], Rr, 1e-5) and near(o["gkref"], np.linalg.inv(Rr).T, 1e-5), "rotation in reference cell printed", tt)
                ctx.check("tref" in o and mod1(o["tref"], Tr, 6e-5), "translation in reference cell printed", tt)
                if S.spinor:
                    ctx.check(near(o["Sref"], s.sign*s.spinor_rotation, 6e-4*1.5), "spin rotation in reference cell printed", tt)
        j = js["symmetries"].get(str(i)) or js["symmetries"].get(i)
        if j:
            ctx.check(near(j["rotation matrix"], R, 0) and near(j["translation"], s.translation, 1e-12), "operation in json", tt)
            ctx.check(near(j["rotation matrix refUC"], Rr, 1e-5) and mod1(j["translation refUC"], Tr, 1e-5), "operation of reference cell in json", tt)
            ctx.check(near(j["axis"], s.axis, 1e-12) and j["angle str"] == s.angle_str and abs(j["angle pi"]-s.angle/np.pi) < 1e-12 and j["inversion"] == bool(s.inversion) and j["sign"] == s.sign,
                      "type in json", tt)
    # template: a table the package reads
    from irreptables import IrrepTable
    with open("tpl", "w") as f:
        f.write(r.files["irreptable-template"])
    with quiet():
        tab = IrrepTable(S.number, S.spinor, name="tpl")
    mine = tables.read("tpl")
    ctx.check(tab.name == S.name and tab.nsym == len(syms) == len(tab.symmetries) == len(mine.ops), "template", t)
    for i, (s, o, m) in enumerate(zip(S.symmetries, tab.symmetries, mine.ops)):
        R = np.array(s.rotation)
        Rr, Tr = inv @ R @ ref, inv @ (np.array(s.translation)+R @ sh-sh)
        ctx.check(near(o.R, Rr, 1e-5) and near(m[0], Rr, 1e-5) and mod1(o.t, Tr, 1e-5), "operation of template", lambda: f"{t} operation {i+1}: {o.R.tolist()} {o.t}")
        if S.spinor:
            ctx.check(min(np.abs(o.S-s.spinor_rotation).max(), np.abs(o.S+s.spinor_rotation).max()) < 1e-4, "spin rotation of template", lambda: f"{t} operation {i+1}")
    ctx.step(len(want))


def check_states(ctx, out_block, js, trace, bs, ref_levels, calc, names, ib, t, sub=False):
    """one set of bands: text block, JSON, trace.txt against the computed object and the independent levels"""
    rec = np.array(bs.RecLattice)
    kl = [0.]
    for a, b in zip(bs.kpoints, bs.kpoints[1:]):
        dist = np.linalg.norm((np.array(b.k)-np.array(a.k)) @ rec)
        kl.append(kl[-1]+(dist if dist <= 0.1 else 0))
    ctx.check(near(js["kpoints line"], kl, 1e-9), "k-points line", lambda: f"{t}: {js['kpoints line']} {kl}")
    n = len(bs.kpoints)
    ctx.require(len(out_block["kpoints"]) == n == len(js["k points"]) and (trace is None or len(trace["kpoints"]) == n), "number of k-points",
                lambda: f"{t}: {len(out_block['kpoints'])} {n} {len(js['k points'])}")
    ups, tops, odd = [], [], 0
    for i, kp in enumerate(bs.kpoints):
        o, j = out_block["kpoints"][i], js["k points"][i]
        tk = f"{t} k-point {kp.ik0}"
        ctx.check(o["ik"] == kp.ik0 and near(o["k"], kp.k, 6e-6), "k-point printed", lambda: f"{tk}: {o['ik']} {o['k']}")
        ctx.check(near(o["kref"], kp.k_refUC, 6e-6), "k-point in reference cell printed", tk)
        ctx.check(abs(j["kp in line"]-kl[i]) < 1e-9 and j["kpname"] == (names[i] if names else None), "name of k-point", lambda: f"{tk}: {j['kpname']} {names}")
        ind = [s.ind for s in kp.little_group]
        ctx.check(o["sym"] == ind == list(j["symmetries"]) and (trace is None or (trace["kpoints"][i]["sym"] == ind and trace["kpoints"][i]["n"] == len(ind))), "little group", tk)
        ctx.check(o["n"] == kp.num_bands == sum(kp.degeneracies) == sum(l["deg"] for l in o["levels"]), "number of states", tk)
        ctx.check(list(j["dimensions"]) == list(kp.degeneracies) == [l["deg"] for l in o["levels"]], "degeneracies", lambda: f"{tk}: {j['dimensions']} {[l['deg'] for l in o['levels']]}")
        L = ref_levels(kp)
        ctx.require(len(L) == len(o["levels"]) == len(j["energies_mean"]) == len(j["characters"]) == len(j["characters refUC"]), "number of levels",
                    lambda: f"{tk}: {len(L)} {len(o['levels'])} {len(j['energies_mean'])}")
        ctx.check(len(j["energies_raw"]) == kp.num_bands and near(j["energies_raw"], [x for l in L for x in l["raw"]], 1e-6), "energies of states in json", tk)
        irr = j["irreps"]
        lab = [O.parse_irr(l["irr"]) for l in o["levels"]]
        if names is None:
            ctx.check(irr is None and lab == [None]*len(L), "labels without tables", tk)
        else:
            ctx.require(irr is not None and len(irr) == len(L), "labels", tk)
        tr = None if trace is None else trace["kpoints"][i]
        first = 1
        for m, l in enumerate(L):
            tl = f"{tk} level {m+1}"
            q = o["levels"][m]
            ctx.check(abs(q["E"]-l["E"]) < 6e-5 and abs(j["energies_mean"][m]-l["E"]) < 1e-6, "energy", lambda: f"{tl}: {q['E']} {j['energies_mean'][m]} expected {l['E']}")
            ctx.check(l["deg"] == kp.degeneracies[m], "degeneracy", tl)
            ch = np.array(l["ch"])
            # columns are printed complex when any of the k-point is
            ctx.check(len(q["ch"]) == len(ind) == len(ch) == len(j["characters"][m]), "number of traces", tl)
            ctx.check(near(q["ch"], ch, 2e-4) and near(j["characters"][m], ch, 1e-4), "trace", lambda: f"{tl}: printed {q['ch']} json {j['characters'][m]} expected {ch}")
            cr = np.array(l["chref"])
            ctx.check(near(q["chref"], cr, 2e-4) and near(j["characters refUC"][m], cr, 1e-4), "trace in reference cell",
                      lambda: f"{tl}: printed {q['chref']} json {np.array(j['characters refUC'][m]).tolist()} expected {cr.tolist()}")
            if tr is not None:
                w = tr["levels"][m]
                ctx.check(w["ib"] == first and w["deg"] == l["deg"] and abs(w["E"]-l["E"]) < 6e-5 and near(w["ch"], ch, 1e-4), "trace.txt", lambda: f"{tl}: {w}")
            first += l["deg"]
            if names is not None:
                want = {a: complex(*b) for a, b in irr[m].items()}
                got = lab[m]
                comp = {a: complex(b) for a, b in kp.irreps[m].items()}
                ctx.check(got is not None and set(got) == set(want) == set(comp) and all(abs(got[a]-want[a]) < 2e-4 and abs(comp[a]-want[a]) < 1e-9 for a in want), "labels",
                          lambda: f"{tl}: printed {got} json {want} computed {comp}")
            ctx.step()
        ctx.check(j["characters refUC is the same"] == bool(np.abs(np.array(j["characters"])-np.array(j["characters refUC"])).max() <= 1e-4), "characters refUC is the same", tk)
        # gap to the next band, parity
        top = L[-1]["E"]
        tops.append(top)
        up = calc.upper(kp)
        ups.append(np.nan if up is None else up)
        ctx.check((o["gap"] is None) == (up is None) and (up is None or abs(o["gap"]-(up-top)) < 1e-6), "gap printed", lambda: f"{tk}: {o['gap']} {up} {top}")
        invs = [s for s in kp.little_group if near(np.array(s.rotation), -np.eye(3), 0)]
        ctx.check(o["inv"] == bool(invs), "inversion printed", tk)
        if invs:
            ctx.check(o["odd"] == (int(kp.num_bandinvs/2) if bs.spinor else kp.num_bandinvs), "parity printed", tk)
            odd += kp.num_bandinvs
    ctx.check(out_block["odd"] == (int(odd/2) if bs.spinor else odd) and out_block["pairs"] == bool(bs.spinor), "total parity printed", t)
    ctx.check(out_block["z2"] == int(odd/2) % 2 and out_block["z4"] == int(odd/2) % 4, "Z2, Z4 printed", lambda: f"{t} {out_block} {odd}")
    if bs.spinor:
        ctx.check(js["number of inversion-odd Kramers pairs"] == int(odd/2) and [int(x) for x in np.ravel(js["Z4"])] == [int(odd/2) % 4], "parity in json", t)
    else:
        ctx.check(js["number of inversion-odd states"] == odd, "parity in json", t)
    direct = np.array(ups)-np.array(tops)
    for key, a, b, w in (("direct gap", out_block["direct"], js["Minimal direct gap (eV)"], np.inf if np.isnan(direct).any() else direct.min()),
                         ("indirect gap", out_block["indirect"], js["indirect gap (eV)"], np.inf if np.isnan(direct).any() else min(ups)-max(tops))):
        a, b = float(a), float(b) if b is not None else np.nan
        if np.isfinite(w):
            ctx.check(abs(a-w) < 1e-6 and abs(b-w) < 1e-6, key, lambda: f"{t}: printed {a} json {b} expected {w}")
        else:
            ctx.check(not np.isfinite(a) and not np.isfinite(b), key, lambda: f"{t}: printed {a} json {b} without a band above")


def check_trace_head(ctx, trace, bs, t):
    S = bs.spacegroup
    ctx.check(trace["nb"] == bs.kpoints[0].num_bands and trace["soc"] == int(S.spinor) and trace["nsym"] == len(S.symmetries) and not trace["rest"], "header of trace.txt", t)
    for s, (R, T, U) in zip(S.symmetries, trace["ops"]):
        ctx.check(near(R, s.rotation, 0) and near(T, s.translation, 1e-6) and (U is None and not S.spinor or U is not None and near(U, s.spinor_rotation, 1.5e-6)), "operation in trace.txt",
                  lambda: f"{t} operation {s.ind}: {R.tolist()} {T}")
    ctx.check(all(near(a["k"], b.k, 1e-6) for a, b in zip(trace["kpoints"], bs.kpoints)), "k-points in trace.txt", t)


class View:
    """reference for a window of bands of a calculation: energies from the input, traces computed independently"""

    def __init__(self, calc, S, ef, b0, b1, thresh=1e-4, ecut=None):
        self.calc, self.S, self.ef, self.b0, self.b1 = calc, S, ef, b0, b1
        self.thresh, self.ecut = thresh, ecut
        self.cache = {}

    def upper(self, kp):
        E = self.calc.kpts[kp.ik0-1]["E"]
        return E[self.b1]-self.ef if self.b1 < len(E) else None

    def levels(self, kp):
        if kp.ik0 in self.cache:
            return self.cache[kp.ik0]
        x = self.calc.kpts[kp.ik0-1]
        E, C = x["E"][self.b0:self.b1], x["C"][self.b0:self.b1]
        b = P.borders(E, self.thresh)
        sp, S = self.calc.spinor, self.S
        g = x["g"]
        if self.ecut is not None:
            keep = (((x["k"]+g) @ self.calc.rec)**2).sum(1)/P.TWOMHBAR2 < self.ecut
            C = C[:, np.r_[keep, keep] if sp else keep]
            C = C/np.linalg.norm(C, axis=1)[:, None]
            g = g[keep]
        T, Tr = [], []
        ref, sh = np.array(S.refUC, float), np.array(S.shiftUC, float)
        inv = np.linalg.inv(ref)
        tops = tables.table(S.number, sp).ops
        match = True             # operations are those of the tables in the reference cell
        for s in S.symmetries:
            A = ref @ tops[s.ind-1][0] @ inv
            dt = ref @ tops[s.ind-1][1]+sh-A @ sh-np.array(s.translation)
            match = match and near(A, np.array(s.rotation), 1e-4) and near(dt, np.round(dt), 1e-4)
        for s in kp.little_group:
            M = P.rep(np.array(x["k"]), g, C, np.array(s.rotation), np.array(s.translation), s.spinor_rotation if sp else None)
            tr = np.array([np.trace(M[i:j, i:j]) for i, j in zip(b, b[1:])])
            T.append(tr)
            if not match or np.allclose(ref, np.eye(3)) and np.allclose(sh, 0):
                Tr.append(tr*(s.sign if sp else 1))
            else:
                R2, t2, _ = tops[s.ind-1]
                A = np.round(ref @ R2 @ inv)
                M = P.rep(np.array(x["k"]), g, C, A, ref @ t2+sh-A @ sh, s.sign*s.spinor_rotation if sp else None)
                Tr.append(np.array([np.trace(M[i:j, i:j]) for i, j in zip(b, b[1:])]))
        T, Tr = np.array(T).T, np.array(Tr).T
        self.cache[kp.ik0] = [dict(E=E[i:j].mean()-self.ef, raw=E[i:j]-self.ef, deg=j-i, ch=T[m], chref=Tr[m]) for m, (i, j) in enumerate(zip(b, b[1:]))]
        return self.cache[kp.ik0]


def check_irrepsdat(ctx, text, bs, view, t):
    rows = [l.split() for l in text.split("\n") if l.strip()]
    want = [(l["E"], kp.irreps[m]) for kp in bs.kpoints for m, l in enumerate(view.levels(kp))]
    ctx.require(len(rows) == len(want), "irreps.dat", lambda: f"{t}: {len(rows)} lines, {len(want)} levels")
    for r, (E, irr) in zip(rows, want):
        ctx.check(abs(float(r[0])-E) < 1e-6 and (r[1] if len(r) > 1 else "") == "".join(irr), "line of irreps.dat", lambda: f"{t}: {r} {E} {irr}")


def check_plot(ctx, text, bs, view, kl, t, states=None):
    bl = O.parse_plot(text)
    nb = bs.kpoints[0].num_bands
    ctx.require(len(bl) == nb and all(len(b) == len(bs.kpoints) for b in bl), "blocks of plot file", lambda: f"{t}: {[len(b) for b in bl]} for {nb} bands and {len(bs.kpoints)} k-points")
    for i, kp in enumerate(bs.kpoints):
        E = states(kp) if states else [l["E"] for l in view.levels(kp) for _ in range(l["deg"])]
        for b in range(nb):
            ctx.check(abs(bl[b][i][0]-kl[i]) < 6e-5 and abs(bl[b][i][1]-E[b]) < 6e-5, "line of plot file", lambda: f"{t} band {b+1} k-point {i+1}: {bl[b][i]} expected {kl[i]} {E[b]}")


def run_case(spec, ctx):
    from irrep.bandstructure import BandStructure
    from irrep.spacegroup import SpaceGroup
    if "line" in spec:
        return run_line(spec, ctx)
    sg, sp = spec["sg"], bool(spec["sp"])
    b, o, r = SETS[spec["set"]]
    nops = len(X.coset_ops(sg))
    c = X.crystal(sg, b, o, r, norb=2 if nops < 24 else 1)
    order = np.argsort(c.typ, kind="stable")
    c.pos, c.typ = c.pos[order], [c.typ[i] for i in order]
    with quiet():
        S0 = SpaceGroup((c.lattice, c.pos, c.typ), spinor=False, search_cell=True)
    inv = np.linalg.inv(np.array(S0.refUC, float))
    tk = tables.table(sg, sp).kpoints
    pts = [(t["name"], tables.snap(t["k"]) @ inv) for t in tk]
    j = (sg*5+3*sp) % len(pts)
    named = [pts[0], pts[j], pts[-1]]
    # the third point close to the second along a line for the cumulative length
    calc = None
    for nk in (3, 2, 1):
        ks = [k+np.array([1, 0, -1])*(i*(sg % 2)) for i, (n, k) in enumerate(named[:nk])]
        calc = O.complete_calc(c, ks, sp, extra=7)
        if calc is not None:
            break
    ctx.require(calc is not None, "harness", "no common number of bands")
    names = [n for n, k in named[:nk]]
    nb, ntot = calc.n, calc.nb
    d = ctx.tmpdir()
    kw = F.write(calc, "vasp", d)
    base = ["-code=vasp", "-degenThresh=1e-4"]+(["-spinor"] if sp else [])
    E0 = calc.kpts[0]["E"]
    # window of bands: starts at a border of the levels of every k-point where there is one
    starts = [n for n in range(1, nb) if all(x["E"][n]-x["E"][n-1] > 1e-3 for x in calc.kpts)]
    b0 = starts[len(starts)//2] if starts else 0
    # end of a window that cuts a level: traces and multiplicities are those of a part of it, complex in general
    cuts = [n for n in range(nb-1, 0, -1) if any(x["E"][n]-x["E"][n-1] < 1e-6 for x in calc.kpts)]
    ef = 1.2345
    allsym = len(S0.symmetries)
    sel = sorted({1, max(1, allsym//2), allsym})
    for lab in ("names", "search", "none"):
        for select in (None, sel):
            for win in (0, 1, 2):
                if win == 2 and (select or lab == "search" or not cuts):
                    continue
                w0, w1 = (0, cuts[0]) if win == 2 else (b0, nb) if win else (0, ntot if lab == "search" else nb)
                args = base+[f"-IBstart={w0+1}"*1, f"-IBend={w1}", f"-EF={ef}" if win else "-EF=0.0"]
                if lab == "names":
                    args += ["-kpnames="+",".join(names), "-plotbands"]
                if lab == "search":
                    args += ["-searchcell"]
                if select:
                    args += ["-symmetries="+",".join(map(str, select))]
                t = f"{spec} {' '.join(args)}"
                r = O.run_cli(args, d)
                ctx.require(r.rc == 0, "run failed", lambda: f"{t}: {r.exc} {r.err} {getattr(r, 'tb', '')[-600:]}")
                O.wipe(d, r)
                with chdir(d), quiet(), memo_spacegroup():
                    bs = BandStructure(calculate_traces=True, search_cell=lab != "none", degen_thresh=1e-4, IBstart=w0+1, IBend=w1, EF=ef if win else 0., trans_thresh=1e-5, save_wf=False, **kw)
                    bs.identify_irreps(names if lab == "names" else None)
                view = View(calc, bs.spacegroup, ef if win else 0., w0, w1)
                bl, sub = check_plain(ctx, r, d, bs, view, names if lab == "names" else None, select, "tognuplot" if lab == "names" else None, t)
                ctx.check(len(bl) == 1, "blocks printed", f"{t} {len(bl)}")
                ctx.state(spec, lab, bool(select), win)
                ctx.trace()
                ctx.outcome(lab, "selected" if select else "all", ("full", "window", "cut level")[win], "complex" if any(abs(complex(v).imag) > 1e-3 for k in sub["k points"] for l in k["characters"] for v in l) else "real",
                            "complex in reference cell" if any(abs(complex(v).imag) > 1e-3 for k in sub["k points"] for l in k["characters refUC"] for v in l) else "")
    # separation
    with chdir(d), quiet(), memo_spacegroup():
        bs0 = BandStructure(calculate_traces=True, search_cell=True, degen_thresh=1e-4, IBstart=1, IBend=nb, EF=ef, save_wf=True, **kw)
        bs0.identify_irreps(names)
    common = sorted(set.intersection(*[{s.ind for s in kp.little_group} for kp in bs0.kpoints]))
    cand = [i for i in common if i != 1]
    stride = max(1, len(cand)//(6 if spec["full"] else 2))
    lists = [[i] for i in cand[::stride][:6 if spec["full"] else 2]]
    if len(cand) > 1:
        lists.append([cand[0], cand[-1]])
    view = View(calc, bs0.spacegroup, ef, 0, nb)
    for seq in lists:
        t = f"{spec} separation by {seq}"
        with quiet():
            want = {(): bs0}
            try:
                for i in seq:
                    want = {k+(w,): s for k, v in want.items() for w, s in v.Separate(i, degen_thresh=1e-4, groupKramers=True).items()}
            except Exception as e:
                ctx.outcome("separation refused", type(e).__name__)
                continue
        args = base+[f"-IBend={nb}", f"-EF={ef}", "-kpnames="+",".join(names), "-isymsep="+",".join(map(str, seq))]
        equal = all(len({kp.num_bands for kp in s.kpoints}) == 1 for s in want.values())
        if equal:
            args += ["-plotbands", "-suffix=sub"]
        r = O.run_cli(args, d)
        ctx.require(r.rc == 0, "run failed", lambda: f"{t}: {r.exc} {r.err} {getattr(r, 'tb', '')[-600:]}")
        O.wipe(d, r)
        check_separated(ctx, r, d, bs0, want, seq, names, view, "sub" if equal else None, None, t)
        ctx.state(spec, "separation", seq)
        ctx.outcome("separation", len(seq), len(want), "equal" if equal else "unequal")


def check_plain(ctx, r, d, bs, view, names, select, plot, t):
    """run without separation; plot: suffix of the plot file or None"""
    with chdir(d):
        check_group(ctx, r, bs.spacegroup, select, t)
    bl = O.parse_blocks(r.out)
    js = O.parse_json(r.files["irrep-output.json"])
    ctx.require(js["separated by symmetry"] is False and len(js["characters and irreps"]) == 1, "json", t)
    tr = O.parse_trace(r.files["trace.txt"])
    check_trace_head(ctx, tr, bs, t)
    sub = js["characters and irreps"][0]["subspace"]
    ctx.require(len(bl) >= 1, "blocks printed", f"{t} {len(bl)}")
    check_states(ctx, bl[0], sub, tr, bs, view.levels, view, names, None, t)
    ctx.check(("irreps.dat" in r.files) == (names is not None), "irreps.dat", t)
    if names is not None:
        check_irrepsdat(ctx, r.files["irreps.dat"], bs, view, t)
    plots = [n for n in r.files if n.startswith("bands-")]
    ctx.check(plots == ([] if plot is None else [f"bands-{plot}.dat"]), "plot files", lambda: f"{t}: {plots}")
    if plot is not None and plots:
        check_plot(ctx, r.files[f"bands-{plot}.dat"], bs, view, sub["kpoints line"], t)
    return bl, sub


def check_separated(ctx, r, d, bs0, want, seq, names, view, plot, select, t):
    """run with separation into the subspaces `want` {eigenvalues: BandStructure}"""
    js = O.parse_json(r.files["irrep-output.json"])
    ctx.check(js["separated by symmetry"] is True and [int(x) for x in js["separating symmetries"]] == list(seq), "separation in json", t)
    sets = js["characters and irreps"]
    bl = O.parse_blocks(r.out)
    ctx.require(len(sets) == len(want) and len(bl) >= 1+len(want), "subspaces", lambda: f"{t}: {len(sets)} {len(bl)} {len(want)}")
    with chdir(d):
        check_group(ctx, r, bs0.spacegroup, select, t)
    tr = O.parse_trace(r.files["trace.txt"])
    check_trace_head(ctx, tr, bs0, t)
    check_states(ctx, bl[0], bs_json(bs0, names), tr, bs0, view.levels, view, names, None, t)
    ctx.check(("irreps.dat" in r.files) == (names is not None), "irreps.dat", t)
    if names is not None:
        check_irrepsdat(ctx, r.files["irreps.dat"], bs0, view, t)
    plots = [n for n in r.files if n.startswith("bands-")]
    ctx.check(len(plots) == (0 if plot is None else len(want)) and all(n.startswith(f"bands-{plot}-") and n.endswith(".dat") for n in plots), "plot files", lambda: f"{t}: {plots}")
    idx = [kp.ik0 for kp in bs0.kpoints]
    left = set(plots)
    for (key, s), q, blk in zip(want.items(), sets, bl[1:]):
        ts = f"{t} subspace {key}"
        ev = q["symmetry eigenvalues"]
        ctx.check(len(ev) == len(key) and near(np.array(ev, complex), np.array(key, complex), 1e-9), "eigenvalue in json", lambda: f"{ts}: {ev}")
        nm = None if names is None else [names[idx.index(kp.ik0)] for kp in s.kpoints]

        def levels(kp):
            full = view.levels(kp)
            out = []
            for dgen, e in zip(kp.degeneracies, kp.Energy_mean):
                l = min(full, key=lambda l: abs(l["E"]-e))
                out.append(dict(l, deg=dgen, raw=np.repeat(l["E"], dgen)))
            return out
        check_states(ctx, blk, q["subspace"], None, s, levels, view, nm, None, ts, sub=True)
        if plot is not None:
            # the file of this subspace names its eigenvalues
            mine = [n for n in plots if all(abs(complex(v)-complex(w)) < 6e-3 for v, w in zip(key, plot_key(n, plot)))]
            ctx.require(len(mine) == 1 and mine[0] in left, "plot file of subspace", lambda: f"{ts}: {plots}")
            left.discard(mine[0])
            check_plot(ctx, r.files[mine[0]], s, view, q["subspace"]["kpoints line"], ts,
                       states=lambda kp: [e for e, n in zip(kp.Energy_mean, kp.degeneracies) for _ in range(n)])
        ctx.trace()


def plot_key(n, suffix):
    return [complex(v.replace(" ", "")) for v in re.findall(r"\d+:(.+?)(?=-\d+:|$)", n[len(f"bands-{suffix}-"):-4])]


def bs_json(bs, names):
    with quiet():
        return bs.json(names)
