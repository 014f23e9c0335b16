"""C16 options: every option alone and every pair of options, given on the command line, in JSON and YAML files with
native and text values and any letter case, and split between both; the run is compared with a model of the options."""
import os, re, json, itertools
import numpy as np
from . import crystals as X, physics as P, formats as F, tables, outputs as O, c15
from .core import quiet, chdir, memo_spacegroup, canon

LEVEL = "model_checking"
CHUNK = 1
BOUNDS = {"quick": "4 calculations (VASP scalar and spinor, Abinit, Wannier90/Quantum ESPRESSO for their own options): all single values of 25 options and all pairs of values, "
                   "each through the command line and one of 6 file forms, all 6 forms for singles; precedence of every option; about 60 invalid settings, each through command line and files; lists of symmetries (words of up to 3 numbers and ranges) and of k-points (2)",
          "thorough": "the same with two more crystals, all 6 forms for every pair, and triples of options"}
ASSUMPTIONS = ["kpnames are the labels of the selected k-points", "the model of an option is its text in `irrep --help`"]
FORMS = ("json", "yaml", "json-native", "yaml-native", "yaml-upper", "json-mixed")
CALCS = {"vs": (14, 1, False), "vp": (166, 3, True), "as": (62, 1, False), "vh": (176, 2, False), "vt": (99, 0, True)}


class Setup:
    pass


_cache = {}


def setup(name):
    if name in _cache:
        return _cache[name]
    sg, st, sp = CALCS[name]
    b, o, r = c15.SETS[st]
    s = Setup()
    s.sg, s.sp = sg, sp
    nops = len(X.coset_ops(sg))
    def crystal(norb):
        c = X.crystal(sg, b, o, r, norb=norb)
        order = np.argsort(c.typ, kind="stable")
        c.pos, c.typ = c.pos[order], [c.typ[i] for i in order]
        return c
    n = 2 if nops < 24 else 1
    c = crystal(n)
    s.crystal, s.crystal2 = c, crystal(n+1)
    from irrep.spacegroup import SpaceGroup
    with quiet():
        S = SpaceGroup((c.lattice, c.pos, c.typ), spinor=sp, search_cell=True)
    s.refUC, s.shiftUC = np.array(S.refUC, float), np.array(S.shiftUC, float)
    s.nsym = len(S.symmetries)
    inv = np.linalg.inv(s.refUC)
    pts = [(t["name"], tables.snap(t["k"]) @ inv) for t in tables.table(sg, sp).kpoints]
    gm = [p for p in pts if np.abs(p[1]).max() < 1e-9][0]
    rest = [p for p in pts if p is not gm]
    for i in range(len(rest)):
        pick = [gm, rest[i % len(rest)], rest[(i+2) % len(rest)]]
        s.calc = O.complete_calc(c, [p[1] for p in pick], sp, extra=5, npw=24)
        if s.calc is not None:
            break
    s.names = [p[0] for p in pick]
    s.n = s.calc.n
    # second file: other energies
    s.calc2 = F.Calc(c, [dict(x, E=x["E"]+0.37) for x in s.calc.kpts], sp, s.calc.ecut)
    # a cutoff between shells at every k-point
    e = np.sort(np.concatenate([(((x["k"]+x["g"]) @ c.rec)**2).sum(1)/P.TWOMHBAR2 for x in s.calc.kpts]))
    gaps = [(abs(0.5*(a+b)-0.75*s.calc.ecut), 0.5*(a+b)) for a, b in zip(e, e[1:]) if b-a > 0.02 and a > 0.3*s.calc.ecut]
    s.cut = round(min(gaps)[1], 4)
    # symmetries common to all k-points, for separations
    kw = dict(spinor=sp)
    _cache[name] = s
    return s


def options(s):
    """name on the command line -> list of values (text); True: flag"""
    st = [n for n in range(1, s.n) if all(x["E"][n]-x["E"][n-1] > 1e-3 for x in s.calc.kpts)]
    m = st[len(st)//2] if st else 0
    o = {
        "Ecut": [repr(s.cut), "100000", "-1"],
        "IBstart": [str(m+1), "0"],
        "IBend": [str(s.n), "1000"],
        "kpoints": ["2", "3,1", "2-3"],
        "kpnames": ["auto"],
        "refUC": [",".join(f"{x:.10g}" for x in s.refUC.T.ravel())],
        "shiftUC": [",".join(f"{x:.10g}" for x in s.shiftUC)],
        "isymsep": ["2"],
        "onlysym": [True],
        "writesym": [True],
        "prefix": ["pre"],
        "alat": ["3.21"],
        "ZAK": [True],
        "WCC": [True],
        "plotbands": [True],
        "EF": ["1.25", "-0.5", "auto"],
        "degenThresh": ["1e-6", "0.6"],
        "groupKramers": [True],
        "symmetries": ["1,2", "1-2"],
        "suffix": ["abc"],
        "searchcell": [True],
        "trans_thresh": ["0.0001"],
        "v": ["2"],
        "fWAV": ["W2"],
        "fPOS": ["P2"],
        "from_sym_file": ["ops.sym"],
        "correct_Ecut0": ["1e-7"],
    }
    return o


def resolve(s, opts):
    """fills in the labels of the selected k-points"""
    o = dict(opts)
    if o.get("kpnames") == "auto":
        o["kpnames"] = ",".join(s.names[i] for i in klist(s, o))
    return o


def klist(s, o):
    if "kpoints" not in o:
        return list(range(len(s.names)))
    out = []
    for w in o["kpoints"].split(","):
        if "-" in w:
            a, b = w.split("-"); out += range(int(a), int(b)+1)
        else:
            out.append(int(w))
    return [i-1 for i in out]


def cmdline(o):
    a = []
    for k, v in o.items():
        if k == "v":
            a.append("-"+"v"*int(v))
        elif v is True:
            a.append("-"+k)
        else:
            a.append(f"-{k}={v}")
    return a


LISTS = ("kpoints", "symmetries", "isymsep", "refUC", "shiftUC")


def native(k, v):
    if isinstance(v, bool) or k in ("prefix", "suffix", "fWAV", "fPOS", "from_sym_file", "code", "fWFK"):
        return v
    if k == "kpnames":
        return v.split(",")
    if k in LISTS:
        try:
            return [int(x) for x in v.split(",")] if len(v.split(",")) > 1 else int(v)
        except ValueError:
            try:
                x = [float(x) for x in v.split(",")]
                return [x[:3], x[3:6], x[6:]] if len(x) == 9 else x
            except ValueError:
                return v
    try:
        return int(v)
    except ValueError:
        try:
            return float(v)
        except ValueError:
            return v


def config(o, form, d):
    """writes the file and returns its name"""
    kind, _, mod = form.partition("-")
    c = {}
    for i, (k, v) in enumerate(o.items()):
        w = v
        if k == "v":
            w = int(v)
        elif mod == "native":
            w = native(k, v)
        elif v is True and mod == "mixed":
            w = "True"
        name = k
        if mod == "upper":
            name = k.upper()
        if mod == "mixed":
            name = "".join(ch.upper() if (j+i) % 2 else ch.lower() for j, ch in enumerate(k))
        c[name] = w
    fn = f"conf-{form}."+("json" if kind == "json" else "yml")
    with open(os.path.join(d, fn), "w") as f:
        if kind == "json":
            json.dump(c, f)
        else:
            for k, v in c.items():
                f.write(f"{k}: {json.dumps(v)}\n")
    return fn


def signature(r, verb=True):
    """what a run did, without the messages of the construction of the space group (which is memoised here)"""
    i = r.out.find("CRYSTAL STRUCTURE")
    return dict(rc=bool(r.rc), out=r.out[i:] if i >= 0 else "", files={k: v for k, v in r.files.items() if not k.startswith("conf-")})


def diff(a, b):
    for k in ("rc", "out"):
        if a[k] != b[k]:
            if k == "rc":
                return f"exit {a[k]} and {b[k]}"
            la, lb = a["out"].split("\n"), b["out"].split("\n")
            return next((f"{x!r} and {y!r}" for x, y in zip(la, lb) if x != y), "length of the text")
    fa, fb = a["files"], b["files"]
    if sorted(fa) != sorted(fb):
        return f"files {sorted(fa)} and {sorted(fb)}"
    for n in fa:
        if fa[n] != fb[n]:
            return f"contents of {n}: "+next((f"{x!r} and {y!r}" for x, y in zip(fa[n].split("\n"), fb[n].split("\n")) if x != y), "length")
    return ""


def model(s, o):
    """arguments of BandStructure and what is done with it, from the documentation of the options; None: error expected"""
    m = Setup()
    m.calc = s.calc2 if o.get("fWAV") == "W2" else s.calc
    m.names = o["kpnames"].split(",") if "kpnames" in o else None
    m.search = "searchcell" in o or m.names is not None
    m.ef = 0. if o.get("EF", "auto") == "auto" else float(o["EF"])
    m.kl = klist(s, o)
    m.b0 = max(0, int(o.get("IBstart", 0))-1)
    e = int(o.get("IBend", 0))
    m.b1 = e if 0 < e < m.calc.nb else m.calc.nb
    if m.b1 <= m.b0:
        return None
    m.thresh = float(o.get("degenThresh", 1e-4))
    ec = float(o.get("Ecut", 0))
    m.ecut = ec if 0 < ec < m.calc.ecut else None
    m.symmetries = None if "symmetries" not in o else [1, 2]
    m.onlysym = "onlysym" in o
    m.sep = [2] if "isymsep" in o else None
    m.zak, m.wcc, m.plot = "ZAK" in o, "WCC" in o, "plotbands" in o
    m.suffix = o.get("suffix", "tognuplot")
    m.writesym = "writesym" in o
    m.prefix = o.get("prefix")
    m.alat = float(o["alat"]) if "alat" in o else None
    m.symfile = o.get("from_sym_file")
    m.refUC = np.array(o["refUC"].split(","), float).reshape(3, 3) if "refUC" in o else None
    m.shiftUC = np.array(o["shiftUC"].split(","), float) if "shiftUC" in o else None
    m.fpos = o.get("fPOS", "POSCAR")
    eye, zero = np.allclose(s.refUC, np.eye(3)), np.allclose(s.shiftUC, 0)
    # a partial transformation that does not lead to the cell of the tables is refused when the cell has to be checked
    if m.search and ((m.refUC is not None and m.shiftUC is None and not zero) or (m.shiftUC is not None and m.refUC is None and not eye)):
        return None
    if m.symfile and m.alat is None:
        return None
    if m.writesym and m.prefix is None:
        return None
    return m


def check(ctx, s, o, r, d, t):
    from irrep.bandstructure import BandStructure
    m = model(s, o)
    if m is None:
        ctx.check(r.rc != 0, "invalid options accepted", t)
        ctx.outcome("refused")
        return
    with chdir(d), quiet(), memo_spacegroup():
        bs = BandStructure(code="vasp", fWAV=o.get("fWAV", "WAVECAR"), fPOS=m.fpos, spinor=s.sp, IBstart=m.b0+1, IBend=m.b1, EF=m.ef, kplist=[i+1 for i in m.kl], calculate_traces=True,
                           degen_thresh=m.thresh, Ecut=m.ecut if m.ecut is not None else m.calc.ecut, search_cell=m.search, refUC=m.refUC, shiftUC=m.shiftUC, save_wf=True,
                           alat=m.alat, from_sym_file=m.symfile, onlysym=m.onlysym)
        want = None
        if not m.onlysym:
            bs.identify_irreps(m.names)
            if m.sep is not None:
                try:
                    want = {(w,): q for w, q in bs.Separate(2, degen_thresh=m.thresh, groupKramers=True).items()}
                except Exception:
                    want = "error"
    if want == "error":
        ctx.check(r.rc != 0, "invalid options accepted", t)
        ctx.outcome("separation refused")
        return
    nplot = None
    if m.plot and want and any(len({kp.num_bands for kp in q.kpoints}) > 1 for q in want.values()):
        ctx.check(r.rc != 0 and "numbers of bands differs" in str(r.exc), "plot of unequal subspaces", lambda: f"{t}: {r.exc}")
        ctx.outcome("unequal subspaces")
        return
    if m.wcc and want and not all_equal(want):
        ctx.check(r.rc != 0, "WCC of unequal subspaces", t)
        ctx.outcome("unequal subspaces")
        return
    ctx.require(r.rc == 0, "run failed", lambda: f"{t}: {r.exc} {r.err[-300:]} {getattr(r, 'tb', '')[-600:]}")
    S = bs.spacegroup
    sym = [n for n in r.files if n.endswith(".sym")]
    ctx.check(sym == ([m.prefix+".sym"] if m.writesym else []), "sym file", lambda: f"{t}: {sym}")
    if m.writesym and sym:
        w = r.files[sym[0]].split()
        a = np.array(w[1:], float).reshape(-1, 4, 3)
        al = m.alat or 1.
        from irrep.utility import BOHR
        ctx.check(int(w[0]) == len(a) == len(S.symmetries), "sym file", t)
        for q, op in zip(a, S.symmetries):
            R = s.crystal.lattice.T @ np.array(op.rotation) @ np.linalg.inv(s.crystal.lattice.T)
            T = -np.array(op.translation) @ s.crystal.lattice/al/BOHR
            ctx.check(np.abs(q[:3]-R).max() < 1e-6 and np.abs(q[3]-T).max() < 1e-6, "operation of sym file", lambda: f"{t}: {q.tolist()} {R.tolist()} {T}")
    h = O.parse_head(r.out)
    ctx.check(len(h["atoms"]) == len((s.crystal2 if m.fpos == "P2" else s.crystal).typ), "atoms", t)
    if m.refUC is not None:
        ctx.check(np.abs(h["refUC"]-m.refUC).max() < 6e-5, "refUC", t)
    if m.shiftUC is not None:
        ctx.check(np.abs(h["shiftUC"]-m.shiftUC).max() < 6e-6, "shiftUC", t)
    if not m.search and m.refUC is None:
        ctx.check(np.abs(h["refUC"]-np.eye(3)).max() < 1e-9, "refUC", t)
    if m.search:
        ctx.check(np.abs(S.refUC-s.refUC).max() < 1e-5, "refUC", t)
    want_ops = [i for i in range(1, len(S.symmetries)+1) if m.symmetries is None or i in m.symmetries]
    if m.onlysym:
        ctx.check(sorted(O.parse_ops(r.out)) == want_ops, "operations printed", t)
        ctx.check(not [n for n in r.files if not n.endswith(".sym")] and "k-point " not in r.out, "onlysym", lambda: f"{t}: {list(r.files)}")
        ctx.outcome("onlysym")
        return
    ctx.check({"irreptable-template", "trace.txt", "irrep-output.json"} <= set(r.files), "files", lambda: f"{t}: {list(r.files)}")
    view = c15.View(m.calc, S, m.ef, m.b0, m.b1, m.thresh, m.ecut)
    if want is None:
        bl, sub = c15.check_plain(ctx, r, d, bs, view, m.names, m.symmetries, m.suffix if m.plot else None, t)
        sets = {(): bs}
    else:
        sets = want
        if m.thresh < 0.1:
            c15.check_separated(ctx, r, d, bs, want, m.sep, m.names, view, m.suffix if m.plot else None, m.symmetries, t)
    nk = len(bs.kpoints)
    if m.zak:
        ctx.check(r.out.count("Zak phases are") == len(sets), "Zak phases", t)
        num = r"\s*([-+\dna-z.]+)"
        got = [[float(x) for x in w] for w in re.findall(rf"\n +(\d+){num} pi gapwidth ={num} gapcenter ={num} localgap={num}", r.out)]
        with quiet():
            ref = [q.zakphase() for q in sets.values()] if all_equal(sets) else None
        if ref is not None:
            ref = [[i+1, z/np.pi, a, b, c] for q in ref for i, (z, a, b, c) in enumerate(zip(*q))]
            ctx.check(len(got) == len(ref) and all(a[0] == b[0] and abs((a[1]-b[1]+1) % 2-1) < 1e-4 for a, b in zip(got, ref)), "Zak phases", lambda: f"{t}: {got} {ref}")
            ctx.check(len(got) == len(ref) and np.allclose(np.array(got)[:, 2:], np.array(ref)[:, 2:], atol=1e-3, rtol=1e-6), "gaps with Zak phases", lambda: f"{t}: {got} {ref}")
    else:
        ctx.check("Zak" not in r.out, "Zak phases", t)
    ctx.check(r.out.count("WCC are") == (len(sets) if m.wcc else 0), "WCC", t)
    if m.wcc and all_equal(sets):
        with quiet():
            ref = [np.array(q.wcc()) for q in sets.values()]
        got = [(np.array(a.split(), float), float(b)) for a, b in re.findall(r"WCC are : \[([^\]]*)\]\s+sumWCC=\s*(\S+)", r.out)]
        near = lambda a, b: abs((a-b+.5) % 1-.5) < 1e-5
        ctx.check(len(got) == len(ref) and all(len(a) == len(b) and all(near(x, y) for x, y in zip(a, b)) and near(c, b.sum()) for (a, c), b in zip(got, ref)),
                  "WCC printed", lambda: f"{t}: {got} {ref}")
    ctx.outcome("run", "labels" if m.names else "", "search" if m.search else "", "separated" if want else "", f"{nk} k")


def all_equal(sets):
    return all(len({kp.num_bands for kp in q.kpoints}) == 1 for q in sets.values())


def prepare(s, d):
    F.poscar(s.calc, os.path.join(d, "POSCAR"))
    F.wavecar(s.calc, os.path.join(d, "WAVECAR"))
    F.wavecar(s.calc2, os.path.join(d, "W2"))
    F.poscar(F.Calc(s.crystal2, s.calc.kpts, s.sp, s.calc.ecut), os.path.join(d, "P2"))
    # operations in another order
    from irrep.spacegroup import SpaceGroup
    with quiet():
        S = SpaceGroup((s.crystal.lattice, s.crystal.pos, s.crystal.typ), spinor=False)
        S.symmetries = S.symmetries[:1]+S.symmetries[:0:-1]
        S.write_sym_file(os.path.join(d, "ops.sym"), alat=3.21)


def base(s):
    o = {"code": "vasp"}
    if s.sp:
        o["spinor"] = True
    return o


def values(s):
    return [(k, v) for k, vs in options(s).items() for v in vs]


def pairs(spec, ctx):
    s = setup(spec["calc"])
    d = ctx.tmpdir()
    prepare(s, d)
    vals = values(s)
    first = vals[spec["i"]]
    todo = [()] if spec["i"] == 0 else []
    todo += [(first,)]+[(first, w) for w in vals[spec["i"]+1:] if w[0] != first[0]]
    if spec.get("triples"):
        rest = [w for w in vals[spec["i"]+1:] if w[0] != first[0]]
        todo += [(first, a, b) for a, b in itertools.combinations(rest, 2) if a[0] != b[0]][spec["triples"]-1::7]
    for n, combo in enumerate(todo):
        o = resolve(s, {**base(s), **dict(combo)})
        t = f"{spec['calc']} {' '.join(cmdline(o))}"
        r = O.run_cli(cmdline(o), d)
        O.wipe(d, r)
        check(ctx, s, o, r, d, t)
        ctx.state(spec["calc"], sorted(map(str, o.items())))
        ctx.step()
        ctx.trace()
        forms = FORMS if len(combo) == 1 or spec["full"] and len(combo) == 2 else [FORMS[n % len(FORMS)]]
        sig = signature(r)
        for form in forms:
            fn = config(o, form, d)
            r2 = O.run_cli([f"-config={fn}"], d)
            O.wipe(d, r2)
            x = diff(sig, signature(r2))
            ctx.check(not x, "file and command line", lambda: f"{t} through {form}: {x} {r2.exc}")
            ctx.step()
            ctx.state(spec["calc"], sorted(map(str, o.items())), form)
        # one option in the file, the other one on the command line
        if len(combo) == 2:
            for a, b in (combo, combo[::-1]):
                oa = {k: v for k, v in o.items() if k != b[0]}
                fn = config(oa, FORMS[n % len(FORMS)], d)
                r2 = O.run_cli([f"-config={fn}"]+cmdline({b[0]: o[b[0]]}), d)
                O.wipe(d, r2)
                x = diff(sig, signature(r2))
                ctx.check(not x, "split between file and command line", lambda: f"{t}, {b[0]} on the command line: {x} {r2.exc}")
                ctx.step()


def other(s, k, v):
    """another valid value of the option, to be overridden"""
    vs = [x for x in options(s)[k] if x != v]
    if vs:
        return vs[0]
    if v is True:
        return False
    return {"kpnames": "X9", "refUC": "1,0,0,0,1,0,0,0,1", "shiftUC": "0.1,0.2,0.3", "isymsep": "1", "prefix": "zz", "alat": "9.9", "suffix": "zz", "trans_thresh": "1e-9",
            "v": "1", "fWAV": "missing", "fPOS": "missing", "from_sym_file": "missing", "correct_Ecut0": "1e5"}[k]


def precedence(spec, ctx):
    s = setup(spec["calc"])
    d = ctx.tmpdir()
    prepare(s, d)
    for k, v in values(s):
        o = resolve(s, {**base(s), k: v})
        if k == "from_sym_file":
            o["alat"] = "3.21"
        if k == "writesym":
            o["prefix"] = "pre"
        if k in ("fWAV",):
            pass
        r = O.run_cli(cmdline(o), d)
        O.wipe(d, r)
        sig = signature(r)
        for form in FORMS:
            bad = {**o, k: other(s, k, v)}
            if bad[k] is False and form == "json-mixed":
                bad[k] = "False"
            fn = config(bad, form, d)
            r2 = O.run_cli(cmdline({k: o[k]})+[f"-config={fn}"], d)
            O.wipe(d, r2)
            x = diff(sig, signature(r2))
            ctx.check(not x, "precedence", lambda: f"{spec['calc']} -{k}={v} with {bad[k]} in {form}: {x} {r2.exc}")
            ctx.step()
            ctx.state(spec["calc"], k, v, form)
            # a flag set to false in the file is not set
            if v is True:
                off = {**{a: b for a, b in o.items() if a != k}}
                r3 = O.run_cli(cmdline(off), d)
                O.wipe(d, r3)
                r4 = O.run_cli([f"-config={fn}"], d)
                O.wipe(d, r4)
                if k != "groupKramers":
                    x = diff(signature(r3), signature(r4))
                    ctx.check(not x, "flag set to false", lambda: f"{spec['calc']} {k} false in {form}: {x} {r4.exc}")
        ctx.trace()
        ctx.outcome("precedence", k)


INVALID = [("IBstart", "a"), ("IBstart", "1.5"), ("IBstart", "1000"), ("IBend", "x"), ("code", "foo"), ("code", ""), ("EF", "abc"), ("EF", ""), ("kpoints", "a"), ("kpoints", "1,,2"), ("kpoints", "1.5"),
           ("kpoints", "1,x"), ("refUC", "1,2,3"), ("refUC", "a,0,0,0,1,0,0,0,1"), ("refUC", "1,0,0,0,1,0,0,0,1,0"), ("shiftUC", "1,2"), ("shiftUC", "0,0,0,0"), ("shiftUC", "a,b,c"), ("isymsep", "99"),
           ("isymsep", "0"), ("isymsep", "x"), ("isymsep", "1,99"), ("isymsep", "0,1"), ("isymsep", "-1"), ("kpnames", "XX,YY,ZZ"), ("kpnames", "GM"), ("Ecut", "abc"), ("degenThresh", "x"), ("trans_thresh", "x"),
           ("alat", "x"), ("symmetries", "a"), ("symmetries", "1,,2"), ("fWAV", "missing"), ("fPOS", "missing"), ("from_sym_file", "missing"), ("correct_Ecut0", "x"), ("correct_Ecut0", "50"),
           ("v", "x"), ("spinor", "maybe"), ("onlysym", "maybe"), ("plotbands", "2.5")]


def invalid(spec, ctx):
    s = setup(spec["calc"])
    d = ctx.tmpdir()
    prepare(s, d)
    for k, v in INVALID:
        for form in (None,)+FORMS:
            if form is None and k in ("v", "spinor", "onlysym", "plotbands"):
                continue
            if v == "maybe" and form is not None and form.endswith("native"):
                pass
            o = {**base(s), "alat": "3.21", "kpnames": "auto", k: v}
            o = resolve(s, o) if k != "kpoints" else {**{a: b for a, b in o.items() if a != "kpnames"}}
            t = f"{spec['calc']} {k}={v} {form or 'command line'}"
            if form is None:
                r = O.run_cli(cmdline(o), d)
            else:
                oo = dict(o)
                fn = config({a: b for a, b in oo.items() if a != k}, form, d)
                # add the invalid value as it is
                with open(os.path.join(d, fn)) as f:
                    txt = f.read()
                if fn.endswith("json"):
                    c = json.loads(txt); c[k] = v
                    txt = json.dumps(c)
                else:
                    txt += f"{k}: {json.dumps(v)}\n"
                with open(os.path.join(d, fn), "w") as f:
                    f.write(txt)
                r = O.run_cli([f"-config={fn}"], d)
            O.wipe(d, r)
            ctx.check(r.rc != 0, "invalid value accepted", t)
            ctx.check("irrep-output.json" not in r.files, "results written", t)
            ctx.step()
            ctx.state(spec["calc"], "invalid", k, v, form)
        ctx.trace()
        ctx.outcome("invalid", k)
    # the command line itself
    for args in (["-nooption"], ["-nooption=3"], ["extra"], ["-config=missing.yml"], ["-config=missing.json"], ["-IBstart"], ["-config=bad.json"], ["-config=bad.yml"]):
        with open(os.path.join(d, "bad.json"), "w") as f:
            f.write("{not json")
        with open(os.path.join(d, "bad.yml"), "w") as f:
            f.write("a: [1, 2\nb: }")
        r = O.run_cli(args, d)
        O.wipe(d, r)
        ctx.check(r.rc != 0 and "irrep-output.json" not in r.files, "invalid command line accepted", f"{args}")
        ctx.step()
    for v in ("0", "99", "1,0", "-1"):
        r = O.run_cli(cmdline({**base(s), "isymsep": v, "kpoints": "1"}), d)
        O.wipe(d, r)
        ctx.check(r.rc != 0, "symmetry that does not exist", f"{spec['calc']} -isymsep={v} -kpoints=1")
    # misfit of spin: scalar files read as spinor, and the opposite
    o = base(s)
    if s.sp:
        del o["spinor"]
    else:
        o["spinor"] = True
    r = O.run_cli(cmdline(o), d)
    O.wipe(d, r)
    ctx.check(r.rc != 0, "spin of the file", f"{spec['calc']} {o}")
    # correct_Ecut0: header with a cutoff slightly too low
    e = max((((x["k"]+x["g"]) @ s.crystal.rec)**2).sum(1).max()/P.TWOMHBAR2 for x in s.calc.kpts)
    good = O.run_cli(cmdline({**base(s), "kpnames": ",".join(s.names)}), d)
    O.wipe(d, good)
    for sign, hdr in ((1, e-2e-4), (-1, s.calc.ecut)):
        name = f"Wc{sign}"
        if sign < 0:
            # too high: reaches into the next shell
            allE = np.sort(np.concatenate([P.sphere(x["k"], s.crystal.rec, s.calc.ecut*1.5)[1] for x in s.calc.kpts]))
            hdr = allE[allE > s.calc.ecut][0]+2e-4
        F.wavecar(s.calc, os.path.join(d, name), ecut=hdr)
        o = {**base(s), "kpnames": ",".join(s.names), "fWAV": name}
        r = O.run_cli(cmdline(o), d)
        O.wipe(d, r)
        ctx.check(r.rc != 0, "cutoff of the file", f"{spec['calc']} cutoff {hdr}")
        for form in (None,)+FORMS:
            oo = {**o, "correct_Ecut0": repr(sign*1e-3)}
            if form is None:
                r = O.run_cli(cmdline(oo), d)
            else:
                r = O.run_cli([f"-config={config(oo, form, d)}"], d)
            O.wipe(d, r)
            x = diff(signature(good), signature(r))
            ctx.check(not x, "correct_Ecut0", lambda: f"{spec['calc']} cutoff {hdr} {form}: {x} {r.exc}")
            ctx.step()


def codes(spec, ctx):
    """options of the other codes"""
    s = setup(spec["calc"])
    good = None
    for code in F.CODES:
        d = ctx.tmpdir()
        calc = F.Calc(s.crystal, s.calc.kpts, s.sp, s.calc.ecut, efermi=0.875)
        kw = F.write(calc, code, d)
        o = {"code": code}
        if code == "vasp":
            if s.sp:
                o["spinor"] = True
        elif code == "abinit":
            o["fWFK"] = "x_WFK"
        elif code == "espresso":
            o["prefix"] = "qe"
        else:
            o["prefix"] = "w"; o["Ecut"] = repr(s.calc.ecut)
        for ef in (None, "auto", "AUTO", "0.5", "-1"):
            for more in ({}, {"kpoints": "3,1"}, {"IBstart": "3", "IBend": str(s.n)}, {"writesym": True, "onlysym": True}):
                oo = {**o, **more, "kpnames": "auto"}
                if code in ("vasp", "abinit") and "writesym" in oo:
                    oo["prefix"] = "any"
                if ef is not None:
                    oo["EF"] = ef
                oo = resolve(s, oo)
                r = O.run_cli(cmdline(oo), d)
                O.wipe(d, r)
                t = f"{spec['calc']} {' '.join(cmdline(oo))}"
                ctx.require(r.rc == 0, "run failed", lambda: f"{t}: {r.exc} {r.err[-300:]} {getattr(r, 'tb', '')[-600:]}")
                for form in FORMS if ef in (None, "0.5") else FORMS[:2]:
                    r2 = O.run_cli([f"-config={config(oo, form, d)}"], d)
                    O.wipe(d, r2)
                    x = diff(signature(r), signature(r2))
                    ctx.check(not x, "file and command line", lambda: f"{t} through {form}: {x} {r2.exc}")
                    ctx.step()
                ctx.state(spec["calc"], code, ef, sorted(more))
                ctx.trace()
                if "onlysym" in more:
                    ctx.check([n for n in r.files] == [oo["prefix"]+".sym"], "sym file", lambda: f"{t}: {list(r.files)}")
                    continue
                E0 = 0. if ef is None else (0.875 if code != "vasp" else 0.) if ef.lower() == "auto" else float(ef)
                js = O.parse_json(r.files["irrep-output.json"])
                sub = js["characters and irreps"][0]["subspace"]["k points"]
                kl = klist(s, oo)
                b0, b1 = int(oo.get("IBstart", 1))-1, int(oo.get("IBend", calc.nb))
                ctx.check(len(sub) == len(kl), "k-points", t)
                for q, i in zip(sub, kl):
                    E = calc.kpts[i]["E"][b0:b1]-E0
                    ctx.check(np.shape(q["energies_raw"]) == E.shape and np.abs(q["energies_raw"]-E).max() < 2e-4, "energies", lambda: f"{t}: {q['energies_raw']} {E}")
                ctx.outcome(code, "auto" if ef and ef.lower() == "auto" else ef)
        # the file of the code has to be there
        for k in ("fWFK", "prefix"):
            for v in ("missing", None):
                if k in o:
                    oo = {**o, k: v} if v else {a: b for a, b in o.items() if a != k}
                    r = O.run_cli(cmdline(oo), d)
                    O.wipe(d, r)
                    ctx.check(r.rc != 0 and "irrep-output.json" not in r.files, "missing file", f"{spec['calc']} {oo}")
        if code == "wannier90":
            r = O.run_cli(cmdline({a: b for a, b in o.items() if a != "Ecut"}), d)
            O.wipe(d, r)
            ctx.check(r.rc != 0, "Ecut of wannier90", "accepted without Ecut")
    # tolerance of translations: origin given with few digits
    d = ctx.tmpdir()
    prepare(s, d)
    off = s.shiftUC+np.array([3e-4, -2e-4, 1e-4])
    o = {**base(s), "kpnames": ",".join(s.names), "refUC": options(s)["refUC"][0], "shiftUC": ",".join(f"{x:.10g}" for x in off)}
    for th, ok in ((None, False), ("1e-5", False), ("0.01", True), ("1e-4", False)):
        oo = dict(o) if th is None else {**o, "trans_thresh": th}
        for form in (None,)+FORMS:
            r = O.run_cli(cmdline(oo), d) if form is None else O.run_cli([f"-config={config(oo, form, d)}"], d)
            O.wipe(d, r)
            ctx.check((r.rc == 0) == ok, "trans_thresh", lambda: f"{spec['calc']} trans_thresh={th} {form}: exit {r.rc} {r.exc}")
            ctx.step()


def lists(spec, ctx):
    """lists of symmetries and of k-points in every form: words of up to 3 numbers and ranges"""
    s = setup(spec["calc"])
    d = ctx.tmpdir()
    prepare(s, d)
    expand = lambda w: sum((list(range(int(x.split("-")[0]), int(x.split("-")[-1])+1)) for x in w), [])
    if spec["what"] == "symmetries":
        n = s.nsym
        items = ["1", str(n), "2", f"1-{n}", f"{n//2}-{n}", "2-3", "3-3", str(n-1)]
        o = {**base(s), "onlysym": True, "searchcell": True}
    else:
        n = len(s.names)
        items = ["1", "2", "3", "1-2", "2-3", "1-3", "3-3"]
        o = {**base(s), "IBend": str(s.n), "searchcell": True}
    m = 3 if spec["what"] == "symmetries" else 2
    for j, w in enumerate(x for r in range(1, m+1) for x in itertools.product(items, repeat=r)):
        if len(w) == 3 and j % 5:
            continue
        v, want = ",".join(w), expand(w)
        oo = {**o, spec["what"]: v}
        form = (None,)+FORMS
        form = form[j % len(form)]
        if spec["what"] == "kpoints":
            oo["kpnames"] = ",".join(s.names[i-1] for i in want)
        r = O.run_cli(cmdline(oo), d) if form is None else O.run_cli([f"-config={config(oo, form, d)}"], d)
        O.wipe(d, r)
        t = f"{spec['calc']} {spec['what']}={v} {form or 'command line'}"
        ctx.step(); ctx.trace(); ctx.state(spec, v)
        ctx.require(r.rc == 0, "run", lambda: f"{t}: {r.exc}")
        if spec["what"] == "symmetries":
            got = sorted(O.parse_ops(r.out))
            ctx.check(got == sorted(set(want)), "operations printed", lambda: f"{t}: {got}")
        else:
            js = json.loads(r.files["irrep-output.json"])["characters and irreps"][0]["subspace"]
            got = [(k["kpname"], k["energies_raw"]) for k in js["k points"]]
            ctx.require(len(got) == len(want), "number of k-points", lambda: f"{t}: {len(got)}")
            for (nm, e), i in zip(got, want):
                e = e["data"] if isinstance(e, dict) else e
                ctx.check(nm == s.names[i-1] and np.allclose(e, s.calc.kpts[i-1]["E"][:s.n], atol=1e-5), "k-point", lambda: f"{t}: {nm} {e} instead of number {i}")
    ctx.outcome("lists", spec["what"])


def cases(tier):
    out = []
    names = ("vs", "vp") if tier == "quick" else ("vs", "vp", "vh", "vt")
    for n in names:
        nv = 39                  # number of values of the options
        for i in range(nv):
            out.append(dict(kind="pairs", calc=n, i=i, full=int(tier != "quick")))
            if tier != "quick" and n in ("vs",):
                out += [dict(kind="pairs", calc=n, i=i, full=0, triples=j+1) for j in range(7)]
        out.append(dict(kind="precedence", calc=n))
        out.append(dict(kind="invalid", calc=n))
        out.append(dict(kind="codes", calc=n))
        out.append(dict(kind="lists", calc=n, what="symmetries"))
        out.append(dict(kind="lists", calc=n, what="kpoints"))
    return out


def run_case(spec, ctx):
    if spec["kind"] == "pairs":
        if spec["i"] < len(values(setup(spec["calc"]))):
            pairs(spec, ctx)
    else:
        globals()[spec["kind"]](spec, ctx)
