"""C17 repeatability and side effects: explicit exploration of the states a BandStructure object can reach through its public
calls, histories that contain every ordered pair (triple) of calls, of constructions and of command lines in one process,
compared with fresh objects and fresh processes under several hash seeds and random states."""
import os, sys, json, copy, random, re, subprocess, hashlib, warnings, itertools
import numpy as np
from . import crystals as X, physics as P, formats as F, tables, outputs as O, c15
from .core import quiet, chdir, REPO

LEVEL = "model_checking"
CHUNK = 1
BOUNDS = {"quick": "16 band structures (with and without spin, 4 codes): all states reachable through 45 public calls (closed under every call, hence histories of any length), one history "
                   "containing every ordered pair of calls (2 of them: every ordered triple of 18 calls); 7 constructions in one process, every ordered pair (thorough: triple) of them, with changing random states; 6 command lines in one process, every ordered pair, and in "
                   "fresh processes with 4 hash seeds; arguments of 20 functions",
          "thorough": "20 band structures; triples of calls; triples of constructions; 12 hash seeds"}
ASSUMPTIONS = ["a call may set the labels of irreps only if it is identify_irreps", "results of separate processes are compared to 1e-7"]
THOROUGH_BUDGET = 3*3600


# ---------------------------------------------------------------- comparison

def snap(x, seen=None):
    """digest of everything reachable from x, exact"""
    h = hashlib.sha1()
    seen = set() if seen is None else seen

    def put(*a):
        for s in a:
            h.update(s if isinstance(s, bytes) else str(s).encode())
            h.update(b"|")

    def walk(x, depth=0):
        if x is None or isinstance(x, (bool, int, float, complex, str, np.generic)):
            put(type(x).__name__, repr(x))
        elif isinstance(x, np.ndarray):
            put("array", x.dtype, x.shape, np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x.tolist()))
        elif isinstance(x, dict):
            put("dict", len(x))
            for k, v in x.items():
                walk(k); walk(v)
        elif isinstance(x, (list, tuple, range)):
            put(type(x).__name__, len(x))
            for v in x:
                walk(v)
        elif isinstance(x, (set, frozenset)):
            put("set", sorted(map(repr, x)))
        elif hasattr(x, "__dict__"):
            if id(x) in seen:
                put("seen")
                return
            seen.add(id(x))
            put("object", type(x).__name__)
            known = KNOWN.get(type(x).__name__)
            for k in sorted(vars(x)):
                # private attributes, and attributes that no state has, may hold anything (caches): results are compared instead
                if not k.startswith("_") and (known is None or k in known):
                    put(k); walk(vars(x)[k])
        else:
            put("other", type(x).__name__)
    walk(x)
    return h.hexdigest()


KNOWN = {}       # attributes of the classes, as found in the objects before any call


def learn(x, seen=None):
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, dict):
        for v in x.values():
            learn(v, seen)
    elif isinstance(x, (list, tuple)):
        for v in x:
            learn(v, seen)
    elif hasattr(x, "__dict__") and type(x).__module__.startswith(("irrep", "irreptables")):
        KNOWN.setdefault(type(x).__name__, set()).update(vars(x))
        for v in vars(x).values():
            learn(v, seen)


NUMBER = re.compile(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf")


def close(a, b, tol=1e-7):
    """same result: numbers up to rounding"""
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return True
        wa, wb = NUMBER.split(a), NUMBER.split(b)
        na, nb = NUMBER.findall(a), NUMBER.findall(b)
        f = lambda w: ["".join(ch for ch in x if not ch.isspace() and ch not in "+-") for x in w]
        return len(na) == len(nb) and f(wa) == f(wb) and all(x == y or abs(float(x)-float(y)) <= 1.01e-4+1e-6*abs(float(x)) for x, y in zip(na, nb))
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) == type(b) and a == b or (isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b))
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(close(k, q, tol) and close(a[k], b[q], tol) for k, q in zip(a, b))
    if isinstance(a, (list, tuple, np.ndarray)):
        if isinstance(a, np.ndarray) and a.dtype != object and isinstance(b, np.ndarray) and b.dtype != object:
            if a.shape != b.shape:
                return False
            n = np.isnan(a) == np.isnan(b)
            return bool(n.all()) and bool(((np.abs(a-b) <= tol*(1+np.abs(a))) | np.isnan(a) | (a == b)).all())
        return isinstance(b, (list, tuple, np.ndarray)) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    try:
        return bool(abs(a-b) <= tol*(1+abs(a))) or a == b or (a != a and b != b)
    except TypeError:
        return a == b


def globalstate():
    return snap([os.getcwd(), dict(os.environ), np.geterr(), {k: str(v) for k, v in np.get_printoptions().items()}, repr(random.getstate()), [repr(v) for v in np.random.get_state()], sys.getrecursionlimit()])


def files(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p, d)] = hashlib.sha1(g.read()).hexdigest()
    return out


# ---------------------------------------------------------------- inputs

INPUTS = [(14, 0, "vasp", 1), (14, 1, "espresso", 3), (62, 0, "abinit", 4), (166, 1, "vasp", 3), (166, 1, "wannier90", 2), (198, 0, "wannier90", 5), (176, 1, "abinit", 2),
          (1, 0, "vasp", 0), (2, 1, "vasp", 5), (99, 0, "espresso", 1), (122, 1, "abinit", 4), (146, 0, "abinit", 3), (152, 1, "espresso", 0), (186, 0, "vasp", 2), (194, 1, "vasp", 1),
          (205, 0, "espresso", 3), (216, 1, "wannier90", 4), (220, 0, "abinit", 5), (227, 0, "vasp", 3), (33, 1, "vasp", 2)]


class Input:
    pass


def make(i, d):
    sg, sp, code, st = INPUTS[i]
    b, o, r = c15.SETS[st]
    c = X.crystal(sg, b, o, r, norb=2 if len(X.coset_ops(sg)) < 24 else 1)
    order = np.argsort(c.typ, kind="stable")
    c.pos, c.typ = c.pos[order], [c.typ[j] for j in order]
    from irrep.spacegroup import SpaceGroup
    with quiet():
        S = SpaceGroup((c.lattice, c.pos, c.typ), spinor=False, search_cell=True)
    inv = np.linalg.inv(np.array(S.refUC, float))
    tk = tables.table(sg, sp).kpoints
    x = Input()
    for nk in (3, 2, 1):
        pick = [tk[0], tk[len(tk)//2], tk[-1]][:nk]
        x.calc = O.complete_calc(c, [tables.snap(t["k"]) @ inv for t in pick], bool(sp), extra=3, npw=22, efermi=0.75)
        if x.calc is not None:
            break
    x.names = [t["name"] for t in pick]
    x.d, x.code, x.spinor = d, code, bool(sp)
    x.kw = F.write(x.calc, code, d)
    x.nsym = len(S.symmetries)
    return x


def build(x, **more):
    from irrep.bandstructure import BandStructure
    with chdir(x.d):
        return BandStructure(**{**dict(calculate_traces=True, search_cell=True, degen_thresh=1e-4, IBend=x.calc.n, EF="0.75", save_wf=True), **x.kw, **more})


# ---------------------------------------------------------------- public calls

def sub_result(q):
    """gauge invariant content of a subspace"""
    return [[kp.ik0, kp.num_bands, np.array(kp.Energy_mean), np.array(kp.Energy_raw), np.array(kp.char), np.array(kp.char_refUC), getattr(kp, "irreps", None)] for kp in q.kpoints]


def wcc_invariant(w):
    return np.poly(np.exp(2j*np.pi*np.array(w)))


def operations(x, bs0):
    """name -> function(bs): result"""
    ops = {}
    nm = list(x.names)
    ops["identify"] = lambda b: b.identify_irreps(nm)
    ops["identify none"] = lambda b: b.identify_irreps(None)
    for f in ("write_characters", "write_irrepsfile", "write_trace", "write_plotfile"):
        ops[f] = lambda b, f=f: getattr(b, f)()
    ops["json"] = lambda b: b.json()
    ops["json names"] = lambda b: b.json(nm)
    for f in ("gap_direct", "gap_indirect", "num_bandinvs", "num_bands", "num_k"):
        ops[f] = lambda b, f=f: getattr(b, f)
    ops["KPOINTSline"] = lambda b: b.KPOINTSline()
    kpred, sc = [[0., 0, 0], [0.01, 0.02, 0], [0.02, 0.03, 0.01]], np.array([[1, 0, 0], [0, 2, 0], [0, 0, 1]])
    ops["KPOINTSline args"] = lambda b: b.KPOINTSline(kpred=kpred, supercell=sc)
    ops["zakphase"] = lambda b: [np.exp(1j*b.zakphase()[0]), b.zakphase()[1:]]
    ops["wcc"] = lambda b: wcc_invariant(b.wcc())
    common = sorted(set.intersection(*[{s.ind for s in kp.little_group} for kp in bs0.kpoints])-{1})
    inds = common[:1]+common[-1:]+[i for i in range(2, x.nsym+1) if i not in common][:1]
    for i in dict.fromkeys([1]+inds):
        for kr in (True, False):
            def sep(b, i=i, kr=kr):
                return {complex(np.round(w, 6)): sub_result(q) for w, q in b.Separate(i, degen_thresh=1e-4, groupKramers=kr).items()}
            ops[f"Separate {i} {kr}"] = sep
            def sepuse(b, i=i, kr=kr):
                out = []
                for w, q in b.Separate(i, degen_thresh=1e-4, groupKramers=kr).items():
                    if i != 1 and q is not b:
                        q.identify_irreps(None)
                    q.write_characters()
                    out.append(q.json(None))
                return [json_invariant(j) for j in out]
            if i != 1:
                ops[f"Separate and use {i} {kr}"] = sepuse
    sg = lambda b: b.spacegroup
    ops["show"] = lambda b: sg(b).show()
    sel = [1, 2]
    ops["show some"] = lambda b: sg(b).show(sel)
    ops["spacegroup json"] = lambda b: sg(b).json()
    ops["spacegroup json some"] = lambda b: sg(b).json(symmetries=sel)
    ops["template"] = lambda b: sg(b).str()
    ops["spacegroup trace"] = lambda b: sg(b).write_trace()
    ops["sym file"] = lambda b: sg(b).write_sym_file("out.sym", alat=2.5)
    ops["table"] = lambda b: sg(b).get_irreps_from_table(nm[0], b.kpoints[0].k)
    ops["match"] = lambda b: sg(b).match_symmetries(signs=b.spinor)
    for f in ("vecs_centering", "vecs_inv_centers"):
        ops[f] = lambda b, f=f: getattr(sg(b), f)()
    def one(f):
        return lambda b: [getattr(s, f)(*a) for s in sg(b).symmetries for a in [(sg(b).refUC, sg(b).shiftUC)]]
    for f in ("show", "str", "str2", "json_dict", "translation_refUC"):
        ops["operation "+f] = one(f)
    ops["operation rotation_refUC"] = lambda b: [s.rotation_refUC(sg(b).refUC) for s in sg(b).symmetries]
    M = np.diag([1, 1, 2])
    k0 = np.array(bs0.kpoints[0].k) @ np.linalg.inv(M.T)
    ops["unfold"] = lambda b: b.kpoints[0].unfold(M, k0)
    ops["unfold loose"] = lambda b: b.kpoints[0].unfold(M, k0, degen_thresh=0.5)
    ops["rho_spin"] = lambda b: [[a, e, E, [np.trace(m) for m in mm]] for a, e, E, mm in b.kpoints[-1].get_rho_spin()]
    ops["overlap"] = lambda b: np.abs(np.linalg.svd(b.kpoints[0].overlap(b.kpoints[-1]))[1])
    ops["k_close"] = lambda b: bool(b.kpoints[0].k_close_mod1(k0))
    ops["kpoint trace"] = lambda b: b.kpoints[0].write_trace()
    ops["kpoint json"] = lambda b: b.kpoints[0].json()
    return ops, dict(names=nm, kpred=kpred, supercell=sc, M=M, k0=k0, select=sel)


def json_invariant(j):
    return json.loads(json.dumps(j, default=lambda o: o.tolist() if hasattr(o, "tolist") and not np.iscomplexobj(o) else str(np.round(np.array(o)+0, 6)+0.0)))


def call(op, b, d):
    """result of a call: value, text printed, files written; or the error"""
    before = set(os.listdir(d))
    with chdir(d), quiet() as q:
        try:
            val = op(b)
        except Exception as e:
            val = f"{type(e).__name__}: {str(e)[:200]}"
    txt = q.text() if callable(q.text) else q.text
    out = {}
    for n in sorted(set(os.listdir(d))-before):
        with open(os.path.join(d, n)) as f:
            out[n] = f.read()
        os.remove(os.path.join(d, n))
    return [val, txt, out]


def debruijn(n, k):
    """cyclic word over range(n) containing every word of length k once"""
    a = [0]*n*k
    seq = []

    def db(t, p):
        if t > k:
            if k % p == 0:
                seq.extend(a[1:p+1])
        else:
            a[t] = a[t-p]
            db(t+1, p)
            for j in range(a[t-p]+1, n):
                a[t] = j
                db(t+1, t)
    sys.setrecursionlimit(10000)
    db(1, 1)
    sys.setrecursionlimit(1000)
    return seq+seq[:k-1]


def calls(spec, ctx):
    d = ctx.tmpdir()
    x = make(spec["input"], d)
    more = {}
    if spec["input"] % 2:       # k-points in another order than in the file
        more["kplist"] = list(range(len(x.names), 0, -1))
        x.names = x.names[::-1]
    with quiet():
        bs0 = build(x, **more)
    ops, args = operations(x, bs0)
    names = list(ops)
    scratch = ctx.tmpdir()
    infiles = files(d)
    argsnap = snap(args)
    # states reachable: by identification only. 0: not yet; 1: names; 2: none
    mode = lambda m, n: 1 if n == "identify" else 2 if n == "identify none" else m
    objs = {0: copy.deepcopy(bs0), 1: copy.deepcopy(bs0), 2: copy.deepcopy(bs0)}
    with quiet():
        objs[1].identify_irreps(x.names); objs[2].identify_irreps(None)
    KNOWN.clear()
    learn(list(objs.values()))
    fresh = snap(bs0)
    want_state = {m: snap(o) for m, o in objs.items()}
    ctx.check(want_state[0] == fresh, "harness", "copy of the object")
    ref = {(m, n): call(ops[n], copy.deepcopy(objs[m]), scratch) for m in objs for n in names}
    g0 = globalstate()
    tag = f"{INPUTS[spec['input']]}"

    def step(b, m, n, held, hist):
        r = call(ops[n], b, scratch)
        m2 = mode(m, n)
        t = f"{tag} after {hist[-4:]}: {n}"
        ctx.step()
        ctx.check(close(r, ref[m, n]), "result depends on the history", lambda: f"{t}: {str(r)[:300]} expected {str(ref[m, n])[:300]}")
        s = snap(b)
        ctx.state(tag, s)
        ctx.check(s == want_state[m2], "object changed by a call", lambda: f"{t}: {changes(b, objs[m2])}")
        ctx.check(snap(args) == argsnap, "arguments changed by a call", lambda: t)
        for (n1, v1, s1) in held:
            ctx.check(snap(v1) == s1, "earlier result changed by a call", lambda: f"{t}: result of {n1}")
        return m2, (n, r[0], snap(r[0]))

    # reachable states, breadth first, each expanded by every call on the real object
    todo, seen = [0], {0}
    while todo:
        m = todo.pop(0)
        for n in names:
            b = copy.deepcopy(objs[m])
            m2, _ = step(b, m, n, [], [f"state {m}"])
            if m2 not in seen:
                seen.add(m2); todo.append(m2)
    ctx.check(globalstate() == g0, "global state changed", tag)
    # one history with all words of the given length, on one object; results of the last calls are kept
    k = spec["k"]
    if k == 2:
        word = debruijn(len(names), 2)
    else:
        cheap = [i for i, n in enumerate(names) if n in ("identify", "identify none", "write_characters", "json names", "zakphase", "wcc", "unfold", "rho_spin", "write_trace", "show", "template", "overlap", "write_plotfile")
                 or n.startswith("Separate and")][:18]
        word = [cheap[i] for i in debruijn(len(cheap), 3)]
    b, m, held, hist = copy.deepcopy(objs[0]), 0, [], []
    for i in word:
        m, h = step(b, m, names[i], held, hist)
        hist.append(names[i])
        held = (held+[h])[-6:]
    ctx.trace(1+len(seen))
    ctx.check(files(d) == infiles, "input files changed", tag)
    ctx.check(globalstate() == g0, "global state changed", tag)
    ctx.outcome("calls", len(names), "states", len(seen), INPUTS[spec["input"]][2], "spinor" if x.spinor else "scalar")


def changes(a, b):
    out = [k for k in sorted(set(vars(a)) | set(vars(b))) if snap(vars(a).get(k)) != snap(vars(b).get(k))]
    for i, (p, q) in enumerate(zip(a.kpoints, b.kpoints)):
        out += [f"kpoints[{i}].{k}" for k in sorted(set(vars(p)) | set(vars(q))) if snap(vars(p).get(k)) != snap(vars(q).get(k))]
    p, q = a.spacegroup, b.spacegroup
    out += [f"spacegroup.{k}" for k in sorted(set(vars(p)) | set(vars(q))) if snap(vars(p).get(k)) != snap(vars(q).get(k))]
    return out


# ---------------------------------------------------------------- constructions in one process

BUILDS = [(0, {}), (3, {}), (4, {}), (1, {}), (2, {"IBstart": 2}), (5, {"kplist": [1]}), (6, {"search_cell": False})]


def analysis(x, more):
    with quiet() as q:
        b = build(x, **more)
        nm = [x.names[kp.ik0-1] for kp in b.kpoints]
        if more.get("search_cell", True):
            b.identify_irreps(nm)
        else:
            b.identify_irreps(None)
    return b, results(b, nm)


def results(b, nm):
    with quiet() as q:
        b.write_characters(); b.spacegroup.show()
        j = [b.json(nm), b.spacegroup.json(), b.spacegroup.str(), np.array(b.spacegroup.refUC), np.array(b.spacegroup.shiftUC)]
    return json_plain([j, q.text() if callable(q.text) else q.text])


def json_plain(j):
    def conv(o):
        if isinstance(o, (complex, np.complexfloating)):
            return [float(o.real), float(o.imag)]
        if isinstance(o, np.ndarray):
            return [conv(v) for v in o.tolist()] if o.ndim else conv(o.item())
        if isinstance(o, dict):
            return {str(k): conv(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [conv(v) for v in o]
        if isinstance(o, np.generic):
            return conv(o.item())
        return o
    return conv(j)


CHILD = """
import sys, json
sys.path.insert(0, {verif!r}); sys.path.insert(0, {repo!r}); sys.path.insert(1, {repo!r}+"/irreptables")
import warnings; warnings.simplefilter("ignore")
from mc import c17
import numpy as np, random
np.random.seed({seed}); random.seed({seed})
x = c17.make({i}, {d!r})
b, r = c17.analysis(x, {more!r})
json.dump(r, open({out!r}, "w"))
"""


def fresh_process(i, more, d, seed, hashseed):
    out = os.path.join(d, f"res-{hashseed}.json")
    code = CHILD.format(verif=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), repo=REPO, seed=seed, i=i, d=d, more=more, out=out)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[-1500:])
    with open(out) as f:
        res = json.load(f)
    os.remove(out)
    return res


def builds(spec, ctx):
    first, n = spec["first"], len(BUILDS)
    xs = [make(i, ctx.tmpdir()) for i, _ in BUILDS]
    ref = [fresh_process(i, more, ctx.tmpdir(), 100+j, 1+j) for j, (i, more) in enumerate(BUILDS)]
    kl = [copy.deepcopy(m) for _, m in BUILDS]
    # all histories of the given length that begin with `first`
    prev = None
    if spec["k"] == 3:
        word = [w for rest in itertools.product(range(n), repeat=2) for w in (first,)+rest]
    else:
        word = [w for b in range(n) for w in (first, b)]
    for s, j in enumerate(word):
        np.random.seed(7*s+first); random.seed(s)
        g = globalstate()
        inf = files(xs[j].d)
        b, r = analysis(xs[j], BUILDS[j][1])
        t = f"construction {j} after {word[max(0, s-3):s]}"
        ctx.step()
        ctx.check(close(r, ref[j]), "result depends on earlier constructions", lambda: f"{t}: {difference(r, ref[j])}")
        ctx.check(globalstate() == g, "global state changed", t)
        ctx.check(files(xs[j].d) == inf, "input files changed", t)
        ctx.check(repr(kl[j]) == repr(BUILDS[j][1]), "arguments changed by a call", t)
        if prev is not None:
            pj, pb, ps = prev
            ctx.check(snap(pb) == ps, "another object changed", lambda: f"{t}: object {pj}")
            nm = [xs[pj].names[kp.ik0-1] for kp in pb.kpoints]
            ctx.check(close(results(pb, nm), ref[pj]), "results of another object changed", lambda: f"{t}: object {pj}")
        prev = (j, b, snap(b))
        ctx.state("build", word[max(0, s-spec["k"]+1):s+1])
    ctx.trace(len(word))
    ctx.outcome("constructions")


def difference(a, b, path=""):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not close(x, y):
                return difference(x, y, f"{path}[{i}]")
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        for k in a:
            if not close(a[k], b[k]):
                return difference(a[k], b[k], f"{path}[{k}]")
    return f"{path}: {str(a)[:200]} and {str(b)[:200]}"


# ---------------------------------------------------------------- command lines

def command(x, extra):
    a = ["-code="+x.code, "-searchcell", f"-IBend={x.calc.n}", "-EF=0.75", "-degenThresh=1e-4"]
    for k, v in x.kw.items():
        if k in ("spinor",):
            if v:
                a.append("-spinor")
        elif k == "Ecut":
            a.append(f"-Ecut={v!r}")
        elif k in ("prefix", "fWAV", "fPOS", "fWFK"):
            a.append(f"-{k}={v}")
    return a+extra


def commands(spec, ctx):
    xs = [make(i, ctx.tmpdir()) for i in spec["inputs"]]
    cl = []
    for j, x in enumerate(xs):
        cl.append((x, command(x, ["-kpnames="+",".join(x.names), "-plotbands"])))
        if j == 0:
            cl.append((x, command(x, ["-ZAK", "-WCC", "-isymsep=1"])))
            cl.append((x, command(x, ["-kpnames="+",".join(x.names), "-kpoints="+",".join(str(i+1) for i in range(len(x.names))), "-symmetries=1,2"])))
    ref = []
    for x, a in cl:
        inf = files(x.d)
        per = []
        for hs in spec["seeds"]:
            before = set(os.listdir(x.d))
            env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=f"{REPO}:{REPO}/irreptables", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            r = subprocess.run([sys.executable, "-W", "ignore", "-c", "import irrep.cli as c; c.cli.main(prog_name='irrep')"]+a, cwd=x.d, env=env, capture_output=True, text=True)
            out = {}
            for n in sorted(set(os.listdir(x.d))-before):
                with open(os.path.join(x.d, n)) as f:
                    out[n] = f.read()
                os.remove(os.path.join(x.d, n))
            ctx.require(r.returncode == 0, "run failed", lambda: f"{a}: {r.stderr[-400:]}")
            per.append([text(r.stdout), out])
            ctx.step()
            ctx.state("process", INPUTS[0], a, hs)
        for hs, p in zip(spec["seeds"][1:], per[1:]):
            ctx.check(close(p, per[0]), "result depends on the hash seed", lambda: f"{a}: seeds {spec['seeds'][0]} and {hs}: {difference(p, per[0])}")
        ref.append(per[0])
        ctx.check(files(x.d) == inf, "input files changed", f"{a}")
    word = debruijn(len(cl), spec["k"])
    for s, j in enumerate(word):
        x, a = cl[j]
        np.random.seed(s); random.seed(s)
        r = O.run_cli(a, x.d, memo=False)
        O.wipe(x.d, r)
        p = [text(r.out), r.files]
        t = f"{a} after {word[max(0, s-2):s]}"
        ctx.check(r.rc == 0, "run failed", lambda: f"{t} {r.exc}")
        ctx.check(close(p, ref[j]), "result depends on earlier runs", lambda: f"{t}: {difference(p, ref[j])}")
        ctx.step()
        ctx.state("run", word[max(0, s-1):s+1])
    ctx.trace(len(word))
    ctx.outcome("command lines")


def text(s):
    return s


# ---------------------------------------------------------------- arguments of functions

def pure(spec, ctx):
    """arguments given by the caller are unchanged, and the same call gives the same answer again"""
    from irrep import gvectors as G, spacegroup as SG, kpoint as K, utility as U
    from irrep.bandstructure import BandStructure
    import irreptables
    d = ctx.tmpdir()
    x = make(spec["input"], d)
    c, sp = x.calc.c if hasattr(x.calc, "c") else x.calc.crystal, x.spinor
    tests = []
    def run(name, f, *a, **k):
        s = snap([a, k])
        with quiet(), chdir(d):
            r1 = f(*a, **k)
            ctx.check(snap([a, k]) == s, "arguments changed by a call", lambda: f"{name} {spec}: argument {[i for i, (p, q) in enumerate(zip(a, acopy)) if snap(p) != snap(q)]} {[n for n in k if snap(k[n]) != snap(kcopy[n])]}")
            s1 = snap(r1) if not callable(r1) else None
            r2 = f(*a, **k)
        ctx.check(s1 == snap(r1), "earlier result changed by a call", f"{name} {spec}")
        ctx.check(close(plain(r1), plain(r2)), "result of the same call", f"{name} {spec}")
        ctx.step(2)
        ctx.state(name, spec["input"])
        return r1
    acopy, kcopy = (), {}

    def plain(o):
        if hasattr(o, "__dict__") and not isinstance(o, (list, dict, np.ndarray)):
            return {k: plain(v) for k, v in vars(o).items()}
        if isinstance(o, (list, tuple)):
            return [plain(v) for v in o]
        return o

    def runc(name, f, *a, **k):
        nonlocal acopy, kcopy
        acopy, kcopy = copy.deepcopy(a), copy.deepcopy(k)
        return run(name, f, *a, **k)
    lattice, pos, typ = np.array(c.lattice), np.array(c.pos), list(c.typ)
    S = runc("SpaceGroup", SG.SpaceGroup, (lattice, pos, typ), spinor=sp, search_cell=True)
    S = runc("SpaceGroup", SG.SpaceGroup, [lattice, pos, typ], spinor=sp, search_cell=False, refUC=np.array(S.refUC).T, shiftUC=np.array(S.shiftUC))
    op = S.symmetries[-1]
    runc("SymmetryOperation", SG.SymmetryOperation, np.array(op.rotation), np.array(op.translation)-1.25, lattice, ind=3, spinor=sp)
    for f in ("show", "str", "str2", "json_dict"):
        runc("SymmetryOperation."+f, getattr(op, f), refUC=np.array(S.refUC), shiftUC=np.array(S.shiftUC))
    runc("SymmetryOperation.rotation_refUC", op.rotation_refUC, np.array(S.refUC))
    runc("SymmetryOperation.translation_refUC", op.translation_refUC, np.array(S.refUC), np.array(S.shiftUC))
    S.write_sym_file(os.path.join(d, "a.sym"), alat=1.7)
    rot, tr = runc("read_sym_file", SG.read_sym_file, os.path.join(d, "a.sym"))
    runc("cart_to_crystal", SG.cart_to_crystal, rot, tr, lattice, 1.7)
    t = runc("get_irreps_from_table", S.get_irreps_from_table, x.names[0], np.array(x.calc.kpts[0]["k"]))
    q = x.calc.kpts[0]
    k = np.array(q["k"], float)
    rec = np.array(c.rec)
    runc("calc_gvectors", G.calc_gvectors, k, rec, x.calc.ecut, Ecut1=x.calc.ecut*0.6, spinor=sp)
    from irrep.readfiles import Hartree_eV
    from irrep.utility import BOHR
    g, C = np.array(q["g"]), np.array(q["C"], complex)
    Eh = Hartree_eV*(np.linalg.norm((g+k) @ rec*BOHR, axis=1)**2/2).max()+1e-3
    W, ig = runc("sortIG", G.sortIG, 1, g, k, C, rec*BOHR, Eh, Eh*0.7, sp)
    W, ig = runc("sortIG", G.sortIG, 1, g, k, C, rec*BOHR, Eh, Eh, sp)
    lg = [s for s in S.symmetries if np.allclose(np.linalg.inv(s.rotation).T @ k-k, np.round(np.linalg.inv(s.rotation).T @ k-k), atol=1e-5)]
    o = lg[-1]
    A, T, U2 = np.array(o.rotation), np.array(o.translation), np.array(o.spinor_rotation)
    runc("transformed_g", G.transformed_g, k, ig, rec, A)
    runc("symm_eigenvalues", G.symm_eigenvalues, k, rec, W, ig, A, U2, T, sp)
    runc("symm_matrix", G.symm_matrix, k, rec, W, ig, A, U2, T, sp)
    E, W = np.array(q["E"], float)[:x.calc.n], W[:x.calc.n].copy()
    for scale in (1., 2.5):
        kp = runc("Kpoint", K.Kpoint, ik=0, num_bands=len(E), RecLattice=rec, symmetries_SG=S.symmetries, calculate_traces=True, spinor=sp, kpt=k, WF=scale*W, Energy=E, ig=ig, upper=np.nan, degen_thresh=1e-4,
                  refUC=np.array(S.refUC), shiftUC=np.array(S.shiftUC), symmetries_tables=S.symmetries_tables, symmetries=[s.ind for s in lg])
    runc("Kpoint.identify_irreps", kp.identify_irreps, t)
    runc("Kpoint.copy_sub", kp.copy_sub, E=np.array(E[::-1]), WF=np.array(kp.WF[::-1]), inds=np.repeat(np.arange(len(kp.degeneracies)), kp.degeneracies)[::-1].copy())
    runc("Kpoint.unfold", kp.unfold, np.diag([2, 1, 1]), k @ np.linalg.inv(np.diag([2., 1, 1])))
    runc("Kpoint.k_close_mod1", kp.k_close_mod1, np.array([0.1, 0.2, 0.3]))
    runc("Kpoint.Separate", lambda s: sorted(np.round(list(kp.Separate(s, 1e-4)), 6).tolist(), key=str), o)
    runc("IrrepTable", irreptables.IrrepTable, S.number, sp)
    kl, nm = [1], [x.names[0]]
    for ref in (None, np.array(S.refUC).T):
        b = runc("BandStructure", BandStructure, kplist=kl, calculate_traces=True, search_cell=ref is None, refUC=ref, shiftUC=None if ref is None else np.array(S.shiftUC), IBend=x.calc.n, EF="0.75", **x.kw)
        b = runc("BandStructure", BandStructure, kplist=np.array([1]), calculate_traces=True, search_cell=True, refUC=ref, shiftUC=None if ref is None else np.array(S.shiftUC), IBend=x.calc.n, EF=0.75, **x.kw)
    runc("BandStructure.identify_irreps", b.identify_irreps, nm)
    runc("BandStructure.json", b.json, nm)
    runc("BandStructure.KPOINTSline", b.KPOINTSline, kpred=np.array([[0., 0, 0], [0.01, 0, 0]]), supercell=np.diag([1, 1, 2]))
    runc("str2list", U.str2list, "1,3-5")
    ctx.trace()
    ctx.outcome("arguments", "spinor" if sp else "scalar", x.code)


def cases(tier):
    out = []
    if tier == "quick":
        out += [dict(kind="builds", first=i, k=2) for i in range(len(BUILDS))]
        out += [dict(kind="commands", inputs=[0, 3, 2, 1], seeds=[0, 1, 2, 4242], k=2)]
        out += [dict(kind="calls", input=i, k=2) for i in (14, 13, 18, 16)]+[dict(kind="calls", input=i, k=2) for i in range(12)]+[dict(kind="calls", input=i, k=3) for i in (0, 1)]
        out += [dict(kind="pure", input=i) for i in range(len(INPUTS))]
    else:
        out += [dict(kind="builds", first=i, k=3) for i in range(len(BUILDS))]
        out += [dict(kind="commands", inputs=[i, i+1, i+2, i+3], seeds=list(range(12)), k=2) for i in range(0, 17, 4)]
        out += [dict(kind="calls", input=i, k=k) for i in range(len(INPUTS)) for k in (2, 3)]
        out += [dict(kind="pure", input=i) for i in range(len(INPUTS))]
    return out


def run_case(spec, ctx):
    globals()[spec["kind"]](spec, ctx)
