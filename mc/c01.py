"""C01: reported symmetry operations are exactly those of the crystal, consistently described."""
import re
import numpy as np
from .core import quiet
from .crystals import *
from irrep.spacegroup import SpaceGroup, SymmetryOperation

LEVEL = "model_checking"
BOUNDS = {"quick": "230 space groups x (scalar,spinor) x 5 (basis,origin,orientation,handedness) settings + centred conventional cells; "
                   "all operations of the 7 holohedries x 8 bases x 48 orientations; 21 structures x all decorations with 2 species",
          "thorough": "230 space groups x (scalar,spinor) x 8 bases x 6 origins x 4 orientations, both hands; 96 orientations"}
ASSUMPTIONS = ["reference operations come from spglib's space-group database; the crystal is built from them in two general orbits"]
CHUNK = 8


def cases(tier):
    if tier == "quick":
        sets = [(0, 0, 0, 1), (3, 3, 1, 1), (1, 2, 2, 1), (6, 4, 3, -1), (7, 5, 1, -1)]
    else:
        sets = [(b, o, r, 1) for b in range(8) for o in range(6) for r in range(4)] + [(b, (b*5+1) % 6, b % 4, -1) for b in range(8)]
    for h in (1, 2, 47, 123, 191, 166, 221, 168, 75, 195, 143):
        for b in range(8):
            for o in range(6 if tier == "quick" else 12):
                yield dict(kind="ops", sg=h, basis=b, block=o)
    for s in sets:
        for sg in range(1, 231):
            for sp in (False, True):
                yield dict(kind="sg", sg=sg, spinor=sp, basis=s[0], origin=s[1], rot=s[2], hand=s[3])
    for sg in range(1, 231):
        if symbol(sg)[0] != 'P':
            yield dict(kind="conv", sg=sg, rot=1)


    for i, name in enumerate(STRUCTURES):
        for j, t in enumerate(decorations(name)):
            for k in range(1 if tier == "quick" else 8):
                yield dict(kind="deco", name=name, typ=list(t), spinor=bool((i+j+k) % 2), basis=(i+j+k) % 8, origin=j % 6, rot=j % 4)


def orientations(block):
    """block of 8 orientations out of a fixed dense list; exact axes first (degenerate numerics)"""
    out = []
    for i in range(8):
        n = block*8+i
        if n < 24:    # proper rotations of the cube
            out.append(cart(*_cube()[n]))
        else:
            m = n - 24
            ax = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 0), (1, 1, 1), (1, 2, 3), (-2, 1, 5)][m % 8]
            out.append(rotation(ax, [0.1, 1.0, np.pi/4, 2.0, 3.0, np.pi/6, 2.5, 1e-6, 0.33][(m // 8) % 9]))
    return out


def _cube():
    return [(R, np.eye(3)) for R, t in coset_ops(221) if np.linalg.det(R) > 0]


def check_op(ctx, R, lat, spinor, op, tag):
    """one reported operation against the isometry R"""
    Rc = cart(R, lat)
    inv = np.linalg.det(Rc) < 0
    P = -Rc if inv else Rc
    ctx.check(bool(op.inversion) == inv, "inversion-flag", lambda: f"{tag} R={R.tolist()} inversion={op.inversion}")
    n = np.array(op.axis, float)
    if np.allclose(P, np.eye(3), atol=1e-6):     # the axis of the identity is undefined
        ok = abs(np.angle(np.exp(1j*op.angle))) < 1e-5
    else:
        ok = abs(np.linalg.norm(n)-1) < 1e-5 and np.allclose(rotation(n, op.angle), P, atol=2e-5)
    ctx.check(ok, "axis-angle", lambda: f"{tag} R={R.tolist()} axis={n} angle={op.angle} cart={P.tolist()}")
    S = np.array(op.spinor_rotation)
    ctx.check(S.shape == (2, 2) and np.allclose(S @ S.conj().T, np.eye(2), atol=1e-6) and abs(np.linalg.det(S)-1) < 1e-6,
              "spin-unitary", lambda: f"{tag} R={R.tolist()} S={S.tolist()}")
    ctx.check(np.allclose(adjoint(S), P, atol=2e-5), "spin-rotation", lambda: f"{tag} R={R.tolist()} S={S.tolist()}")
    a = re.fullmatch(r'\s*(-?\d+)(?:/(\d+))?\s*(pi)?\s*', op.angle_str)
    val = None
    if a:
        val = float(a.group(1))/float(a.group(2) or 1)*(1 if a.group(3) else 0 if float(a.group(1)) == 0 else np.nan)
    ctx.check(val is not None and abs(val*np.pi-op.angle) < 1e-5, "angle-text", lambda: f"{tag} {op.angle_str!r} vs {op.angle}")
    return S


def closure(ctx, ops, key="closure"):
    Rs = np.array([o.rotation for o in ops]); ts = np.array([o.translation for o in ops]); Ss = np.array([o.spinor_rotation for o in ops])
    code = {}
    for i, R in enumerate(Rs):
        code.setdefault(R.tobytes(), []).append(i)
    for i in range(len(ops)):
        P = np.array([Rs[i] @ R for R in Rs]).astype(Rs.dtype)
        T = ts[i] + ts @ Rs[i].T
        for j in range(len(ops)):
            c = [k for k in code.get(np.ascontiguousarray(P[j]).tobytes(), []) if same_mod1(ts[k], T[j], 1e-4)]
            ctx.step()
            if len(c) != 1:
                ctx.fail(key, f"product of operations {i+1},{j+1} found {len(c)} times"); return
            X = Ss[i] @ Ss[j]
            if min(np.abs(X-Ss[c[0]]).max(), np.abs(X+Ss[c[0]]).max()) > 1e-5:
                ctx.fail("spin-product", f"S({i+1})S({j+1}) != +-S({c[0]+1})"); return


def maps_onto_itself(lat, pos, typ, R, T, tol=1e-4):
    new = pos @ R.T + T
    for x, t in zip(new, typ):
        d = pos - x
        d = np.abs(d-np.round(d)).max(axis=1)
        j = np.argmin(d)
        if d[j] > tol or typ[j] != t:
            return False
    return True


def parse_show(text):
    """operations as printed"""
    out = []
    for blk in re.split(r'\n ### (?=\d+ \n)', text)[1:]:
        d = dict(ind=int(blk.split()[0]))
        rows = re.findall(r'\|((?:\s*-?\d+){3}) \|', blk)
        n = 2 if '(refUC)' in blk.split('gk =')[0] else 1
        rows = [list(map(int, r.split())) for r in rows]
        d['R'] = np.array(rows[0:3*n:n][:3])
        d['Rref'] = np.array(rows[1:3*n:n][:3]) if n == 2 else None
        ks = re.findall(r'gk = \[([^\]]*)\]', blk)
        d['gk'] = [parse_k(k) for k in ks]
        d['t'] = np.array(re.search(r'translation         :  \[([^\]]*)\]', blk).group(1).split(), float)
        m = re.search(r'translation \(refUC\) :  \[([^\]]*)\]', blk)
        d['tref'] = np.array(m.group(1).split(), float) if m else None
        m = re.search(r'axis: \[([^\]]*)\] ; angle = (.*), inversion : (\w+)', blk)
        d['axis'] = np.array(m.group(1).split(), float); d['angle'] = m.group(2); d['inv'] = m.group(3) == 'True'
        S = re.findall(r'\|((?:\s*-?\d+\.\d+[+-]\d+\.\d+j){2}) \|', blk)
        S = [[complex(re.sub(r'\s', '', z)) for z in re.findall(r'-?\d+\.\d+[+-]\d+\.\d+j', r)] for r in S]
        d['S'] = np.array(S[:2]) if S else None
        d['Sref'] = np.array(S[2:4]) if len(S) == 4 else None
        out.append(d)
    return out


def parse_k(s):
    M = np.zeros((3, 3))
    for i, e in enumerate(s.split(',')):
        for m in re.finditer(r'([+-]?)(\d*\.?\d*(?:e-?\d+)?)k([xyz])', e.replace(' ', '')):
            M[i, 'xyz'.index(m.group(3))] += float(m.group(1)+(m.group(2) or '1'))
    return M


def run_case(spec, ctx):
    if spec["kind"] == "ops":
        c = crystal(spec["sg"], basis=spec["basis"])
        for O in orientations(spec["block"]):
            lat = c.lattice @ O.T
            for R, T in c.ops:
                for Tx in (T, T + np.array([1-1e-7, -1/3, 2/3])):
                    op = SymmetryOperation(R.copy(), Tx.copy(), lat, ind=1, spinor=True)
                    check_op(ctx, R, lat, True, op, "direct")
                    ctx.step()
                    ctx.check(same_mod1(op.translation, Tx, 2e-5) and (op.translation > -1e-9).all() and (op.translation < 1).all(),
                              "translation", lambda: f"{Tx} -> {op.translation}")
                    ctx.check(np.array_equal(op.rotation, R), "rotation")
            ctx.state("ops", spec["sg"], spec["basis"], np.round(lat, 6).tolist())
        ctx.trace(); ctx.outcome("ops", spec["sg"])
        return
    if spec["kind"] == "conv":
        sg = spec["sg"]
        lat = lattice(sg) @ ROTS[spec["rot"]].T
        ops = conv_ops(sg)
        pos, typ = [], []
        for it, x in enumerate(ORBITS[0]):
            for R, t in ops:
                pos.append((R @ np.array(x)+t) % 1); typ.append(it+1)
        pos = np.array(pos); spinor = False
    elif spec["kind"] == "deco":
        c = decorated(spec["name"], spec["typ"], basis=spec["basis"], origin=spec["origin"], rot=spec["rot"])
        lat, pos, typ = c.cell
        ops = c.ops; spinor = spec["spinor"]; sg = None
    else:
        c = crystal(spec["sg"], basis=spec["basis"], origin=spec["origin"], rot=spec["rot"], hand=spec["hand"])
        lat, pos, typ = c.cell
        ops = c.ops; spinor = spec["spinor"]; sg = spec["sg"]
    ctx.state(spec)
    with quiet() as q:
        s = SpaceGroup((lat, pos, typ), spinor=spinor, search_cell=False)
    ctx.step()
    ctx.check((sg is None or s.number == sg) and s.name == symbol(s.number), "group-number", f"{s.number} {s.name}")
    sg = s.number
    ctx.check(s.order == len(ops) and len(s.symmetries) == len(ops), "order", f"{s.order} {len(s.symmetries)} expected {len(ops)}")
    left = list(range(len(ops)))
    for op in s.symmetries:
        m = [i for i in left if np.array_equal(ops[i][0], op.rotation) and same_mod1(ops[i][1], op.translation, 1e-4)]
        ctx.check(len(m) == 1, "operation-set", lambda: f"reported operation {op.rotation.tolist()} {op.translation} is not an operation of the crystal (or repeated)")
        if m:
            left.remove(m[0])
        check_op(ctx, op.rotation, lat, spinor, op, "group")
        ctx.check(maps_onto_itself(lat, pos, typ, op.rotation, op.translation), "crystal-invariant", lambda: f"{op.rotation.tolist()} {op.translation}")
        ctx.step()
    ctx.check(not left, "operation-missing", lambda: f"missing {[ops[i][0].tolist() for i in left[:3]]}")
    ctx.check(sorted(o.ind for o in s.symmetries) == list(range(1, len(ops)+1)), "indices", str([o.ind for o in s.symmetries]))
    if spec["kind"] in ("sg", "deco"):
        closure(ctx, s.symmetries)
    # the printed and JSON descriptions are the same operations
    with quiet() as q:
        s.show()
    txt = parse_show(q.text)
    ctx.check(len(txt) == len(s.symmetries), "printed-count", f"{len(txt)} printed")
    js = s.json()
    for d, op in zip(txt, s.symmetries):
        ok = (d['ind'] == op.ind and np.array_equal(d['R'], op.rotation) and same_mod1(d['t'], op.translation, 6e-5) and
              np.allclose(d['axis'], op.axis, atol=2e-6) and d['angle'] == op.angle_str and d['inv'] == bool(op.inversion) and
              np.allclose(d['gk'][0], np.linalg.inv(op.rotation).T) and
              (d['S'] is None if not spinor else np.allclose(d['S'], op.spinor_rotation, atol=8e-4)))
        ctx.check(ok, "printed-operation", lambda: f"{d} vs {op.rotation.tolist()} {op.translation} {op.axis} {op.angle_str}")
        j = js["symmetries"][op.ind]
        ok = (np.array_equal(j["rotation matrix"], op.rotation) and np.allclose(j["translation"], op.translation) and
              np.allclose(j["axis"], op.axis) and abs(j["angle pi"]*np.pi-op.angle) < 1e-9 and j["inversion"] == op.inversion and j["angle str"] == op.angle_str)
        ctx.check(ok, "json-operation", lambda: str(j))
    ctx.check(js["number"] == sg and js["num symmetries"] == len(ops) and bool(js["spinor"]) == spinor and len(js["symmetries"]) == len(ops), "json-group", lambda: str({k: js[k] for k in ("name", "number", "num symmetries")}))
    ctx.trace(); ctx.outcome(spec["kind"], len(ops), symbol(sg)[0])
