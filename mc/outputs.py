"""Runs the command line in a private directory, and reads back everything a run writes."""
import os, re, io, json, sys, contextlib, traceback
import numpy as np
from . import formats as F
from .core import chdir, memo_spacegroup


class Run:
    """result of one run: rc (0, or not), exc, out (text printed), files {name: text}"""


def run_cli(args, d, memo=True):
    """`irrep args` in directory d (in this process)"""
    import irrep.cli as cli
    r = Run()
    buf = io.StringIO()
    before = {n for n in os.listdir(d)}
    cm = memo_spacegroup() if memo else contextlib.nullcontext()
    with chdir(d), cm, contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()) as err:
        r.exc = None
        try:
            cli.cli.main(args=list(args), prog_name="irrep", standalone_mode=True)
            r.rc = 0
        except SystemExit as e:
            r.rc = e.code or 0
        except Exception as e:
            r.rc, r.exc = 1, e
            r.tb = traceback.format_exc()
    r.out, r.err = buf.getvalue(), err.getvalue()
    r.files = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if n not in before and os.path.isfile(p):
            with open(p, errors="replace") as f:
                r.files[n] = f.read()
    return r


def wipe(d, r):
    for n in r.files:
        os.remove(os.path.join(d, n))


NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


def nums(s):
    return [float(x) for x in re.findall(NUM, s)]


def cplx(s):
    """numbers like '  1.0000 -0.5000+0.5000j'"""
    out = []
    for m in re.finditer(rf"({NUM})(?:({NUM})j)?", s):
        out.append(complex(float(m.group(1)), float(m.group(2) or 0)))
    return out


def gk_matrix(s):
    """rows of the linear map written as '[kx, -ky, kx+ky]'"""
    rows = []
    for e in s.split(","):
        row = np.zeros(3)
        for sg, v, x in re.findall(r"([-+]?)([\d.e-]*?)k([xyz])", e.strip().replace(" ", "")):
            row["xyz".index(x)] += (-1 if sg == "-" else 1)*(float(v) if v else 1.)
        rows.append(row)
    return np.array(rows)


def parse_ops(out):
    """symmetry operations printed"""
    ops = {}
    body = re.split(r"\n\s*k-point\s", out.split("SPACE GROUP -----------", 1)[1])[0]
    parts = re.split(r"\n ### (\d+) \n", body)
    for ind, t in zip(parts[1::2], parts[2::2]):
        t = t.split("Warning")[0]
        o = {}
        i = t.index("rotation :")
        rows = t[i:].split("\n")[:3]
        cols = [re.findall(r"\|([^|]*)\|", r) for r in rows]
        o["R"] = np.array([nums(c[0]) for c in cols])
        # with two matrices in a row the groups found are: first, between, second
        if len(re.findall(r"\|", rows[0])) == 4:
            o["Rref"] = np.array([nums(re.findall(r"\|([^|]*)\|[^|]*\|([^|]*)\|", r)[0][1]) for r in rows])
        g = re.findall(r"gk = \[([^\]]*)\]", t)
        o["gk"] = gk_matrix(g[0])
        if len(g) > 1:
            o["gkref"] = gk_matrix(g[1])
        for key, tag in (("S", r"spinor rot\.         : "), ("Sref", r"spinor rot\. \(refUC\) : ")):
            m = re.search(tag+r"\|([^|]*)\|\s*\n\s*\|([^|]*)\|", t)
            if m:
                o[key] = np.array([cplx(m.group(1)), cplx(m.group(2))])
        for key, tag in (("t", "translation         :"), ("tref", r"translation \(refUC\) :")):
            m = re.search(tag+r"\s*\[([^\]]*)\]", t)
            if m:
                o[key] = np.array(nums(m.group(1)))
        m = re.search(r"axis: (\[[^\]]*\]) ; angle = ([^;]*), inversion ?: (\w+)", t)
        o["axis"], o["angle"], o["inversion"] = np.array(nums(m.group(1))), m.group(2).strip(), m.group(3) == "True"
        ops[int(ind)] = o
    return ops


def parse_head(out):
    h = {}
    m = re.search(r"Space group: (.*) \(# (\d+)\)", out)
    h["name"], h["number"] = m.group(1), int(m.group(2))
    h["nsym"] = int(re.search(r"Number of symmetries: (\d+)", out).group(1))
    a = re.findall(r"a\d = ([^|]*)\|\s*a\d = ([^\n]*)", out)
    h["lattice"], h["reflattice"] = np.array([nums(x[0]) for x in a]), np.array([nums(x[1]) for x in a])
    m = re.search(r"\| ([^|]*)\|\s*\nrefUC = \| ([^|]*)\|\s*shiftUC = \[([^\]]*)\]\s*\n\s*\| ([^|]*)\|", out)
    h["refUC"] = np.array([nums(m.group(i)) for i in (1, 2, 4)])
    h["shiftUC"] = np.array(nums(m.group(3)))
    at = out.split("Position in REF cell")[1].split("SPACE GROUP")[0]
    h["atoms"] = [(int(p[0]), nums(p[1]), nums(p[2])) for p in (l.split("|") for l in at.split("\n")) if len(p) == 3]
    return h


def parse_blocks(out):
    """all calls of write_characters: list of dict(kpoints, odd, z2, z4, indirect, direct)"""
    res = []
    cur = None
    kp = None
    lines = out.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r"\s*k-point\s+(\d+) : \[([^\]]*)\] \(in DFT cell\)", l)
        if m:
            if cur is None:
                cur = dict(kpoints=[])
            kp = dict(ik=int(m.group(1)), k=nums(m.group(2)), levels=[], gap=None)
            kp["kref"] = nums(lines[i+1].split("(")[0])
            cur["kpoints"].append(kp)
        m = re.match(r"\s*number of states : (\d+)", l)
        if m:
            kp["n"] = int(m.group(1))
        if re.match(r"\s*Energy  \|", l):
            kp["sym"] = [int(x) for x in lines[i+1].split("|")[-1].split()]
            j = i+2
            while j+1 < len(lines) and lines[j].count("|") == 3:
                a, b = lines[j].split("|"), lines[j+1].split("|")
                kp["levels"].append(dict(E=float(a[0]), deg=int(a[1]), irr=a[2].strip(), ch=cplx(a[3]), chref=cplx(b[3])))
                j += 2
            i = j-1
        m = re.match(r"Invariant under inversion: (\w+)", l)
        if m:
            kp["inv"] = m.group(1) == "Yes"
        m = re.match(r"Number of inversions-odd (?:Kramers pairs|states) : (\d+)", l)
        if m:
            kp["odd"] = int(m.group(1))
        m = re.match(rf"Gap with upper bands:\s+({NUM})", l)
        if m:
            kp["gap"] = float(m.group(1))
        m = re.match(r"TOTAL number of inversions-odd (Kramers pairs|states) : (\d+)", l)
        if m:
            cur["odd"], cur["pairs"] = int(m.group(2)), m.group(1) != "states"
        m = re.match(r"Z([24]) invariant: (\d+)", l)
        if m:
            cur["z"+m.group(1)] = int(m.group(2))
        m = re.match(rf"Indirect gap: ({NUM})", l)
        if m:
            cur["indirect"] = float(m.group(1))
        m = re.match(rf"Smallest direct gap in the given set of k-points: ({NUM})", l)
        if m:
            cur["direct"] = float(m.group(1))
            res.append(cur)
            cur = kp = None
        i += 1
    return res


def parse_irr(s):
    """'A(1.0), B(0.5+0.2i)' -> dict, None when not identified"""
    if s == "None":
        return None
    out = {}
    for m in re.finditer(rf"([^,()\s]+)\(({NUM})(?:({NUM})i)?\)", s):
        out[m.group(1)] = complex(float(m.group(2)), float(m.group(3) or 0))
    return out


def parse_trace(text):
    L = [l for l in text.split("\n") if l.strip()]
    t = dict(nb=int(L[0]), soc=int(L[1]), nsym=int(L[2]), ops=[], kpoints=[])
    p = 3
    for _ in range(t["nsym"]):
        x = [float(v) for v in L[p].split()]
        S = np.array(x[12::2])+1j*np.array(x[13::2]) if len(x) > 12 else None
        t["ops"].append((np.array(x[:9]).reshape(3, 3), np.array(x[9:12]), None if S is None else S.reshape(2, 2)))
        p += 1
    nk = int(L[p]); p += 1
    ks = [[float(v) for v in L[p+i].split()] for i in range(nk)]
    p += nk
    for i in range(nk):
        n = int(L[p]); sym = [int(v) for v in L[p+1].split()]; p += 2
        kp = dict(k=ks[i], n=n, sym=sym, levels=[])
        tot = 0
        while tot < t["nb"]:
            x = L[p].split(); p += 1
            v = np.array([float(y) for y in x[3:]])
            kp["levels"].append(dict(ib=int(x[0]), deg=int(x[1]), E=float(x[2]), ch=v[0::2]+1j*v[1::2]))
            tot += int(x[1])
        t["kpoints"].append(kp)
    t["rest"] = L[p:]
    return t


def parse_plot(text):
    """blocks of (k, E)"""
    L = text.split("\n")
    blocks = []
    cur = []
    for l in L[1:]:
        if l.strip():
            cur.append([float(x) for x in l.split()])
        elif cur:
            blocks.append(cur); cur = []
    if cur:
        blocks.append(cur)
    return blocks


def unjson(x):
    """arrays and complex numbers written by monty"""
    from monty.json import MontyDecoder
    return MontyDecoder().process_decoded(x)


def parse_json(text):
    return unjson(json.loads(text))


def complete_calc(c, ks, sp, npw=26, gauge=1, efermi=None, nmin=8, extra=0, tol=1e-4, gap=1e-3):
    """calculation with the same number of bands at every k-point, complete levels; None if there is no such number"""
    calc = F.physical_calc(c, ks, sp, 10**6, npw=npw, gauge=gauge, efermi=efermi, tol=tol)
    N = min(len(x["E"]) for x in calc.kpts)
    for n in list(range(nmin, N))+list(range(nmin-1, 1, -1)):
        if n < N and all(x["E"][n]-x["E"][n-1] > gap for x in calc.kpts):
            calc.n = n
            m = min(N, n+extra)
            for x in calc.kpts:
                x["E"], x["C"] = x["E"][:m].copy(), x["C"][:m].copy()
            return calc
    return None
