"""Independent reader of irrep's table files (does not use irreptables)."""
import os, functools
import numpy as np
from .core import REPO


def path(sg, spinor):
    return os.path.join(REPO, "irreptables", "irreptables", "tables", f"irreps-SG={sg}-{'spin' if spinor else 'scal'}.dat")


class Tab:
    pass


def read(fname, snap=True):
    T = Tab(); T.ops = []; T.kpoints = []; T.header = {}
    mode = 0
    for line in open(fname):
        l = line.strip()
        if not l:
            continue
        if mode == 0:
            k, _, v = l.partition('=')
            T.header[k.strip().lower()] = v.strip()
            if k.strip().lower() == 'symmetries':
                mode = 1
        elif mode == 1 and not l.startswith('kpoint'):
            x = l.split()
            R = np.array([int(i) for i in x[:9]]).reshape(3, 3)
            t = np.array([float(i) for i in x[9:12]])
            S = None
            if len(x) > 12:
                S = (np.array(x[12:16], float)*np.exp(1j*np.pi*np.array(x[16:20], float))).reshape(2, 2)
            T.ops.append((R, t, S))
        elif l.startswith('kpoint'):
            mode = 2
            a, b, c = l.split(':')
            isym = []
            for w in c.split():
                if '-' in w:
                    lo, hi = w.split('-'); isym += list(range(int(lo), int(hi)+1))
                else:
                    isym.append(int(w))
            T.kpoints.append(dict(name=a.split()[1], k=np.array([float(i) for i in b.split()]), isym=isym, irreps=[]))
        else:
            x = l.split(); kp = T.kpoints[-1]; n = len(kp['isym'])
            ch = np.array(x[2:2+n], float)
            if len(x) == 2+2*n:
                ch = ch*np.exp(1j*np.pi*np.array(x[2+n:2+2*n], float))
            else:
                assert len(x) == 2+n, line
            kp['irreps'].append(dict(name=x[0], dim=int(x[1]), ch=ch))
    return T


@functools.lru_cache(None)
def table(sg, spinor):
    return read(path(sg, spinor))


def snap(x, n=24):
    return np.round(np.asarray(x)*n)/n


def exact_ops(sg, spinor):
    """operations with translations snapped to multiples of 1/24 and spin matrices renormalised"""
    out = []
    for R, t, S in table(sg, spinor).ops:
        if S is not None:
            U, s, V = np.linalg.svd(S); S = U @ V
        out.append((R, snap(t), S))
    return out
