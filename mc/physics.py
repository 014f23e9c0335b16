"""Plane-wave model Hamiltonians with the full symmetry of a crystal (optionally with spin-orbit coupling),
used to obtain genuine Bloch states of every space group."""
import numpy as np
from .crystals import SIG

TWOMHBAR2 = 0.262465831     # 2m/hbar^2 in 1/(eV A^2), the value used by VASP
AMPS = [(9.0, 0.35), (-6.5, 0.5), (4.0, 0.3)]


def sphere(k, rec, ecut):
    """all G with |k+G|^2/c < ecut (exhaustive box)"""
    L = 2*np.pi*np.linalg.inv(rec).T                    # real lattice
    r = np.sqrt(ecut*TWOMHBAR2)
    n = [int(np.ceil(r*np.linalg.norm(L[i])/(2*np.pi)+abs(k[i])))+1 for i in range(3)]
    g = np.array(np.meshgrid(*[np.arange(-m, m+1) for m in n], indexing='ij')).reshape(3, -1).T
    e = ((k+g) @ rec)
    e = (e**2).sum(1)/TWOMHBAR2
    return g[e < ecut], e[e < ecut]


def choose_ecut(k, rec, npw):
    """cutoff in a gap between kinetic-energy shells holding at least npw plane waves"""
    V = abs(np.linalg.det(rec))
    e0 = (npw*V*3/(4*np.pi))**(2/3)/TWOMHBAR2*1.3+5
    g, e = sphere(k, rec, e0)
    while len(g) < npw+2:
        e0 *= 1.3
        g, e = sphere(k, rec, e0)
    e = np.sort(e)
    for i in range(npw-1, len(e)-1):
        if e[i+1]-e[i] > 0.02:
            return 0.5*(e[i]+e[i+1])
    return e0


def hamiltonian(k, g, c, spinor, soc=1.0, amps=AMPS):
    rec, pos, typ = c.rec, c.pos, np.array(c.typ)
    K = (k+g) @ rec
    dG = g[:, None, :]-g[None, :, :]
    n = len(g)
    H = np.zeros((n, n), complex)
    W = np.zeros((n, n), complex)
    q2 = ((dG @ rec)**2).sum(-1)
    nat = len(typ)
    lo = dG.reshape(-1, 3).min(0); hi = dG.reshape(-1, 3).max(0)
    box = np.array(np.meshgrid(*[np.arange(a, b+1) for a, b in zip(lo, hi)], indexing='ij'))
    shp = box.shape[1:]
    for t in sorted(set(typ)):
        a, s = amps[(t-1) % len(amps)]
        F = np.zeros(shp, complex)
        x = pos[typ == t]
        ph = [np.exp(-2j*np.pi*x[:, i][:, None]*np.arange(lo[i], hi[i]+1)[None, :]) for i in range(3)]
        F = np.einsum('aA,aB,aC->ABC', *ph)
        S = F[dG[..., 0]-lo[0], dG[..., 1]-lo[1], dG[..., 2]-lo[2]]
        H += a*np.exp(-s*q2)*S/nat*2
        W += (0.9*a+1.3*t)*np.exp(-0.6*s*q2)*S/nat
    H[np.arange(n), np.arange(n)] += (K**2).sum(1)/TWOMHBAR2
    if not spinor:
        return H
    damp = np.exp(-0.08*(K**2).sum(1))
    cr = np.cross(K[:, None, :], K[None, :, :])
    X = 1j*soc*W*damp[:, None]*damp[None, :]
    Hs = np.zeros((2*n, 2*n), complex)
    Hs[:n, :n] = H; Hs[n:, n:] = H
    for i in range(3):
        M = X*cr[:, :, i]
        for s in (0, 1):
            for u in (0, 1):
                if SIG[i][s, u] != 0:
                    Hs[s*n:(s+1)*n, u*n:(u+1)*n] += M*SIG[i][s, u]
    return Hs


def solve(k, c, spinor, npw=40, nb=None, soc=1.0, ecut=None, gauge=0, tol=1e-4):
    """Bloch states at k: returns dict(g (sorted by kinetic energy), C (rows = bands), E, ecut).
    nb bands are kept, extended to close a degenerate level.  gauge!=0: deterministic random unitary
    inside every degenerate level and random phases."""
    k = np.asarray(k, float)
    if ecut is None:
        ecut = choose_ecut(k, c.rec, npw)
    g, e = sphere(k, c.rec, ecut)
    o = np.argsort(e, kind='stable')
    g, e = g[o], e[o]
    H = hamiltonian(k, g, c, spinor, soc)
    assert np.abs(H-H.conj().T).max() < 1e-9
    E, V = np.linalg.eigh(H)
    N = len(E) if nb is None else min(nb, len(E))
    while N < len(E) and E[N]-E[N-1] < tol:
        N += 1
    E, C = E[:N].copy(), V[:, :N].T.copy()
    b = borders(E, tol)
    # levels: exact common energy inside a level
    for i, j in zip(b, b[1:]):
        E[i:j] = E[i:j].mean()
        if gauge:
            rs = np.random.RandomState(1000*gauge+i)
            A = rs.normal(size=(j-i, j-i))+1j*rs.normal(size=(j-i, j-i))
            C[i:j] = np.linalg.qr(A)[0] @ C[i:j]
    return dict(k=k, g=g, C=C, E=E, ecut=ecut, ekin=e, borders=b)


def borders(E, tol):
    return [0]+[i for i in range(1, len(E)) if E[i]-E[i-1] > tol]+[len(E)]


def shells(g, k, rec, thresh=1e-3):
    """the 6-row array Kpoint expects: G, index, first and last member of the energy shell"""
    e = (((k+g) @ rec)**2).sum(1)/TWOMHBAR2
    o = np.argsort(e, kind='stable')
    g, e = g[o], e[o]
    ig = np.zeros((6, len(g)), int)
    ig[:3] = g.T; ig[3] = o
    w = [0]+[i for i in range(1, len(g)) if e[i]-e[i-1] > thresh]+[len(g)]
    for a, b in zip(w, w[1:]):
        ig[4, a:b] = a; ig[5, a:b] = b
    return ig, o


def apply_op(k, g, C, A, T, S=None):
    """Seitz operator {A|T} (fractional, acting on columns) on states psi = sum_G C_G e^{2 pi i (k+G).x}:
    (P psi)(x) = S psi(A^-1 (x-T)).  Returns coefficients on the same G list, assuming k is invariant
    modulo G (None if the image of k+g is not in the set)."""
    Ainv = np.linalg.inv(A)
    K = (k+g) @ Ainv              # new wave vectors (rows): (k+G).A^-1 x
    gn = K-k
    gi = np.round(gn).astype(int)
    if np.abs(gn-gi).max() > 1e-5:
        return None
    ph = np.exp(-2j*np.pi*(K @ T))
    idx = {tuple(x): i for i, x in enumerate(g)}
    try:
        p = np.array([idx[tuple(x)] for x in gi])
    except KeyError:
        return None
    n = len(g)
    if S is None:
        D = np.zeros_like(C); D[:, p] = C*ph
        return D
    up, dn = C[:, :n]*ph, C[:, n:]*ph
    D = np.zeros_like(C)
    D[:, p] = S[0, 0]*up+S[0, 1]*dn
    D[:, n+p] = S[1, 0]*up+S[1, 1]*dn
    return D


def rep(k, g, C, A, T, S=None):
    """matrix <m|{A|T}|n> of the operator on the given states"""
    D = apply_op(k, g, C, A, T, S)
    return None if D is None else C.conj() @ D.T


def level_traces(k, g, C, b, A, T, S=None):
    M = rep(k, g, C, A, T, S)
    return None if M is None else np.array([np.trace(M[i:j, i:j]) for i, j in zip(b, b[1:])])
