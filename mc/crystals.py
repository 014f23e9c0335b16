"""Synthetic crystals of every space group, built from the ITA operations in spglib's database
(not from irrep's own tables) in any primitive basis, origin and orientation."""
import functools, itertools
import numpy as np
import spglib

PRIM = {  # rows: primitive vectors in the conventional basis
    'P': np.eye(3), 'C': np.array([[.5, -.5, 0], [.5, .5, 0], [0, 0, 1]]),
    'A': np.array([[1, 0, 0], [0, .5, -.5], [0, .5, .5]]),
    'I': np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]),
    'F': np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]),
    'R': np.array([[2/3, 1/3, 1/3], [-1/3, 1/3, 1/3], [-1/3, -2/3, 1/3]])}

# unimodular changes of primitive basis (rows = new vectors in the old ones)
BASES = [np.eye(3, dtype=int),
         np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]]),
         np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1]]),
         np.array([[1, 0, 0], [1, 1, 0], [0, -1, 1]]),
         np.array([[-1, 0, 0], [0, 0, 1], [0, 1, 0]]),
         np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]),
         np.array([[1, 0, -1], [0, 1, 1], [0, 0, 1]]),
         np.array([[-1, 1, 1], [0, -1, 0], [0, 0, 1]])]
ORIGINS = [np.zeros(3), np.array([.5, 0, 0]), np.array([.25, .25, .25]), np.array([.123, .377, .291]),
           np.array([1/3, 2/3, 0]), np.array([0, .5, .75])]


def rotation(axis, angle):
    n = np.array(axis, float); n /= np.linalg.norm(n)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * K @ K


ROTS = [np.eye(3), rotation([1, 2, 3], 0.7), rotation([-1, 1, 0.3], 2.9), rotation([1, 1, 1], 2*np.pi/3)]
ORBITS = [((.137, .291, .418), (.063, .392, .227)), ((.211, .083, .357), (.419, .171, .288))]


@functools.lru_cache(None)
def hall_number(sg):
    first = None
    for h in _halls()[sg]:
        c = spglib.get_spacegroup_type(h).choice
        if first is None:
            first = h
        if c.startswith('2'):
            return h
    return first


@functools.lru_cache(None)
def _halls():
    d = {}
    for h in range(1, 531):
        d.setdefault(spglib.get_spacegroup_type(h).number, []).append(h)
    return d


@functools.lru_cache(None)
def symbol(sg):
    return spglib.get_spacegroup_type(hall_number(sg)).international_short


@functools.lru_cache(None)
def conv_ops(sg):
    """all operations (R,t) of the conventional cell, centrings included, exact in 1/24"""
    d = spglib.get_symmetry_from_database(hall_number(sg))
    return [(r.copy(), np.round(t*24)/24 % 1) for r, t in zip(d['rotations'], d['translations'])]


@functools.lru_cache(None)
def coset_ops(sg):
    """one (R,t) per rotation"""
    seen, out = set(), []
    for r, t in conv_ops(sg):
        k = tuple(r.ravel())
        if k not in seen:
            seen.add(k); out.append((r, t))
    return out


def lattice(sg, scale=1.0, abc=(5.1, 5.9, 6.7)):
    a, b, c = abc
    al = be = ga = 90
    if sg <= 2: al, be, ga = 81., 73., 97.
    elif sg <= 15: be = 103.
    elif sg <= 74: pass
    elif sg <= 142: b = a
    elif sg <= 194: b = a; ga = 120
    else: b = c = a
    al, be, ga = np.radians([al, be, ga])
    cx = c*np.cos(be); cy = c*(np.cos(al)-np.cos(be)*np.cos(ga))/np.sin(ga)
    return scale*np.array([[a, 0, 0], [b*np.cos(ga), b*np.sin(ga), 0], [cx, cy, np.sqrt(c*c-cx*cx-cy*cy)]])


class Crystal:
    """lattice (rows, angstrom), pos (fractional), typ, refUC/shift: a valid transformation to the
    standard setting: columns of `conv` are the conventional vectors in the primitive basis."""


def crystal(sg, basis=0, origin=0, rot=0, orbits=0, norb=2, scale=1.0, bohr_order=False, hand=1):
    c = Crystal()
    c.sg = sg
    Lc = lattice(sg, scale) @ np.array(ROTS[rot]).T
    P = np.array(BASES[basis], float) @ PRIM[symbol(sg)[0]]     # rows: primitive in conventional basis
    if hand < 0:
        P = -P
    c.lattice = P @ Lc
    c.prim = P
    org = np.array(ORIGINS[origin]) if np.isscalar(origin) else np.array(origin, float)
    Pi = np.linalg.inv(P)
    pos, typ = [], []
    seen = None
    for it, x in enumerate(ORBITS[orbits][:norb]):
        seen = []
        for R, t in coset_ops(sg):
            y = ((R @ np.array(x) + t) @ Pi + org) % 1
            seen.append(y)
        pos += seen
        typ += [it+1]*len(seen)
    c.pos = np.array(pos); c.typ = typ
    c.cell = (c.lattice, c.pos, typ)
    # x_prim = P^-T x_conv + origin
    c.refUC = np.linalg.inv(P).T       # columns: conventional basis vectors in primitive coordinates
    c.shift = org
    # exact operations in the primitive basis: x -> A x + T
    c.ops = []
    A_, B_ = c.refUC, P.T
    for R, t in coset_ops(sg):
        A = A_ @ R @ B_
        Ar = np.round(A).astype(int)
        assert np.abs(A - Ar).max() < 1e-9
        T = A_ @ t + org - Ar @ org
        c.ops.append((Ar, T))
    c.rec = 2*np.pi*np.linalg.inv(c.lattice).T
    return c


def same_mod1(a, b, tol=1e-5):
    d = np.asarray(a) - np.asarray(b)
    return np.abs(d - np.round(d)).max() < tol


def su2(Rcart):
    """(axis, angle, SU(2) matrix up to sign) of a proper rotation given as a cartesian matrix"""
    from math import acos, pi
    c = max(-1., min(1., (np.trace(Rcart)-1)/2))
    ang = acos(c)
    if ang < 1e-6:
        n = np.array([0, 0, 1.]); ang = 0.
    elif abs(ang-pi) < 1e-6:
        M = (Rcart + np.eye(3))/2
        i = np.argmax(np.diag(M)); n = M[:, i]/np.sqrt(M[i, i]); ang = pi
    else:
        n = np.array([Rcart[2, 1]-Rcart[1, 2], Rcart[0, 2]-Rcart[2, 0], Rcart[1, 0]-Rcart[0, 1]])/(2*np.sin(ang))
    return n, ang, su2_from(n, ang)


SIG = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]], complex)


def su2_from(n, ang):
    return np.cos(ang/2)*np.eye(2) - 1j*np.sin(ang/2)*np.einsum('i,ijk->jk', n, SIG)


def adjoint(S):
    """SO(3) matrix of a spin-1/2 matrix: S sigma_j S^+ = sum_i O_ij sigma_i"""
    return np.array([[0.5*np.trace(SIG[i] @ S @ SIG[j] @ S.conj().T).real for j in range(3)] for i in range(3)])


def cart(A, lat):
    """fractional (column-acting) matrix -> cartesian"""
    return lat.T @ A @ np.linalg.inv(lat.T)


# ---- structures with atoms in special positions, decorated with species in every possible way ----
def _hex(a, c):
    return np.array([[a, 0, 0], [-a/2, a*3**.5/2, 0], [0, 0, c]])


_FCC, _BCC = np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]), np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]])
STRUCTURES = {
    "sc": (3.1*np.eye(3), [[0, 0, 0]]),
    "perovskite": (4.*np.eye(3), [[0, 0, 0], [.5, .5, .5], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]),
    "fcc cube": (4.*np.eye(3), [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]),
    "A15": (4.*np.eye(3), [[0, 0, 0], [.5, .5, .5], [.25, .5, 0], [.75, .5, 0], [0, .25, .5], [0, .75, .5], [.5, 0, .25], [.5, 0, .75]]),
    "diamond": (5*_FCC, [[0, 0, 0], [.25, .25, .25]]),
    "heusler": (5*_FCC, [[0, 0, 0], [.25, .25, .25], [.5, .5, .5], [.75, .75, .75]]),
    "bcc": (3*_BCC, [[0, 0, 0]]),
    "bcc4": (4*_BCC, [[0, 0, 0], [.25, .75, .5], [.75, .25, .5], [.5, .5, 0]]),
    "hcp": (_hex(3., 5.), [[1/3, 2/3, .25], [2/3, 1/3, .75]]),
    "wurtzite": (_hex(3., 5.), [[1/3, 2/3, 0], [2/3, 1/3, .5], [1/3, 2/3, .375], [2/3, 1/3, .875]]),
    "graphite": (_hex(2.5, 6.), [[0, 0, .25], [0, 0, .75], [1/3, 2/3, .25], [2/3, 1/3, .75]]),
    "kagome": (_hex(5., 4.), [[.5, 0, 0], [0, .5, 0], [.5, .5, 0], [0, 0, .5]]),
    "rutile": (np.diag([4.5, 4.5, 3.]), [[0, 0, 0], [.5, .5, .5], [.3, .3, 0], [.7, .7, 0], [.2, .8, .5], [.8, .2, .5]]),
    "rhomb": (1.5*np.array([[1, 0, 2.], [-.5, 3**.5/2, 2], [-.5, -3**.5/2, 2]]), [[0, 0, 0], [.22, .22, .22], [.78, .78, .78], [.5, .5, .5]]),
    "sc211": (np.diag([6., 3, 3]), [[0, 0, 0], [.5, 0, 0]]),
    "sc221": (np.diag([6., 6, 3]), [[0, 0, 0], [.5, 0, 0], [0, .5, 0], [.5, .5, 0]]),
    "sc222": (6.*np.eye(3), [[x/2, y/2, z/2] for x in (0, 1) for y in (0, 1) for z in (0, 1)]),
    "orth": (np.diag([3., 4, 5]), [[0, 0, 0], [.5, .5, .5], [.5, .5, 0], [0, 0, .5]]),
    "mono": (np.array([[3., 0, 0], [0, 4, 0], [-1, 0, 5]]), [[0, 0, 0], [.2, 0, .3], [.8, 0, .7], [.5, .5, .5], [0, .5, 0]]),
    "tri": (np.array([[3., 0.2, 0], [.1, 4, .6], [-1, .3, 5]]), [[0, 0, 0], [.2, .1, .3], [.8, .9, .7]]),
    "C2": (np.array([[3, 2, 0], [-3, 2, 0], [.5, 0, 4.]]), [[0, 0, 0], [.3, .7, .2], [.7, .3, .8]]),
}


def decorations(name):
    n = len(STRUCTURES[name][1])
    return [(1,)+t for t in itertools.product((1, 2), repeat=n-1)]


@functools.lru_cache(None)
def _holohedry(name):
    lat = STRUCTURES[name][0]
    M = np.array(list(itertools.product((-1, 0, 1), repeat=9))).reshape(-1, 3, 3)
    M = M[np.abs(np.round(np.linalg.det(M))) == 1]
    G = lat @ lat.T
    D = np.einsum('nji,jk,nkl->nil', M, G, M)
    return M[np.abs(D-G).max(axis=(1, 2)) < 1e-6]


def decorated(name, typ, basis=0, origin=0, rot=0):
    """the structure with the given species; its space group found by trying every isometry of the
    lattice with every translation (c.ops; pure translations included if the cell is not primitive)"""
    lat, pos = STRUCTURES[name]
    B = np.array(BASES[basis])
    Bi = np.round(np.linalg.inv(B)).astype(int)
    org = np.array(ORIGINS[origin])
    pos = np.array(pos); typ = np.array(typ)
    i0 = min(range(len(typ)), key=lambda i: (int(sum(typ == typ[i])), i))
    same = typ[:, None] == typ[None]
    c = Crystal(); c.ops = []; c.sg = None
    for R in _holohedry(name):
        new = pos @ R.T
        for j in np.where(typ == typ[i0])[0]:
            T = pos[j]-new[i0]
            d = new[:, None]+T-pos[None]
            d = np.abs(d-np.round(d)).max(-1) < 1e-5
            if (d & same).any(1).all():
                A = Bi.T @ R @ B.T
                t = T @ Bi
                c.ops.append((A, t+org-A @ org))
    c.lattice = B @ lat @ np.array(ROTS[rot]).T
    c.pos = pos @ Bi+org; c.typ = [int(x) for x in typ]
    c.cell = (c.lattice, c.pos, c.typ)
    c.primitive = sum(np.array_equal(A, np.eye(3)) for A, t in c.ops) == 1
    c.rec = 2*np.pi*np.linalg.inv(c.lattice).T
    return c
