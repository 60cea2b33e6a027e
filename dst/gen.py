"""Seeded construction of planted systems: Hamiltonian families with a known
symmetry group, as reference `Spec`s and as library objects."""
import itertools as it
import math

import numpy as np

from .core import np_rng
from .spec import G, Spec, close, find

S3 = math.sqrt(3) / 2


def rot2(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, -s], [s, c]])


def rot3(t, n):
    n = np.asarray(n, float) / np.linalg.norm(n)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K


C6 = rot2(math.pi / 3)
SPATIAL = {
    # name: (dimension, lattice kind, generators)
    '0': (0, 'any', []),
    '1': (1, 'int', []),
    '1i': (1, 'int', [-np.eye(1)]),
    '2.1': (2, 'int', []),
    '2.c2': (2, 'int', [-np.eye(2)]),
    '2.m': (2, 'int', [np.diag([-1., 1])]),
    '2.mm': (2, 'int', [np.diag([-1., 1]), np.diag([1., -1])]),
    '2.md': (2, 'int', [np.array([[0., 1], [1, 0]])]),
    '2.c4': (2, 'int', [np.array([[0., -1], [1, 0]])]),
    '2.c4v': (2, 'int', [np.array([[0., -1], [1, 0]]), np.diag([-1., 1])]),
    '2.c3': (2, 'hex', [C6 @ C6]),
    '2.c3v': (2, 'hex', [C6 @ C6, np.diag([-1., 1])]),
    '2.c3v2': (2, 'hex', [C6 @ C6, np.diag([1., -1])]),
    '2.c6': (2, 'hex', [C6]),
    '2.c6v': (2, 'hex', [C6, np.diag([-1., 1])]),
    '3.1': (3, 'int', []),
    '3.i': (3, 'int', [-np.eye(3)]),
    '3.c2': (3, 'int', [np.diag([-1., -1, 1])]),
    '3.m': (3, 'int', [np.diag([1., 1, -1])]),
    '3.c3': (3, 'int', [np.array([[0., 0, 1], [1, 0, 0], [0, 1, 0]])]),
    '3.c4': (3, 'int', [np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]])]),
    '3.s4': (3, 'int', [-np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]])]),
    '3.d2': (3, 'int', [np.diag([1., -1, -1]), np.diag([-1., -1, 1])]),
    '3.t': (3, 'int', [np.array([[0., 0, 1], [1, 0, 0], [0, 1, 0]]), np.diag([-1., -1, 1])]),
    '3.td': (3, 'int', [np.array([[0., 0, 1], [1, 0, 0], [0, 1, 0]]),
                        -np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]])]),
    '3.o': (3, 'int', [np.array([[0., 0, 1], [1, 0, 0], [0, 1, 0]]),
                       np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]])]),
    '3.oh': (3, 'int', [np.array([[0., 0, 1], [1, 0, 0], [0, 1, 0]]),
                        np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]]), -np.eye(3)]),
    '3.c6': (3, 'hex', [rot3(math.pi / 3, [0, 0, 1])]),
    '3.d3d': (3, 'hex', [rot3(2 * math.pi / 3, [0, 0, 1]), -np.eye(3), np.diag([1., -1, -1])]),
}
SUPER = {1: ['1i'], 2: ['2.c4v', '2.c6v'], 3: ['3.oh', '3.c6', '3.d3d']}


def spin_ops(j):
    n = int(round(2 * j + 1))
    m = np.arange(n - 1, -n, -2) / 2
    sp = np.zeros((n, n), complex)
    for a in range(n - 1):
        sp[a, a + 1] = math.sqrt(j * (j + 1) - m[a + 1] * (m[a + 1] + 1))
    return (sp + sp.conj().T) / 2, (sp - sp.conj().T) / 2j, np.diag(m).astype(complex)


def expi(H, t):
    w, v = np.linalg.eigh(H)
    return (v * np.exp(-1j * t * w)) @ v.conj().T


def axis_angle(R):
    """Axis and angle of a proper 3D rotation."""
    c = max(-1.0, min(1.0, (np.trace(R) - 1) / 2))
    t = math.acos(c)
    if t < 1e-9:
        return np.array([0, 0, 1.]), 0.0
    if abs(t - math.pi) < 1e-6:
        w, v = np.linalg.eigh((R + R.T) / 2)
        return v[:, -1], math.pi
    n = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / (2 * math.sin(t))
    return n / np.linalg.norm(n), t


def embed3(R):
    d = len(R)
    R3 = np.eye(3)
    if d:
        R3[:d, :d] = R
    return R3


def spin_rep(R, j):
    R3 = embed3(R)
    if np.linalg.det(R3) < 0:
        R3 = -R3
    n, t = axis_angle(R3)
    Sx, Sy, Sz = spin_ops(j)
    return expi(n[0] * Sx + n[1] * Sy + n[2] * Sz, t)


def tr_rep(j):
    return expi(spin_ops(j)[1], math.pi)


def signed_perm(rs, f, signs=True):
    p = np.eye(f)[rs.permutation(f)]
    if signs:
        p = p * rs.choice([-1, 1], f)
    return p.astype(complex)


def invol(rs, f):
    """Signed permutation squaring to +-1."""
    while True:
        p = signed_perm(rs, f)
        q = p @ p
        if np.allclose(q, np.eye(f)) or np.allclose(q, -np.eye(f)):
            return p


def block_diag(ms):
    n = sum(len(m) for m in ms)
    out = np.zeros((n, n), complex)
    i = 0
    for m in ms:
        out[i:i + len(m), i:i + len(m)] = m
        i += len(m)
    return out


def rand_herm(rs, n, style='gauss'):
    if style == 'int':
        m = rs.randint(-2, 3, (n, n)) + 1j * rs.randint(-2, 3, (n, n))
    elif style == 'real':
        m = rs.standard_normal((n, n))
    elif style == 'sparse':
        m = (rs.standard_normal((n, n)) + 1j * rs.standard_normal((n, n))) * (rs.random_sample((n, n)) < 0.5)
    else:
        m = rs.standard_normal((n, n)) + 1j * rs.standard_normal((n, n))
    return (m + m.conj().T) / 2


def rand_unitary(rs, n):
    a = rs.standard_normal((n, n)) + 1j * rs.standard_normal((n, n))
    q, r = np.linalg.qr(a)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def monomials(d, p):
    return [e for e in it.product(range(p + 1), repeat=d) if sum(e) == p]


def group_of(desc, limit=400):
    """Planted group (reference elements) of one component."""
    d, lat, gens = SPATIAL[desc['spatial']]
    rs = np_rng('group', desc['gseed'])
    blocks = desc['blocks']            # [[2j, flavours], ...]
    els = []
    for R in gens:
        U = block_diag([np.kron(spin_rep(R, b[0] / 2), signed_perm(rs, b[1]))
                        for b in blocks])
        els.append(G(R, False, False, U))
    one = np.eye(d)
    if 'T' in desc['internal']:
        els.append(G(one, True, False, block_diag([np.kron(tr_rep(b[0] / 2), invol(rs, b[1])) for b in blocks])))
    if 'P' in desc['internal']:
        els.append(G(one, True, True, block_diag(
            [np.kron(tr_rep(b[0] / 2) if rs.rand() < .5 else np.eye(b[0] + 1), invol(rs, b[1])) for b in blocks])))
    if 'C' in desc['internal']:
        els.append(G(one, False, True, block_diag([np.kron(np.eye(b[0] + 1), invol(rs, b[1])) for b in blocks])))
    if desc.get('magnetic') and els:
        # combine the first spatial generator with a complex conjugation / sign
        g = els[0]
        if 'm' in desc['magnetic']:
            t = G(one, True, False, block_diag([np.kron(tr_rep(b[0] / 2), np.eye(b[1])) for b in blocks]))
            els[0] = g * t
        if 'a' in desc['magnetic']:
            els[0] = G(els[0].R, els[0].c, not els[0].a, els[0].U)
    while els:
        try:
            return close(els, ray=True, limit=limit)
        except OverflowError:
            els.pop()
    n = sum((b[0] + 1) * b[1] for b in blocks)
    return [G(one, False, False, np.eye(n))]


def raw_terms(desc, rs, n):
    """Random Hermitian terms before symmetrisation."""
    d, lat, _ = SPATIAL[desc['spatial']]
    kind = desc['kind']
    out = []
    for p in desc['params']:
        s = Spec(kind, d, n)
        if kind == 'cont':
            for pw in desc['powers']:
                mons = monomials(d, pw)
                for e in (mons if rs.rand() < .5 else [mons[rs.randint(len(mons))]]) if mons else []:
                    s.add((p, e), rand_herm(rs, n, desc.get('style', 'gauss')))
        else:
            hops = lattice_hops(d, lat)
            for _ in range(desc.get('nhops', 2)):
                h = hops[rs.randint(len(hops))]
                m = rand_herm(rs, n, desc.get('style', 'gauss'))
                if any(abs(x) > 1e-9 for x in h):
                    m = m + 1j * rand_herm(rs, n, desc.get('style', 'gauss'))
                    s.add((p, h), m)
                    s.add((p, tuple(-x for x in h)), m.conj().T)
                else:
                    s.add((p, h), m)
        out.append(s)
    return out


def lattice_hops(d, lat):
    if d == 0:
        return [()]
    if lat == 'hex' and d >= 2:
        v = [np.array([1, 0]), np.array([.5, S3]), np.array([0, 2 * S3]), np.array([2., 0]), np.array([0, 0])]
        v = [tuple(x) + (0.,) * (d - 2) for x in v]
        if d == 3:
            v += [(0., 0., 1.), (1., 0., 1.)]
        return v
    base = [(0,) * d, (1,) + (0,) * (d - 1), (1,) * d, (2,) + (0,) * (d - 1)]
    if d > 1:
        base.append((1, 1) + (0,) * (d - 2))
        base.append((2, 1) + (0,) * (d - 2))
    return [tuple(float(x) for x in b) for b in base]


def build_component(desc):
    n = sum((b[0] + 1) * b[1] for b in desc['blocks'])
    for internal in (desc['internal'], desc['internal'].replace('C', ''),
                     desc['internal'].replace('C', '').replace('P', ''), None, False):
        # drop constraints until something is left
        group = group_of({**desc, 'internal': internal or '',
                          'magnetic': desc.get('magnetic') if internal is not None else None})
        if internal is False:
            group = [group[0].__class__(np.eye(SPATIAL[desc['spatial']][0]), U=np.eye(n))]
        rs = np_rng('terms', desc['tseed'])
        total = Spec(desc['kind'], SPATIAL[desc['spatial']][0], n)
        for s in raw_terms(desc, rs, n):
            total = total + s.average(group)
        if total.clean().terms:
            break
    return total, group


def direct_sum(specs):
    n = sum(s.N for s in specs)
    out = Spec(specs[0].kind, specs[0].d, n)
    o = 0
    for s in specs:
        for k, m in s.terms.items():
            M = np.zeros((n, n), complex)
            M[o:o + s.N, o:o + s.N] = m
            out.add(k, M)
        o += s.N
    return out.clean()


def with_mult(s, m):
    return Spec(s.kind, s.d, s.N * m, {k: np.kron(v, np.eye(m)) for k, v in s.terms.items()})


def super_elements(d, lat):
    """A few elements that need not be symmetries (to relate copies)."""
    out = []
    if d == 0:
        Rs = [np.zeros((0, 0))]
    elif d == 1:
        Rs = [np.eye(1), -np.eye(1)]
    else:
        name = {('int', 2): '2.c4v', ('hex', 2): '2.c6v', ('int', 3): '3.oh', ('hex', 3): '3.d3d'}[(lat, d)]
        Rs = [g.R for g in close([G(R) for R in SPATIAL[name][2]])]
    for R in Rs:
        for c, a in it.product((False, True), repeat=2):
            out.append(G(R, c, a))
    return out


def build_system(desc):
    """desc['comps']: list of components; each may be multiplied and copied
    through a further element. Returns the Spec."""
    specs = []
    for c in desc['comps']:
        s, group = build_component({**c, 'kind': desc['kind'], 'spatial': desc['spatial'],
                                    'params': desc['params'], 'powers': desc.get('powers', [0, 1, 2]),
                                    'nhops': desc.get('nhops', 2), 'style': desc.get('style', 'gauss')})
        parts = [s]
        if c.get('copy') is not None:
            els = super_elements(s.d, SPATIAL[desc['spatial']][1])
            g = els[c['copy'] % len(els)]
            t = s
            for _ in range(c.get('ncopy', 1)):
                t = t.apply(g)
                parts.append(t)
        if c.get('mult', 1) > 1:
            parts = [with_mult(p, c['mult']) for p in parts]
        specs += parts
    H = direct_sum(specs)
    if desc.get('scramble') is not None:
        V = rand_unitary(np_rng('scramble', desc['scramble']), H.N)
        H = H.conjugate_by(V)
    return H.clean()


SPATIAL_BY_DIM = {d: [k for k, v in SPATIAL.items() if v[0] == d] for d in range(4)}


def gen_system(rng, kind=None, maxN=6, dims=(0, 1, 2, 2, 2, 3, 3), spatial=None, params=None):
    """Random description of a planted system."""
    kind = kind or rng.choice(['cont', 'cont', 'bloch'])
    d = rng.choice([x for x in dims if not (kind == 'bloch' and x == 0)])
    spatial = spatial or rng.choice(SPATIAL_BY_DIM[d])
    nparam = rng.choice([1, 1, 2, 2, 3])
    names = rng.sample(['alpha', 'beta', 'm', 't', 'mu', 'Delta'], nparam)
    pars = [None] + names if rng.random() < .3 else names
    desc = dict(kind=kind, spatial=spatial, params=params or pars, comps=[],
                powers=rng.choice([[0, 1], [0, 1, 2], [1, 2], [0, 2], [1], [0, 1, 2, 3]]),
                nhops=rng.choice([1, 2, 2, 3]), style=rng.choice(['gauss', 'gauss', 'int', 'real', 'sparse']))
    left = maxN
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        cands = []
        for blocks in ([[0, 1]], [[1, 1]], [[0, 2]], [[2, 1]], [[1, 2]], [[3, 1]], [[0, 3]],
                       [[0, 1], [1, 1]], [[0, 1], [0, 1]], [[1, 1], [1, 1]], [[2, 1], [0, 1]], [[0, 4]]):
            n = sum((b[0] + 1) * b[1] for b in blocks)
            if n <= left:
                cands.append((n, blocks))
        if not cands:
            break
        n, blocks = rng.choice(cands)
        c = dict(blocks=blocks, gseed=rng.randrange(10**6), tseed=rng.randrange(10**6),
                 internal=''.join(x for x in 'TPC' if rng.random() < .3))
        if rng.random() < .2:
            c['magnetic'] = rng.choice(['m', 'a', 'ma'])
        if rng.random() < .35 and 2 * n <= left:
            c['copy'] = rng.randrange(1000)
            if rng.random() < .3 and 3 * n <= left:
                c['ncopy'] = 2
            n *= 1 + c.get('ncopy', 1)
        if rng.random() < .35 and 2 * n <= left:
            c['mult'] = 3 if 3 * n <= left and rng.random() < .4 else 2
            n *= c['mult']
        desc['comps'].append(c)
        left -= n
    if rng.random() < .6:
        desc['scramble'] = rng.randrange(10**6)
    return desc


def gen_env(rng, noise=True, cache=True):
    env = {}
    if rng.random() < .75:
        env['gauge'] = rng.randrange(10**6)
        if noise and rng.random() < .3:
            env['noise'] = True
    if rng.random() < .5:
        env['hash'] = rng.randrange(10**6)
    if cache and rng.random() < .3:
        env['cachesize'] = rng.choice([0, 1, 2, 5])
    return env


# ---------------------------------------------------------------- library side

MOM = ('k_x', 'k_y', 'k_z')


def exact(x):
    """Float lattice number to an exact sympy number."""
    import sympy
    for n in range(-12, 13):
        if abs(x - n / 2) < 1e-5:
            return sympy.Rational(n, 2)
    for n in range(-12, 13):
        if abs(x - n * S3) < 1e-5:
            return n * sympy.sqrt(3) / 2
    raise ValueError(x)


def exact_R(R):
    """tinyarray for integer matrices, sympy matrix otherwise."""
    import sympy
    import tinyarray as ta
    R = np.asarray(R, float)
    if np.allclose(R, np.round(R), atol=1e-9):
        return ta.array(np.round(R).astype(int))
    return sympy.ImmutableMatrix([[exact(x) for x in row] for row in R])


def momenta_for(d, names=None):
    return list(names[:d]) if names else list(MOM[:d])


def to_model(spec, sparse=False, bloch=False, names=None, exact_hops=True, order=None):
    """Library Model/BlochModel with the same values as spec."""
    import sympy
    import qsymm
    from qsymm.model import BlochCoeff
    import scipy.sparse as sp
    mom = momenta_for(spec.d, names)
    ks = [sympy.Symbol(n, commutative=True) for n in mom]
    data = {}
    items = list(spec.terms.items())
    if order is not None:
        items = [items[i] for i in np_rng('order', order).permutation(len(items))]
    for (p, x), m in items:
        par = sympy.Symbol(p, commutative=True) if p is not None else sympy.Integer(1)
        val = sp.csr_matrix(m) if sparse else np.array(m)
        if spec.kind == 'cont':
            mono = sympy.Integer(1)
            for k, e in zip(ks, x):
                mono = mono * k**e
            key = par * mono
            if bloch:
                key = BlochCoeff(np.zeros(spec.d), key)
        elif bloch:
            key = BlochCoeff(np.array([float(exact(v)) for v in x]), par)
        else:
            # normal form: one exponential per momentum component
            key = par * sympy.Mul(*[sympy.exp(sympy.I * exact(v) * k) for v, k in zip(x, ks)])
        if key in data:
            data[key] = data[key] + val
        else:
            data[key] = val
    cls = qsymm.BlochModel if bloch else qsymm.Model
    return cls(data, momenta=mom)


def lib_element(g, U=False, exactR=True):
    import qsymm
    R = exact_R(g.R) if exactR else np.array(g.R)
    return qsymm.PointGroupElement(R, g.c, g.a, np.array(g.U) if U and g.U is not None else None)
