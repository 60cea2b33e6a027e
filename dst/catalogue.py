"""A small world of shared objects and a catalogue of library calls on them.

Used by the properties about concurrency (C15), failures (C16), arguments
(C17) and process history (C20).  Every call returns something `canon` turns
into plain data that can be compared."""
import collections
import json
import math
import os

import numpy as np
import scipy.sparse as sps

from . import gen
from .core import InjectedFault, subseed

TEXTS = [
    'alpha * (k_x * sigma_y - k_y * sigma_x) + m * (k_x**2 + k_y**2) * sigma_0 + Delta * sigma_z',
    '(t * k_x**2 + u * k_y) * sigma_z + m * eye(2)',
    'A * k_x * sigma_x + A * k_y * sigma_y + (m - B * (k_x**2 + k_y**2)) * sigma_z',
    '[[m + k_x**2, v * (k_x - I * k_y)], [v * (k_x + I * k_y), -m + k_y**2]]',
    'mu * identity(2) + beta * k_x * k_y * sigma_x + 3 * k_y**2 * sigma_0',
]
BLOCH = [
    'm * sigma_z + t * sigma_0 * (exp(I * k_x) + exp(-I * k_x)) + t * sigma_0 * (exp(I * k_y) + exp(-I * k_y))',
    'Delta * sigma_x + v * sigma_y * (exp(I * k_x) - exp(-I * k_x)) * I',
    'mu * sigma_0 + t * sigma_x * (exp(I * (k_x + k_y)) + exp(-I * (k_x + k_y)))',
]
SNIPPETS = ['k_x * A(x) * k_x + V(x)', '[[1, k_x], [k_x, 2]]', 'sigma_x + e * sigma_y', 'kron(sigma_x, sigma_z)',
            'k_x**2 + alpha * k_y', 'pi * k_z + E * S', 'sin(x) * k_x', '[k_x, k_y]', 'sqrt(2) * k_x', 'exp(I * k_x)']
SX = np.array([[0, 1], [1, 0]], complex)
SY = np.array([[0, -1j], [1j, 0]])
SZ = np.diag([1., -1]) + 0j
S0 = np.eye(2) + 0j


class World:
    """Objects the calls of one run share."""

    def __init__(self, seed):
        self.seed = seed
        self.o = collections.OrderedDict()

    def __getitem__(self, k):
        if k not in self.o:
            self.o[k] = BUILD[k](self)
        return self.o[k]

    def prebuild(self, keys):
        for k in keys:
            self[k]
        return self

    def rs(self, tag):
        return np.random.RandomState(subseed('world', self.seed, tag) % 2**32)



BUILD = collections.OrderedDict()


def _build():
    import qsymm
    import sympy
    from qsymm.groups import square
    B = BUILD
    BC = qsymm.model.BlochCoeff
    kk = ['k_x', 'k_y']

    def ks(w):
        return w['m0'].momenta
    B['m0'] = lambda w: qsymm.Model(TEXTS[w.rs('m').permutation(len(TEXTS))[0]], momenta=kk)
    B['m1'] = lambda w: qsymm.Model(TEXTS[w.rs('m').permutation(len(TEXTS))[1]], momenta=kk)
    B['raw'] = lambda w: {ks(w)[0]: 1.5 * SX, ks(w)[1] * sympy.Symbol('alpha'): SY.copy(), ks(w)[0]**2: S0 * .5}
    B['m2'] = lambda w: qsymm.Model({k: v.copy() for k, v in w['raw'].items()}, momenta=kk)
    B['ms'] = lambda w: qsymm.Model({k: sps.csr_matrix(v) for k, v in w['raw'].items()}, momenta=kk)
    B['m0z'] = lambda w: qsymm.Model({sympy.Symbol('mu'): np.diag([1., 2, 3, 4]) + 0j}, momenta=[])
    B['b0'] = lambda w: qsymm.BlochModel(BLOCH[w.rs('b').permutation(len(BLOCH))[0]], momenta=kk)
    B['b1'] = lambda w: qsymm.BlochModel(BLOCH[w.rs('b').permutation(len(BLOCH))[1]], momenta=kk)
    B['braw'] = lambda w: {BC(np.array([1., 0]), sympy.Symbol('t')): S0 * 1., BC(np.array([-1., 0]), sympy.Symbol('t')):
                           S0 * 1., BC(np.array([0., 0]), sympy.Integer(1)): SZ * .3}
    B['b2'] = lambda w: qsymm.BlochModel({k: v.copy() for k, v in w['braw'].items()}, momenta=kk)
    B['c4'] = lambda w: qsymm.rotation(1 / 4, U=gen.spin_rep(gen.rot2(math.pi / 2), .5))
    B['c4n'] = lambda w: qsymm.rotation(1 / 4)
    B['c6'] = lambda w: qsymm.rotation(1 / 6, spin=.5)
    B['mx'] = lambda w: qsymm.mirror([1, 0], U=1j * SX)
    B['my'] = lambda w: qsymm.mirror([0, 1])
    B['tr'] = lambda w: qsymm.time_reversal(2, U=1j * SY)
    B['trn'] = lambda w: qsymm.time_reversal(2)
    B['ph'] = lambda w: qsymm.particle_hole(2, U=SX.copy())
    B['ch'] = lambda w: qsymm.chiral(2, U=SZ.copy())
    B['cgg'] = lambda w: qsymm.ContinuousGroupGenerator(np.array([[0, -1j], [1j, 0]]), SZ / 2)
    B['cggU'] = lambda w: qsymm.ContinuousGroupGenerator(None, SZ.copy())
    B['gens'] = lambda w: [w['c4'], w['tr'], w['mx']]
    B['gset'] = lambda w: {w['c4n'], w['my']}
    B['group'] = lambda w: square(tr=False, ph=False)
    B['cands'] = lambda w: square(tr=True, ph=False)
    B['candlist'] = lambda w: sorted(w['cands'])[:10]
    B['fam'] = lambda w: qsymm.continuum_hamiltonian([w['tr']], 2, 1)
    B['fam2'] = lambda w: w['fam'][:2]
    B['hops'] = lambda w: [('A', 'A', [1, 0]), ('A', 'B', [.5, .5])]
    B['norbs'] = lambda w: collections.OrderedDict([('A', 1), ('B', 1)])
    B['norbs1'] = lambda w: collections.OrderedDict([('A', 2)])
    B['hops1'] = lambda w: [('A', 'A', [1, 0])]
    B['bgens'] = lambda w: [w['tr'], qsymm.inversion(2, U=SZ.copy())]
    B['perm'] = lambda w: {'A': 'B', 'B': 'A'}
    B['periods'] = lambda w: np.array([[1., 0], [-.5, math.sqrt(3) / 2]])
    B['periods3'] = lambda w: [[1, 0, 0], [0, 1, 0], [0, 0, 1.5]]
    B['locals'] = lambda w: {'foo': [[0, 1], [1, 0]], 'bar': 'k_x**2', 'baz': np.array([[1, 2], [2, 1]])}
    B['subs'] = lambda w: {'alpha': 2.0, 'm': sympy.Symbol('q'), 'k_x': 'k_y'}
    B['coeffs'] = lambda w: [sympy.Symbol(f'z{n}') for n in range(12)]
    B['mats'] = lambda w: np.array([np.kron(SZ, S0), np.kron(S0, SZ), np.kron(SZ, SZ)])
    B['m4'] = lambda w: qsymm.Model({sympy.Symbol('alpha'): np.kron(SX, S0), ks(w)[0]: np.kron(SZ, S0)}, momenta=kk)
    B['Ps'] = lambda w: qsymm.discrete_symmetries(w['m4'], {qsymm.rotation(1 / 2)})[1]

    def arr(w):
        a = w.rs('arr').standard_normal((3, 5))
        return np.vstack([a, a[:1] + a[1:2]])
    B['arr'] = arr
    B['U2'] = lambda w: np.array(SX)
    B['Rf'] = lambda w: gen.rot2(1.1)
    B['shape'] = lambda w: (2, 2)
    B['momenta'] = lambda w: ['k_x', 'k_y']
    B['powers'] = lambda w: [0, 1]
    B['psi'] = lambda w: np.array([1., 2j])


_build()


# ------------------------------------------------------------ the catalogue
OPS = collections.OrderedDict()
SEM = {}


def op(name, cost=1, sem=None):
    def deco(f):
        OPS[name] = f
        f.cost = cost
        if sem:
            SEM[name] = sem
        return f
    return deco


def pick(r, *names):
    return names[r.randint(len(names))]


@op('sympify')
def _(w, r):
    import qsymm
    return qsymm.sympify(SNIPPETS[r.randint(len(SNIPPETS))])


@op('sympify-locals')
def _(w, r):
    import qsymm
    return qsymm.sympify('foo * k_x + bar * baz', locals=w['locals'])


@op('sympify-bad')
def _(w, r):
    import qsymm
    try:
        return qsymm.sympify(['k_x +* 2', '[[1, 2], [3]]', '1 / 0 * sigma_x +', 'foo('][r.randint(4)])
    except InjectedFault:
        raise
    except Exception as ex:
        return type(ex).__name__


@op('model-text')
def _(w, r):
    import qsymm
    return qsymm.Model(TEXTS[r.randint(len(TEXTS))], momenta=w['momenta'])


@op('model-locals')
def _(w, r):
    import qsymm
    return qsymm.Model('foo * k_x + bar * baz + c * foo', locals=w['locals'], momenta=['k_x'])


@op('model-raw')
def _(w, r):
    import qsymm
    return qsymm.Model(w['raw'], momenta=w['momenta'])


@op('model-normalize')
def _(w, r):
    import qsymm
    return qsymm.Model(w['raw'], momenta=w['momenta'], normalize=True, symbol_normalizer=lambda k: 2 * qsymm.sympify(k))


@op('model-keep')
def _(w, r):
    import qsymm
    return qsymm.Model(w['raw'], momenta=w['momenta'], keep=list(w['raw'])[:2])


@op('bloch-text')
def _(w, r):
    import qsymm
    return qsymm.BlochModel(BLOCH[r.randint(len(BLOCH))], momenta=w['momenta'])


@op('bloch-raw')
def _(w, r):
    import qsymm
    return qsymm.BlochModel(w['braw'], momenta=w['momenta'])


@op('bloch-tomodel')
def _(w, r):
    return w[pick(r, 'b0', 'b1', 'b2')].tomodel()


@op('bloch-frommodel')
def _(w, r):
    import qsymm
    return qsymm.BlochModel(w[pick(r, 'b0', 'b1')].tomodel())


@op('add')
def _(w, r):
    a, b = [('m0', 'm1'), ('m0', 'm2'), ('b0', 'b1'), ('b2', 'b0'), ('ms', 'ms'), ('m1', 'm1')][r.randint(6)]
    return w[a] + w[b] if r.rand() < .5 else w[a] - w[b]


@op('mul')
def _(w, r):
    a = w[pick(r, 'm0', 'm1', 'm2', 'ms', 'b0', 'b1')]
    import sympy
    x = [2., -1j, sympy.Symbol('zeta'), 3][r.randint(4)]
    return a * x if r.rand() < .5 else x * a


@op('matmul')
def _(w, r):
    k = r.randint(5)
    if k == 0:
        return w['m0'] * w['m1']
    if k == 1:
        return w['b0'] * w['b1']
    if k == 2:
        return w['m0'] @ w['U2']
    if k == 3:
        return w['U2'] @ w['b0']
    return w['m2'] @ w['psi']


@op('unary')
def _(w, r):
    m = w[pick(r, 'm0', 'm2', 'ms', 'b0', 'b2')]
    k = r.randint(7)
    return [lambda: -m, lambda: m.conj(), lambda: m.T(), lambda: m.trace(), lambda: m.copy(), lambda: m.zeros_like(),
            lambda: m / 4][k]()


@op('formats')
def _(w, r):
    k = r.randint(5)
    if k == 0:
        return w['m0'].tocsr()
    if k == 1:
        return w['ms'].toarray()
    if k == 2:
        return w['m0'].around(1)
    if k == 3:
        return w['m2'].reshape(-1)
    return w['m0'].value_list(sorted(w['m0'].keys(), key=str))


@op('subs')
def _(w, r):
    m = w[pick(r, 'm0', 'm1', 'm2')]
    return m.subs(w['subs']) if r.rand() < .6 else m.subs('k_x', 2)


@op('subs-bloch')
def _(w, r):
    import sympy
    return w[pick(r, 'b0', 'b1', 'b2')].subs({sympy.Symbol('t'): 2., 'm': 3})


@op('rotate')
def _(w, r):
    return w[pick(r, 'm0', 'm2', 'b0', 'b2')].rotate_momenta(w['Rf'])


@op('transform')
def _(w, r):
    import sympy
    return w[pick(r, 'm0', 'm2')].transform_symbolic(lambda x: x.subs({sympy.Symbol('k_x', commutative=True): 3}))


@op('tosympy')
def _(w, r):
    m = w[pick(r, 'm0', 'm2', 'b0', 'b2')]
    return m.tosympy(nsimplify=bool(r.randint(2)))


@op('evalf')
def _(w, r):
    m = w[pick(r, 'm0', 'm2')]
    return m.evalf(subs=dict(alpha=.5, m=.3, Delta=.2, t=.1, u=1., A=2., B=.7, v=.6, mu=1.1, beta=3., k_x=.4, k_y=.9))


@op('lambdify')
def _(w, r):
    m = w[pick(r, 'm0', 'm1', 'm2', 'b0', 'b1')]
    f = m.lambdify()
    import inspect
    names = list(inspect.signature(f).parameters)
    return names, np.asarray(f(**{n: .3 + .1 * i for i, n in enumerate(sorted(names))}))


@op('compare')
def _(w, r):
    a, b = (pick(r, 'm0', 'm1', 'm2', 'ms') for _ in '12')
    return bool(w['m0'] == w['m1']), bool(w['m2'].allclose(w['m2'].copy())), bool(w['b0'] == w['b1'])


@op('strings')
def _(w, r):
    k = r.randint(6)
    x = [w['m0'], w['b0'], w['c4'], w['c6'], w['cgg'], w['gens']][k]
    return str(x) if r.rand() < .5 or k == 5 else repr(x)


@op('pretty')
def _(w, r):
    from qsymm.groups import pretty_print_cgg, pretty_print_pge
    k = r.randint(4)
    if k < 3:
        return pretty_print_pge(w[pick(r, 'c4', 'c6', 'mx', 'tr', 'ph', 'ch')], full=bool(k), latex=k == 2)
    return pretty_print_cgg(w[pick(r, 'cgg', 'cggU')], latex=bool(r.randint(2)))


@op('pge-mul')
def _(w, r):
    return w[pick(r, 'c4', 'mx', 'tr', 'ph', 'ch')] * w[pick(r, 'c4', 'mx', 'tr', 'ph', 'ch')]


@op('pge-pow')
def _(w, r):
    return w[pick(r, 'c4', 'mx', 'tr', 'c6', 'ch')]**[-2, -1, 0, 1, 3][r.randint(5)]


@op('pge-inv')
def _(w, r):
    g = w[pick(r, 'c4', 'mx', 'tr', 'c6', 'ch')]
    return g.inv(), g.identity()


@op('pge-order')
def _(w, r):
    return sorted(w['cands']), w['c4n'] in w['group'], w['c4n'] == w['my'], w['c4'] < w['mx']


@op('pge-apply')
def _(w, r):
    return w[pick(r, 'c4', 'mx', 'tr', 'ph', 'ch')].apply(w[pick(r, 'm0', 'm1', 'm2', 'b0', 'b1')])


@op('pge-apply-noU')
def _(w, r):
    return w[pick(r, 'c4n', 'my', 'trn')].apply(w[pick(r, 'm0', 'ms', 'b2')])


@op('cgg-apply')
def _(w, r):
    return w[pick(r, 'cgg', 'cggU')].apply(w[pick(r, 'm0', 'm1', 'm2')])


@op('make-ops')
def _(w, r):
    import qsymm
    k = r.randint(6)
    return [lambda: qsymm.rotation(1 / 3, spin=.5), lambda: qsymm.rotation(1 / 4, axis=[0, 0, 1], U=w['U2']),
            lambda: qsymm.mirror([1, 1], spin=1), lambda: qsymm.time_reversal(2, spin=1.5),
            lambda: qsymm.identity(3, 2), lambda: qsymm.PointGroupElement(w['Rf'], True, False, w['U2'])][k]()


@op('gen-group')
def _(w, r):
    from qsymm.groups import generate_group
    return generate_group(w[pick(r, 'gens', 'gset')])


@op('named')
def _(w, r):
    from qsymm import groups
    k = r.randint(4)
    return [lambda: groups.square(), lambda: groups.hexagonal(), lambda: groups.cubic(generators=True),
            lambda: groups.hexagonal(spin=.5, ph=False)][k]()


@op('subgroups', cost=2)
def _(w, r):
    from qsymm.groups import generate_subgroups
    d = generate_subgroups(w['group'])
    return {k: len(v) for k, v in d.items()}


@op('set-multiply')
def _(w, r):
    from qsymm.groups import set_multiply
    return set_multiply(w['gset'], w['group'])


@op('spin')
def _(w, r):
    from qsymm.groups import L_matrices, spin_matrices, spin_rotation
    k = r.randint(4)
    return [lambda: spin_matrices(1.5), lambda: spin_rotation(np.array([0, 0, .7]), .5), lambda: L_matrices(3, 1),
            lambda: spin_matrices(.5, include_0=True)][k]()


@op('perm-sym')
def _(w, r):
    from qsymm.groups import symmetry_from_permutation
    return symmetry_from_permutation(np.eye(2), w['perm'], w['norbs'], antiunitary=bool(r.randint(2)))


@op('symmetries', cost=6)
def _(w, r):
    import qsymm
    c = w[pick(r, 'cands', 'candlist')] if r.rand() < .7 else None
    return qsymm.symmetries(w[pick(r, 'm0', 'm1', 'm2')], c, prettify=bool(r.randint(2)),
                            continuous_rotations=bool(r.randint(2)), generators=bool(r.randint(2)))


@op('symmetries-bloch', cost=6)
def _(w, r):
    import qsymm
    return qsymm.symmetries(w[pick(r, 'b0', 'b1', 'b2')], w['cands'])


@op('discrete', cost=5)
def _(w, r):
    import qsymm
    k = r.randint(2)
    return qsymm.discrete_symmetries(w[pick(r, 'm0', 'm2', 'b0')], w[pick(r, 'cands', 'group')],
                                     generators=bool(k))


@op('discrete-ps', cost=4)
def _(w, r):
    import qsymm
    return qsymm.discrete_symmetries(w['m4'], w['gset'] | {w['trn']}, Ps=w['Ps'])


@op('continuous', cost=4)
def _(w, r):
    import qsymm
    return qsymm.continuous_symmetries(w[pick(r, 'm0', 'm2')], prettify=bool(r.randint(2)))


@op('conserved', cost=3)
def _(w, r):
    import qsymm
    return qsymm.conserved_quantities(w['Ps'], prettify=bool(r.randint(2)))


@op('continuum', cost=4)
def _(w, r):
    import qsymm
    return qsymm.continuum_hamiltonian(w[pick(r, 'gens', 'bgens')], 2, r.randint(1, 3), momenta=w['momenta'],
                                       prettify=bool(r.randint(2)), num_digits=3)


@op('continuum-powers', cost=3)
def _(w, r):
    import qsymm
    return qsymm.continuum_hamiltonian(w['gens'], 2, 2, all_powers=[w['powers'], 2])


@op('pairing', cost=4)
def _(w, r):
    import qsymm
    return qsymm.continuum_pairing(w['bgens'], 2, 1, momenta=w['momenta'], prettify=bool(r.randint(2)))


@op('variables')
def _(w, r):
    from qsymm.hamiltonian_generator import continuum_variables
    return continuum_variables(2, 3, momenta=w['momenta']) if r.rand() < .5 else \
        continuum_variables(2, 2, all_powers=[w['powers'], w['powers']])


@op('bloch-family', cost=5)
def _(w, r):
    import qsymm
    k = r.randint(4)
    if k == 0:
        return qsymm.bloch_family(w['hops1'], w['bgens'], w['norbs1'])
    if k == 1:
        return qsymm.bloch_family(w['hops1'], w['bgens'], w['norbs1'], onsites=False, bloch_model=True)
    if k == 2:
        return qsymm.bloch_family(w['hops'], [], w['norbs'], momenta=w['momenta'], bloch_model=True)
    return qsymm.bloch_family(w['hops1'], [w['tr']], w['norbs1'], symmetrize=True, prettify=bool(r.randint(2)))


@op('family-tools', cost=3)
def _(w, r):
    from qsymm import hamiltonian_generator as h
    k = r.randint(7)
    return [lambda: h.remove_duplicates(w['fam'] + w['fam2']), lambda: h.subtract_family(w['fam'], w['fam2']),
            lambda: h.make_basis_pretty(w['fam']), lambda: h.round_family(w['fam'], 2),
            lambda: h.constrain_family([w['c4']], w['fam']),
            lambda: h.hamiltonian_from_family(w['fam'], coeffs=w['coeffs'][:len(w['fam'])], tosympy=bool(r.randint(2))),
            lambda: h.hamiltonian_from_family(w['fam'])][k]()


@op('check-symmetry', cost=2)
def _(w, r):
    from qsymm.hamiltonian_generator import check_symmetry
    try:
        return check_symmetry(w['fam'], [w['tr']] if r.rand() < .5 else w['gens'])
    except InjectedFault:
        raise
    except Exception as ex:
        return type(ex).__name__


@op('symmetrize', cost=2)
def _(w, r):
    from qsymm.hamiltonian_generator import symmetrize_monomial
    return symmetrize_monomial(w[pick(r, 'm2', 'b2')], w['bgens'])


@op('display', cost=2)
def _(w, r):
    from qsymm.hamiltonian_generator import display_family
    return display_family(w['fam'], summed=bool(r.randint(2)))


@op('lattice', cost=3)
def _(w, r):
    import qsymm
    return qsymm.bravais_point_group(w[pick(r, 'periods', 'periods3')], tr=bool(r.randint(2)),
                                     generators=bool(r.randint(2)))


@op('lll', cost=2)
def _(w, r):
    from qsymm.kwant_linalg_lll import cvp, lll, voronoi
    k = r.randint(3)
    return [lambda: lll(w['periods']), lambda: cvp(np.array([.3, .2]), w['periods'], n=2),
            lambda: voronoi(w['periods'])][k]()


@op('diag')
def _(w, r):
    from qsymm import linalg
    ps = linalg.simult_diag(w['mats'], checks=1)
    return [p @ p.conj().T for p in ps]


@op('nullspace')
def _(w, r):
    from qsymm import linalg
    n = linalg.nullspace(w['arr'])
    return n.T @ n.conj()


@op('rref')
def _(w, r):
    from qsymm import linalg
    return linalg.rref(w['arr'], return_S=bool(r.randint(2)))


@op('sparse-basis')
def _(w, r):
    from qsymm import linalg
    return linalg.sparse_basis(w['arr'][:3], reals=bool(r.randint(2)))


@op('basis')
def _(w, r):
    from qsymm import linalg
    return list(linalg.matrix_basis(2, traceless=bool(r.randint(2)), antihermitian=bool(r.randint(2)),
                                    sparse=bool(r.randint(2))))


@op('mat-eqn', cost=2)
def _(w, r):
    from qsymm import linalg
    H = [x for x in w['m0'].values()]
    B = linalg.solve_mat_eqn(H, H, hermitian=True)
    v = np.array([np.concatenate([b.real.ravel(), b.imag.ravel()]) for b in B])
    if not len(v):
        return 0
    q = np.linalg.qr(v.T)[0]
    return q @ q.T


@op('random-seeded')
def _(w, r):
    from qsymm import kwant_rmt
    k = r.randint(2)
    return kwant_rmt.gaussian(4, 'AII', rng=7) if k else kwant_rmt.circular(4, 'D', charge=1, rng=11)


@op('errors')
def _(w, r):
    """Calls that must be refused; the refusal is the result."""
    import qsymm
    k = r.randint(8)
    bad = [lambda: w['m0'] + w['m0z'], lambda: w['m0'] * 'x', lambda: qsymm.Model(w['raw'], momenta=['k_z', 3]),
           lambda: qsymm.mirror([1, 0], U=SX, spin=.5), lambda: w['c4'] * w['m0z'], lambda: qsymm.rotation(1 / 4) * 3,
           lambda: qsymm.bravais_point_group(np.eye(5)), lambda: w['m0'] @ np.eye(3)][k]
    try:
        return ('accepted', canon(bad()))
    except InjectedFault:
        raise
    except Exception as ex:
        return ('refused', type(ex).__name__)


NAMES = list(OPS)
COST = {n: f.cost for n, f in OPS.items()}


def draw(rng, k, cheap=False):
    names = [n for n in NAMES if not cheap or COST[n] <= 3]
    return [[rng.choice(names), rng.randrange(10**6)] for _ in range(k)]


try:
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sites.json')) as _f:
        SITES = json.load(_f, object_pairs_hook=collections.OrderedDict)
except OSError:
    SITES = collections.OrderedDict()


def aimed(rng):
    """A library function and calls that reach it: every function is as likely as any other."""
    f = rng.choice(list(SITES))
    return f, [[n, s, w] for n, s, w in SITES[f] if n in OPS]


def do(w, opn):
    return OPS[opn[0]](w, np.random.RandomState(opn[1]))


# ---------------------------------------------------------------- canonical

def canon(x, depth=0):
    import sympy
    import tinyarray as ta
    import qsymm
    from qsymm.model import BlochCoeff
    if depth > 12:
        return ('deep',)
    d = depth + 1
    if isinstance(x, qsymm.Model):
        items = sorted(((ckey(k), canon(v, d)) for k, v in x.items()), key=lambda t: repr(t[0]))
        fmt = getattr(x, 'format', None)
        return ('model', type(x).__name__, tuple(str(k) for k in x.momenta), getattr(fmt, '__name__', str(fmt)),
                canon(tuple(x.shape) if x.shape is not None else None), items)
    if isinstance(x, qsymm.PointGroupElement):
        R = np.array(x.R).astype(float) if np.size(x.R) else np.zeros((0, 0))
        return ('pge', canon(R), bool(x.conjugate), bool(x.antisymmetry),
                None if x.U is None else canon(np.array(x.U)), bool(x._strict_eq))
    if isinstance(x, qsymm.ContinuousGroupGenerator):
        return ('cgg', canon(x.R), canon(x.U))
    if isinstance(x, BlochCoeff):
        return ckey(x)
    if isinstance(x, (sympy.MatrixBase,)):
        return ('symat', x.shape, [canon(e, d) for e in x])
    if isinstance(x, sympy.Basic):
        if x.is_number:
            try:
                return ('num', complex(x))
            except TypeError:
                pass
        return ('sym', str(x), tuple(sorted((str(s), s.is_commutative) for s in x.free_symbols)))
    if sps.issparse(x):
        return ('sparse', x.format, canon(x.toarray()))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('oarr', x.shape, [canon(e, d) for e in x.ravel()])
        return ('arr', x.dtype.kind, x.shape, np.array(x, complex) if x.dtype.kind in 'biufc' else str(x))
    if isinstance(x, (ta.ndarray_int, ta.ndarray_float, ta.ndarray_complex)):
        return ('ta', canon(np.array(x)))
    if isinstance(x, dict):
        return ('dict', sorted(((canon(k, d), canon(v, d)) for k, v in x.items()), key=lambda t: repr(t[0])))
    if isinstance(x, (set, frozenset)):
        return ('set', sorted((canon(e, d) for e in x), key=repr))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(e, d) for e in x])
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, complex, np.number)):
        return ('num', complex(x))
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, type(iter([]))) or hasattr(x, '__next__'):
        return ('iter', [canon(e, d) for e in x])
    return ('other', type(x).__name__)


def ckey(k):
    from qsymm.model import BlochCoeff
    if isinstance(k, BlochCoeff):
        hop = tuple(round(float(h), 6) + 0. for h in k[0])
        return ('bc', hop, canon(k[1]))
    return canon(k)


def near(a, b, tol=1e-7):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(a).max(initial=0))))
    if isinstance(a, complex):
        return abs(a - b) <= tol * (1 + abs(a)) or (a != a and b != b)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        if len(a) == 2 and a[0] in ('set', 'dict') and b[0] == a[0]:
            rest = list(b[1])
            for e in a[1]:
                for i, f in enumerate(rest):
                    if near(e, f, tol):
                        del rest[i]
                        break
                else:
                    return False
            return not rest
        return all(near(x, y, tol) for x, y in zip(a, b))
    return a == b


def diff(a, b, path=''):
    """Short description of the first difference."""
    if type(a) is not type(b):
        return f'{path}: {type(a).__name__} {str(a)[:80]} vs {type(b).__name__} {str(b)[:80]}'
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: lengths {len(a)} vs {len(b)}: {str(a)[:150]} vs {str(b)[:150]}'
        for i, (x, y) in enumerate(zip(a, b)):
            if not near(x, y):
                return diff(x, y, f'{path}[{i}]')
        return f'{path}: order'
    return f'{path}: {str(a)[:150]} vs {str(b)[:150]}'


def snapshot(w):
    return collections.OrderedDict((k, canon(v)) for k, v in w.o.items())


def identities(w):
    """Which objects containers hold (contents must stay the same objects)."""
    out = {}
    for k, v in w.o.items():
        if isinstance(v, (list, tuple)):
            out[k] = [id(e) for e in v]
        elif isinstance(v, dict):
            out[k] = [(id(a), id(b)) for a, b in v.items()]
        elif isinstance(v, (set, frozenset)):
            out[k] = sorted(id(e) for e in v)
    return out


from . import catalogue2, catalogue3  # noqa: E402,F401  (registers further calls)

NAMES[:] = list(OPS)
COST.update({n: f.cost for n, f in OPS.items()})
