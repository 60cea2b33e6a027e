"""Further calls of the catalogue: helpers, containers of other kinds, copies."""
import collections
import math

import numpy as np
import scipy.sparse as sps

from . import catalogue as cat
from .catalogue import BUILD as B, S0, SX, SY, SZ, op, pick
from .core import InjectedFault


def _build():
    import qsymm
    import sympy
    B['su2'] = lambda w: np.array([np.kron(a / 2, S0) for a in (SX, SY, SZ)])
    B['so4'] = lambda w: [np.kron(a / 2, S0) for a in (SX, SY, SZ)] + [np.kron(S0, a / 2) for a in (SX, SY, SZ)]
    B['hopsarr'] = lambda w: [('A', 'A', np.array([1, 0])), ('A', 'B', np.array([.5, .5])), ['B', 'B', (1, 0)]]
    B['norblist'] = lambda w: [('A', 1), ('B', 1)]
    B['gentuple'] = lambda w: (w['tr'], w['c4'])
    B['genset'] = lambda w: {w['tr'], w['c4']}
    B['bfam'] = lambda w: qsymm.bloch_family(w['hops1'], [w['tr']], w['norbs1'], bloch_model=True)
    B['vals'] = lambda w: np.array([1., 1, 2, 2.0000001, 5])
    B['keys'] = lambda w: list(w['m2'].keys())
    B['expr'] = lambda w: qsymm.sympify('a * k_x**2 * sigma_x + b * k_x * k_y * sigma_y + c * sigma_0')
    B['symgens'] = lambda w: [qsymm.sympify('k_x'), qsymm.sympify('k_y')]
    B['subslist'] = lambda w: [('alpha', 1.5), (sympy.Symbol('m'), 2)]
    B['pairsyms'] = lambda w: [qsymm.time_reversal(2, U=1j * SY)]
    B['phsq'] = lambda w: (1, -1)
    B['Rint'] = lambda w: np.array([[0, -1], [1, 0]])
    B['onsite'] = lambda w: np.array(SX) + 0
    B['csr'] = lambda w: sps.csr_matrix(np.kron(SZ, S0))
    B['axis'] = lambda w: np.array([0., 0., 2.])
    B['mnormal'] = lambda w: np.array([3., 4.])
    B['nvec'] = lambda w: np.array([.1, .2, .7])
    B['spins'] = lambda w: [a / 2 for a in (SX, SY, SZ)]
    B['symR'] = lambda w: sympy.Matrix([[0, -1], [1, 0]])
    B['ordR'] = lambda w: np.array([[.5, -math.sqrt(3) / 2], [math.sqrt(3) / 2, .5]])
    B['cgglist'] = lambda w: [qsymm.ContinuousGroupGenerator(None, SZ.copy()), qsymm.ContinuousGroupGenerator(None, S0.copy())]


_build()


@op('sun', cost=2)
def _(w, r):
    from qsymm.symmetry_finder import symmetry_adapted_sun
    res = symmetry_adapted_sun(w['su2'])
    return sorted(np.shape(p)[1:] for p in res) if isinstance(res, list) else np.shape(res)


@op('lie', cost=2)
def _(w, r):
    from qsymm.symmetry_finder import separate_lie_algebra
    z, s = separate_lie_algebra(np.array(w['so4']) * 1j if r.rand() < .5 else np.array(w['so4']))
    return len(z), sorted(len(x) for x in s)


@op('bloch-family-kinds', cost=5)
def _(w, r):
    import qsymm
    k = r.randint(4)
    if k == 0:
        return qsymm.bloch_family(w['hopsarr'], [], w['norblist'], bloch_model=True)
    if k == 1:
        return qsymm.bloch_family(w['hopsarr'], [w['trn']], w['norbs'], symmetrize=True, momenta=w['momenta'])
    if k == 2:
        return qsymm.bloch_family(w['hopsarr'], w['gentuple'][:0], w['norbs'], onsites=False)
    return qsymm.bloch_family(w['hops1'], w['gentuple'], w['norbs1'], prettify=True, num_digits=4)


@op('continuum-kinds', cost=4)
def _(w, r):
    import qsymm
    g = w[pick(r, 'gentuple', 'genset', 'pairsyms')]
    k = r.randint(3)
    if k == 0:
        return qsymm.continuum_hamiltonian(list(g), 2, 1, momenta=w['momenta'], sparse_linalg=False)
    if k == 1:
        return qsymm.continuum_pairing(w['pairsyms'], 2, 1, ph_square=int(pick(r, *w['phsq'])))
    return qsymm.continuum_hamiltonian(w['gentuple'], 2, 2, all_powers=[w['powers'], w['powers']], prettify=True)


@op('constrain', cost=3)
def _(w, r):
    from qsymm import hamiltonian_generator as h
    k = r.randint(5)
    return [lambda: h.constrain_family(w['gens'], w['fam']), lambda: h.constrain_family(w['gentuple'], w['bfam']),
            lambda: h.subtract_family(w['bfam'], w['bfam'][:1], prettify=True), lambda: h.make_basis_pretty(w['bfam'], 3),
            lambda: h.remove_duplicates(w['bfam'] + w['bfam'])][k]()


@op('family-vectors')
def _(w, r):
    from qsymm import linalg
    return linalg.family_to_vectors(w[pick(r, 'fam', 'fam2', 'bfam')])


@op('lin-utils')
def _(w, r):
    from qsymm import linalg
    k = r.randint(6)
    return [lambda: linalg.split_list(list(w['vals'])), lambda: linalg.commutator(w['U2'], w['onsite']),
            lambda: linalg.prop_to_id(w['mats'][0]), lambda: linalg.allclose(w['csr'], w['csr']),
            lambda: linalg.mtm(w['mats'][0], w['csr'], w['mats'][1]), lambda: linalg.commutator(w['mats'][0], w['mats'][1])][k]()


@op('symbolic-tools')
def _(w, r):
    from qsymm import kwant_continuum as kc
    k = r.randint(4)
    if k == 0:
        return kc.monomials(w['expr'], w['symgens'])
    if k == 1:
        return kc.make_commutative(w['expr'], *w['symgens'])
    if k == 2:
        return kc.monomials(w['expr'])
    return np.asarray(kc.lambdify('foo * k_x', locals=w['locals'])(3.))


@op('copies')
def _(w, r):
    """A changed copy is changed; its original is not."""
    import copy
    m = w[pick(r, 'm0', 'm2', 'ms', 'b0', 'b2')]
    c = [m.copy, lambda: copy.copy(m), lambda: copy.deepcopy(m)][r.randint(3)]()
    for v in c.values():
        if sps.issparse(v):
            v.data *= 3
        else:
            v *= 3
    if r.rand() < .5:
        del c[min(c.keys(), key=str)]
    if r.rand() < .5:
        c.eliminate_zeros()
    return c


@op('sum-of-one')
def _(w, r):
    """Results of arithmetic share no data with the operands."""
    m = w[pick(r, 'm0', 'm2', 'ms', 'b0')]
    k = r.randint(5)
    c = [lambda: m + m.zeros_like(), lambda: m.zeros_like() + m, lambda: m + 0, lambda: m * 1, lambda: m - m.zeros_like()][k]()
    for v in c.values():
        if sps.issparse(v):
            v.data *= 3
        else:
            v *= 3
    return c


@op('iadd')
def _(w, r):
    a = w[pick(r, 'm0', 'm2')]
    k = r.randint(4)
    if k == 0:
        a += w['m1']
    elif k == 1:
        a *= 2
    elif k == 2:
        a -= w['m1']
    else:
        a /= 2
    return a


@op('subs-list')
def _(w, r):
    return w[pick(r, 'm0', 'm1', 'b0')].subs(w['subslist'])


NUMS = [1, 1., 2, 2., np.int64(1), np.float64(1.), np.int64(2), np.float64(2.)]


@op('number-keys')
def _(w, r):
    """Numbers as keys: integers and floating point numbers are different keys."""
    import qsymm
    import sympy
    n = [NUMS[i] for i in r.randint(len(NUMS), size=2)]
    m = qsymm.Model({sympy.Symbol('x'): S0}, momenta=[])
    m[n[0]] = SX
    m[n[1]] = SZ
    b = qsymm.BlochModel({n[0]: SX}, momenta=['k_x'])
    return m, sorted(sympy.srepr(k) for k in m.keys()), sorted(sympy.srepr(k[1]) for k in b.keys())


@op('number-text')
def _(w, r):
    import qsymm
    import sympy
    n = ['1', '1.0', '2', '2.0', 'k_x', '2*k_x', 'e', 'E', 'pi', '1/2', '0.5'][r.randint(11)]
    return sympy.srepr(qsymm.sympify(n)), [sympy.srepr(k) for k in qsymm.Model({n: S0}, momenta=['k_x']).keys()]


@op('values')
def _(w, r):
    import sympy
    m = w[pick(r, 'm0', 'm2', 'b2')]
    ks = list(m.keys())
    return {str(k): v for k, v in zip(ks, m.value_list(ks))}, m[sympy.Symbol('nothere')] if r.rand() < .5 else 0


@op('ops-kinds')
def _(w, r):
    import qsymm
    from qsymm import groups
    k = r.randint(10)
    return [lambda: qsymm.rotation(1 / 6, axis=w['axis'], spin=w['spins']), lambda: qsymm.mirror(w['mnormal'], U=w['U2']),
            lambda: qsymm.mirror(w['mnormal']), lambda: groups.spin_rotation(w['nvec'], w['spins']),
            lambda: qsymm.PointGroupElement(w['Rint'], False, False, w['U2']),
            lambda: qsymm.PointGroupElement(w['symR'], True, True, w['onsite']),
            lambda: qsymm.ContinuousGroupGenerator(1j * (w['Rint'] + 0.), w['U2']), lambda: qsymm.time_reversal(2, spin=w['spins']),
            lambda: qsymm.particle_hole(2, w['onsite']), lambda: qsymm.PointGroupElement(w['ordR'], U=w['U2'])][k]()


@op('perm-kinds')
def _(w, r):
    from qsymm.groups import symmetry_from_permutation
    k = r.randint(3)
    if k == 0:
        return symmetry_from_permutation(w['Rint'], w['perm'], w['norblist'])
    if k == 1:
        return symmetry_from_permutation(w['Rint'], {'A': 'A'}, w['norbs1'], onsite_action=w['onsite'])
    return symmetry_from_permutation(w['Rint'], {'A': 'A'}, w['norbs1'], onsite_action={'A': w['onsite']}, antisymmetry=True)


@op('lattice-verbose', cost=3)
def _(w, r):
    import qsymm
    return qsymm.bravais_point_group(w['periods'], ph=True, tr=True)


@op('rmt-own')
def _(w, r):
    from qsymm import kwant_rmt
    g = np.random.RandomState(r.randint(1000))
    k = r.randint(3)
    return [lambda: kwant_rmt.gaussian(4, 'C', rng=g), lambda: kwant_rmt.circular(4, 'CII', charge=1, rng=g),
            lambda: kwant_rmt.circular(3, 'D', charge=-1, rng=g)][k]()


@op('apply-more')
def _(w, r):
    import qsymm
    k = r.randint(4)
    if k == 0:
        return qsymm.PointGroupElement(w['symR'], False, False, w['U2']).apply(w['m0'])
    if k == 1:
        return w['cgglist'][0].apply(w['b0'])
    if k == 2:
        return w['trn'].apply(w['ms'])
    return [g.apply(w['bfam'][0]) for g in w['gens'][:2]]


@op('symmetries-kinds', cost=6)
def _(w, r):
    import qsymm
    k = r.randint(4)
    if k == 0:
        d, c = qsymm.symmetries(w['m4'], w['candlist'], generators=True)
        d = [qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry) for g in d]      # the basis of a block is free
        return sorted(d), len(c)
    if k == 1:
        d = qsymm.discrete_symmetries(w['m4'], set(w['candlist']), sparse_linalg=bool(r.randint(2)))[0]
        return {qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry) for g in d}
    if k == 2:
        return len(qsymm.continuous_symmetries(w['m4'], Ps=w['Ps']))
    return len(qsymm.symmetries(w['m4'], (g for g in w['candlist']))[0])





def _zoo(w):
    """Elements and generators of every dimension, with and without onsite action."""
    import qsymm
    from qsymm.groups import PointGroupElement as P, PrettyList
    c, s = math.cos(.7), math.sin(.7)
    out = [P(np.eye(d, dtype=int), cc, aa, U) for d in (0, 1, 2, 3) for cc, aa in ((0, 0), (1, 0), (0, 1), (1, 1))
           for U in (None, np.array(SX))]
    out += [qsymm.inversion(d) for d in (1, 2, 3)]
    out += [P(np.diag([1, 1, -1]), bool(k % 2), bool(k // 2)) for k in range(4)]
    out += [P(np.array([[c, -s, 0], [s, c, 0], [0, 0, -1]])), P(np.array([[c, -s], [s, c]]), True, U=SZ),
            P(np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]]), False, True), qsymm.mirror([1, 1, 0]), qsymm.mirror([1, 2]),
            qsymm.rotation(1 / 5, [1, 2, 3]), qsymm.rotation(1 / 3, spin=1), qsymm.mirror([0, 0, 1], spin=.5)]
    r2 = np.array([[0, -1j], [1j, 0]])
    r3 = np.zeros((3, 3), complex)
    r3[:2, :2] = r2
    r3b = np.array([[0, -3j, 2j], [3j, 0, -1j], [-2j, 1j, 0]])
    C = qsymm.ContinuousGroupGenerator
    out += [C(R, U) for R in (r2, -r2, 2 * r2, r3, r3b, None) for U in (None, np.array(SZ)) if R is not None or U is not None]
    return PrettyList(out)


B['zoo'] = _zoo


@op('zoo')
def _(w, r):
    z = w['zoo']
    i = r.randint(len(z), size=4)
    return [z[j] for j in i], [len(str(z[j])) > 0 and len(repr(z[j])) > 0 and isinstance(z[j]._repr_latex_(), str) for j in i]


@op('zoo-list')
def _(w, r):
    from qsymm.groups import PrettyList, pretty_print_cgg, pretty_print_pge
    z = w['zoo']
    L = PrettyList([z[j] for j in r.randint(len(z), size=3)])
    f, t = bool(r.randint(2)), bool(r.randint(2))
    for x in L:
        (pretty_print_cgg(x, latex=t) if hasattr(x, 'apply') and not hasattr(x, 'conjugate') else pretty_print_pge(x, full=f, latex=t))
    return L, isinstance(L._repr_latex_(), str)
