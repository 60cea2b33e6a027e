"""Calls that are given whole containers: lists, nested lists, arrays and dictionaries the caller keeps."""
import collections
import math

import numpy as np
import scipy.sparse as sps

from .catalogue import BUILD as B, S0, SX, SY, SZ, op, pick


def _build():
    import qsymm
    import sympy
    from qsymm.model import BlochCoeff
    B['apow'] = lambda w: [1, 2]
    B['apow2'] = lambda w: [[0, 2], 1]
    B['apow3'] = lambda w: [2, [0, 1], 1]
    B['totals'] = lambda w: [0, 2]
    B['phases'] = lambda w: [0., 0.]
    B['pharr'] = lambda w: np.array([0., 0.])
    B['momidx'] = lambda w: [0, 1]
    B['momtuple'] = lambda w: ('k_y', 'k_x')
    B['momsym'] = lambda w: [sympy.Symbol('p'), sympy.Symbol('q')]
    B['pairgens'] = lambda w: [qsymm.time_reversal(2, U=1j * SY), qsymm.ContinuousGroupGenerator(None, SZ.copy())]
    B['pairgens1'] = lambda w: [qsymm.PointGroupElement(-np.eye(2, dtype=int), False, False, S0.copy()), qsymm.time_reversal(2, U=1j * SY)]
    B['mixed'] = lambda w: [w['tr'], w['cggU'], w['cgg']]
    B['hopsets'] = lambda w: [('A', 'A', [1, 0]), ['A', 'A', [0, 1]]]
    B['norbkeys'] = lambda w: [['A', 2]]
    B['actions'] = lambda w: {'A': 1j * SY, 'B': np.array(SX)}
    B['perm2'] = lambda w: {'A': 'B', 'B': 'A'}
    B['norbs22'] = lambda w: [('A', 2), ('B', 2)]
    B['axlist'] = lambda w: [1, 1, 0]
    B['axarr'] = lambda w: np.array([1, 0, 1])
    B['axsym'] = lambda w: sympy.Matrix([1, 0, 0])
    B['spinlist'] = lambda w: [np.array(a) / 2 for a in (SX, SY, SZ)]
    B['spinarr'] = lambda w: np.array([SX, SY, SZ]) / 2
    B['nlist'] = lambda w: [0., .3, 0.]
    B['Ulist'] = lambda w: np.array([[0, 1], [1, 0]])
    B['kset'] = lambda w: [sympy.Symbol('alpha'), w['m0'].momenta[0]]
    B['keepset'] = lambda w: {sympy.Symbol('alpha')}
    B['rawdense'] = lambda w: {'k_x': np.array(SX), 'a*k_y': np.array([[0, -1j], [1j, 0]])}
    B['localsM'] = lambda w: {'H': sympy.Matrix([[1, 0], [0, -1]]), 'al': sympy.Symbol('al'), 'c': 3}
    B['neigh'] = lambda w: np.array([[1., 0], [0, 1], [1, 1]])
    B['neigh3'] = lambda w: np.array([[1., 0, 0], [0, 1, 0], [0, 0, 1]])
    B['vec'] = lambda w: np.array([.4, -.3])
    B['perlist'] = lambda w: [[1., 0], [0., 1.2]]
    B['perint'] = lambda w: np.array([[1, 0], [3, 1]])
    B['reals'] = lambda w: np.array([[1., 2, 3], [2., 4, 6.5], [0, 1, 1]])
    B['cplx'] = lambda w: np.array([[1, 1j, 0], [1j, -1, 2]])
    B['spmats'] = lambda w: [sps.csr_matrix(np.kron(SZ, S0)), sps.csc_matrix(np.kron(SX, S0))]
    B['fams'] = lambda w: [qsymm.Model({w['m0'].momenta[0]: SX.copy()}, momenta=['k_x', 'k_y']),
                           qsymm.Model({w['m0'].momenta[0]: SX + .123456 * SZ}, momenta=['k_x', 'k_y'])]
    B['cosyms'] = lambda w: [sympy.Symbol('u1'), sympy.Symbol('u2'), sympy.Symbol('u3'), sympy.Symbol('u4')]
    B['conames'] = lambda w: ['c1', 'c2', 'c3', 'c4']
    B['lamloc'] = lambda w: {'a': 2.5, 'h': 'k_x + b'}
    B['symR3'] = lambda w: sympy.Matrix([[0, -1, 0], [1, 0, 0], [0, 0, 1]])
    B['Kset'] = lambda w: {w['trn'], qsymm.mirror([1, 0])}
    B['candset'] = lambda w: set(w['candlist'])
    B['bc'] = lambda w: BlochCoeff(np.array([1., 0]), sympy.Symbol('t'))
    B['hop'] = lambda w: np.array([0., 1])
    B['evsubs'] = lambda w: {sympy.Symbol('alpha'): 2, 'm': 3.}


_build()


def span(fam):
    """The space a family spans over the reals: which basis it is given in is free."""
    keys = sorted({k for m in fam for k in m.keys()}, key=str)
    v = np.array([np.concatenate([np.asarray(m[k]).ravel() for k in keys]) for m in fam]) if fam and keys else np.zeros((0, 0))
    v = np.hstack([v.real, v.imag])
    return len(fam), [str(k) for k in keys], np.linalg.pinv(v) @ v


@op('container-variables')
def _(w, r):
    from qsymm.hamiltonian_generator import continuum_variables as cv
    k = r.randint(7)
    return [lambda: cv(2, 2, w['apow']), lambda: cv(2, 1, w['apow2']), lambda: cv(2, 2, all_powers=w['apow3']),
            lambda: cv(3, 2, w['apow3']), lambda: cv(2, 2, w['apow'], momenta=w['momidx']),
            lambda: cv(2, 1, momenta=w['momsym']), lambda: cv(1, 1, w['apow2'], momenta=w['momsym'])][k]()


@op('container-continuum', cost=4)
def _(w, r):
    import qsymm
    g = w[pick(r, 'gens', 'mixed', 'bgens')]
    k = r.randint(4)
    if k == 0:
        return span(qsymm.continuum_hamiltonian(g, 2, w['totals'], momenta=w['momsym']))
    if k == 1:
        return span(qsymm.continuum_hamiltonian(g, 2, w['totals'], all_powers=w['apow']))
    if k == 2:
        return span(qsymm.continuum_hamiltonian(g, 2, 2, all_powers=w['apow2'], momenta=w['momenta']))
    return span(qsymm.continuum_hamiltonian(g, 2, 1, all_powers=w['apow3'], sparse_linalg=bool(r.randint(2))))


@op('container-pairing', cost=4)
def _(w, r):
    import qsymm
    k = r.randint(4)
    if k == 0:
        return span(qsymm.continuum_pairing(w['pairgens'], 2, w['totals'], momenta=w['momenta'], phases=w['phases']))
    if k == 1:
        return span(qsymm.continuum_pairing(w['pairgens1'], 2, 1, momenta=w['momenta'], phases=w['pharr'], ph_square=-1))
    if k == 2:
        return span(qsymm.continuum_pairing(w['pairgens1'], 2, w['totals'], all_powers=w['apow'], momenta=w['momenta'], prettify=True))
    return span(qsymm.continuum_pairing(w['pairgens'], 2, 1, all_powers=w['apow2'], momenta=w['momenta']))


@op('container-bloch', cost=5)
def _(w, r):
    import qsymm
    k = r.randint(3)
    if k == 0:
        return span(qsymm.bloch_family(w['hopsets'], w['mixed'][:2], w['norbkeys'], momenta=w['momsym']))
    if k == 1:
        return span(qsymm.bloch_family(w['hopsets'], [w['trn']][:r.randint(1)], w['norbkeys'], momenta=w['momsym'], bloch_model=True))
    return span(qsymm.bloch_family(w['hops1'], w['pairgens'], w['norbs1'], momenta=w['momenta'], prettify=False))


@op('container-family', cost=3)
def _(w, r):
    from qsymm import hamiltonian_generator as h
    k = r.randint(8)
    return [lambda: h.hamiltonian_from_family(w['fams'] * 2, coeffs=w['cosyms'], tosympy=bool(r.randint(2))),
            lambda: h.hamiltonian_from_family(w['fams'], coeffs=w['cosyms'][:2]),
            lambda: h.remove_duplicates(w['fams']), lambda: h.round_family(w['fams'], 2),
            lambda: span(h.constrain_family(w['mixed'], w['fams'])), lambda: h.subtract_family(w['fams'], w['fams'][:1]),
            lambda: h.make_basis_pretty(w['fams'], 3),
            lambda: h.check_symmetry(w['fams'][:1], [])][k]()


@op('container-perm')
def _(w, r):
    from qsymm.groups import symmetry_from_permutation as sp
    k = r.randint(4)
    return [lambda: sp(w['Rint'], w['perm2'], w['norbs22'], onsite_action=w['actions']),
            lambda: sp(w['Rint'], w['perm2'], collections.OrderedDict(w['norbs22']), onsite_action=w['Ulist']),
            lambda: sp(w['Rint'], w['perm2'], w['norbs22']),
            lambda: sp(w['Rint'], w['perm2'], w['norbs22'], onsite_action=w['actions'], antisymmetry=True)][k]()


@op('container-elements')
def _(w, r):
    import qsymm
    from qsymm import groups as g
    k = r.randint(12)
    return [lambda: qsymm.rotation(1 / 2, w['axlist']), lambda: qsymm.rotation(1 / 4, w['axarr'], spin=w['spinlist']),
            lambda: qsymm.mirror(w['axlist'], spin=w['spinarr']), lambda: qsymm.mirror(w['axsym']),
            lambda: g.spin_rotation(w['nlist'], w['spinarr']), lambda: qsymm.time_reversal(3, spin=w['spinlist']),
            lambda: qsymm.PointGroupElement(w['Rint'], U=w['Ulist']), lambda: qsymm.PointGroupElement(w['symR3'], True),
            lambda: qsymm.chiral(2, w['Ulist']), lambda: qsymm.inversion(2, w['Ulist']), lambda: g.rotation_to_angle(np.array(g.rotation(1 / 3, w['axlist']).R, float)),
            lambda: qsymm.ContinuousGroupGenerator(w['cgg'].R, w['Ulist'])][k]()


@op('container-groups', cost=2)
def _(w, r):
    import qsymm
    from qsymm import groups as g
    k = r.randint(3)
    return [lambda: g.generate_group(w['Kset']), lambda: g.set_multiply(w['Kset'], w['gset']),
            lambda: sorted((len(s), len(gg)) for s, gg in qsymm.groups.generate_subgroups(w['group']).items())][k]()


@op('container-symmetries', cost=6)
def _(w, r):
    import qsymm
    k = r.randint(4)

    def bare(d):        # the basis of a block is free
        return {qsymm.PointGroupElement(g.R, g.conjugate, g.antisymmetry) for g in d}
    if k == 0:
        d, c = qsymm.symmetries(w['m4'], w['candset'], sparse_linalg=bool(r.randint(2)))
        return bare(d), len(c)
    if k == 1:
        return bare(qsymm.discrete_symmetries(w['m4'], w['candset'], Ps=w['Ps'])[0])
    if k == 2:
        return len(qsymm.continuous_symmetries(w['m4'], Ps=w['Ps'], prettify=bool(r.randint(2))))
    return len(qsymm.symmetry_finder.conserved_quantities(w['Ps'], prettify=bool(r.randint(2))))


@op('container-algebra')
def _(w, r):
    from qsymm import symmetry_finder as s
    k = r.randint(3)
    return [lambda: s.struct_const(w['su2']), lambda: s.killing(w['su2']), lambda: s.casimir(w['su2'])][k]()


@op('container-lattice', cost=2)
def _(w, r):
    import qsymm
    from qsymm import kwant_linalg_lll as l, symmetry_finder as s
    k = r.randint(11)
    return [lambda: l.lll(w['perlist']), lambda: l.lll(w['perint'] + 0.), lambda: l.lll(w['perint']), lambda: l.cvp(w['vec'], w['perlist'], n=3),
            lambda: l.cvp(w['vec'], w['perlist'], n=2, group_by_length=True), lambda: l.voronoi(w['perlist']),
            lambda: s.equals(w['neigh']), lambda: s.pick_perp(w['neigh3'], 1, w['neigh3']),
            lambda: s.check_bravais_symmetry(w['neigh'], {w['c4n']}), lambda: l.is_c_reduced(w['neigh3'], 1.34),
            lambda: qsymm.bravais_point_group(w['perlist'])][k]()


@op('container-linalg')
def _(w, r):
    from qsymm import linalg as l
    k = r.randint(10)

    def proj(v):
        v = np.array(v)
        return v.conj().T @ v
    return [lambda: l.rref(w['reals']), lambda: l.rref(w['cplx'], return_S=True), lambda: l.sparse_basis(w['cplx'], reals=True),
            lambda: l.sparse_basis(w['cplx'], 4), lambda: proj(l.nullspace(w['cplx'])),
            lambda: [proj(x) for x in l.nullspace(w['reals'][:2], return_complement=True)],
            lambda: proj(np.array([m.ravel() for m in l.solve_mat_eqn(list(w['mats']))])),
            lambda: [np.shape(x) for x in l.solve_mat_eqn(w['spmats'], hermitian=True)],
            lambda: [p @ p.conj().T for p in l.simult_diag(list(w['mats']))],
            lambda: l.family_to_vectors(w['fams'], all_keys=None)][k]()


@op('container-models')
def _(w, r):
    import qsymm
    k = r.randint(9)
    return [lambda: qsymm.Model(w['rawdense'], momenta=w['momenta']), lambda: qsymm.Model(w['rawdense'], momenta=w['momtuple']),
            lambda: qsymm.Model(w['raw'], momenta=w['momenta'], keep=w['kset']),
            lambda: qsymm.Model(w['raw'], momenta=w['momenta'], keep=w['keepset']),
            lambda: qsymm.Model('al * H + c * k_x * eye(2)', locals=w['localsM'], momenta=w['momenta']),
            lambda: qsymm.BlochModel(w['braw'], momenta=w['momenta']), lambda: qsymm.Model({}, shape=w['shape'], momenta=w['momsym']),
            lambda: qsymm.BlochModel(w['braw'], momenta=w['momenta'], format=np.ndarray),
            lambda: w['m2'].value_list(w['kset'])][k]()


@op('container-model-calls')
def _(w, r):
    k = r.randint(7)
    return [lambda: w['m2'].rotate_momenta(w['Rint']), lambda: w['b2'].rotate_momenta(w['Rint']), lambda: w['b0'].subs(w['evsubs']),
            lambda: w['m2'].reshape(w['shape']), lambda: w['bc'] * w['bc'], lambda: w['bc'].tosympy(w['momsym']),
            lambda: type(w['bc'])(w['hop'], w['bc'][1])][k]()


@op('container-symbolic')
def _(w, r):
    from qsymm import kwant_continuum as kc
    k = r.randint(5)
    return [lambda: kc.sympify('al * H + c', locals={**w['localsM'], 'c': w['localsM']['H']}), lambda: kc.sympify('al * H', locals=w['localsM']),
            lambda: kc.monomials(w['expr'], gens=w['symgens']), lambda: np.asarray(kc.lambdify('a * h * k_x', locals=w['lamloc'])(b=1., k_x=.5)),
            lambda: kc.monomials(kc.sympify('x * y + 2 * y', locals=w['lamloc']), gens=w['conames'] + ['x'])][k]()
