"""Workload and oracle of arguments that contradict each other or the documentation (C26).

A case is a pair of neighbours: a contradictory call, which has to raise, and the nearest valid call, which has to
succeed with a known result, before and after the refusal."""
import numpy as np
import scipy.sparse as sps

from . import gen
from .core import np_rng

MOMS = [('k_x',), ('k_y',), ('k_x', 'k_y'), ('k_y', 'k_x'), ('k_x', 'k_z'), ('k_x', 'k_y', 'k_z'), ('q', 'k_x'), ('q_1', 'q_2')]
CASES = {}


def case(f):
    CASES[f.__name__] = f
    return f


def generate(rng):
    return dict(env=gen.gen_env(rng), ops=[[rng.choice(sorted(CASES)), rng.randrange(10**6)] for _ in range(rng.randrange(2, 6))])


# ------------------------------------------------------------------ material
def mat(rs, n, herm=False, m=None):
    a = np.round(rs.standard_normal((n, m or n)) + 1j * rs.standard_normal((n, m or n)), 2)
    return a + a.conj().T if herm else a


def unitary(rs, n):
    return np.linalg.qr(mat(rs, n))[0]


def keys_of(rs, mom, bloch):
    import sympy
    from qsymm.model import e
    k = [sympy.Symbol(m, commutative=True) for m in mom]
    a = sympy.Symbol('a')
    if bloch:
        out = [sympy.S(1), a, e**(sympy.I * k[0]), e**(-sympy.I * sum(k)), a * e**(sympy.I * 2 * k[-1])]
    else:
        out = [sympy.S(1), a, k[0], k[-1]**2, a * k[0]]
    return [out[i] for i in sorted(rs.choice(len(out), rs.randint(1, 4), replace=False))]


def fmt(x, f):
    return x if f == 'dense' else sps.csr_matrix(x)


def model(rs, mom, n, bloch=False, f='dense', herm=False, m=None):
    import qsymm
    d = {k: fmt(mat(rs, n, herm, m), f) for k in keys_of(rs, mom, bloch)}
    M = qsymm.Model(d, momenta=mom)
    return qsymm.BlochModel(M) if bloch else M


def draw(rs):
    return MOMS[rs.randint(len(MOMS))], rs.randint(1, 4), bool(rs.rand() < .4), rs.choice(['dense', 'dense', 'csr'])


def other(rs, mom):
    o = [x for x in MOMS if x != mom]
    return o[rs.randint(len(o))]


def dense(v):
    return v.toarray() if sps.issparse(v) else np.asarray(v)


def shown(x):
    return repr(x), getattr(x, 'momenta', None), getattr(x, 'shape', None)


def same(A, B):
    """Equal as matrix valued functions (both in normal form)."""
    if A.momenta != B.momenta or type(A) is not type(B):
        return False
    return all(np.allclose(dense(A[k]), dense(B[k])) for k in set(A.keys()) | set(B.keys()))


def build(M, data):
    return type(M)(data, momenta=M.momenta, shape=M.shape, format=M.format)


# ------------------------------------------------------------------ Models
@case
def momenta_differ(rs):
    """Models of different momenta are not combined."""
    mom, n, bloch, f = draw(rs)
    A, B, C = model(rs, mom, n, bloch, f), model(rs, other(rs, mom), n, bloch, f), model(rs, mom, n, bloch, f)
    op = rs.choice(['+', '-', '@', '*'] if f == 'dense' else ['+', '-', '@'])
    g = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '@': lambda x, y: x @ y, '*': lambda x, y: x * y}[op]
    v = {'+': lambda x, y: x + y, '-': lambda x, y: x - y}.get(op)

    def ok(r):
        if v is None:
            return r.momenta == A.momenta and r.shape == A.shape
        return same(r, build(A, {k: x for k, x in {k: v(A[k], C[k]) for k in set(A.keys()) | set(C.keys())}.items()}))
    return f'{op} {type(A).__name__} {f}', [A, B, C], lambda: g(A, B), lambda: g(A, C), ok


@case
def shapes_differ(rs):
    """Models of different shapes or formats are not added."""
    mom, n, bloch, f = draw(rs)
    k = rs.randint(3)
    A, C = model(rs, mom, n, bloch, f), model(rs, mom, n, bloch, f)
    if k == 0:
        B = model(rs, mom, n + 1, bloch, f)
    elif k == 1:
        B = model(rs, mom, n, bloch, 'csr' if f == 'dense' else 'dense')
    else:
        B = model(rs, mom, n, bloch, f, m=n + 1)
    s = rs.rand() < .5
    return f'kind {k} {f}', [A, B, C], (lambda: A + B) if s else (lambda: B - A), lambda: A + C, \
        lambda r: same(r, build(A, {k: A[k] + C[k] for k in set(A.keys()) | set(C.keys())}))


@case
def constants(rs):
    """Only constants of the shape of the values are added."""
    import sympy
    mom, n, bloch, f = draw(rs)
    A = model(rs, mom, n, bloch, f)
    c = fmt(mat(rs, n), f)
    k = rs.randint(5)
    bad = [lambda: A + 1.5, lambda: 2 + A, lambda: A + mat(rs, n + 1), lambda: A - 1j, lambda: A + [1]][k]
    return f'{k} {f}', [A, c], bad, lambda: A + c, lambda r: r.momenta == A.momenta and len(r.data) == len(set(A.keys()) | {sympy.S(1)}) and all(
        np.allclose(dense(v), dense(A[k]) + (dense(c) if k == 1 else 0)) for k, v in r.items())


@case
def divisors(rs):
    """Only numbers divide a Model."""
    import sympy
    mom, n, bloch, f = draw(rs)
    A = model(rs, mom, n, bloch, f)
    x = [2, 2.5, -1j, np.float64(.3), np.int64(4)][rs.randint(5)]
    y = [A, np.eye(n), sympy.Symbol('a'), '2', None][rs.randint(5)]
    return f'{type(y).__name__}', [A], lambda: A / y, lambda: A / x, lambda r: same(r, build(A, {k: v * (1 / x) for k, v in A.items()}))


@case
def elementwise(rs):
    """Elementwise products of sparse Models are refused, the matrix product is not."""
    mom, n, bloch, f = draw(rs)
    A, B = model(rs, mom, n, bloch, 'csr'), model(rs, mom, n, bloch, 'csr')
    return '', [A, B], lambda: A * B, lambda: A @ B, lambda r: r.shape == (n, n) and sps.issparse(r[next(iter(r.keys()))]) if r.data else True


@case
def items(rs):
    """Values of a Model have one shape and one format."""
    import qsymm
    mom, n, bloch, f = draw(rs)
    A = model(rs, mom, n, bloch, f)
    wrong = [fmt(mat(rs, n + 1), f), fmt(mat(rs, n), 'csr' if f == 'dense' else 'dense'), 1.5, fmt(mat(rs, n, m=n + 1), f)][rs.randint(4)]
    right = fmt(mat(rs, n), f)
    key = keys_of(rs, mom, bloch)[0]

    def put(v):
        B = A.copy()
        B[key] = v
        return B
    how = rs.randint(3)
    if how == 0:
        return 'set', [A], lambda: put(wrong), lambda: put(right), lambda r: np.allclose(dense(r[key]), dense(right))
    v1, v2 = fmt(mat(rs, n), f), fmt(mat(rs, n), f)
    kw = dict(momenta=mom)
    if how == 2:
        kw.update(shape=(n, n))
        if rs.rand() < .5:
            kw.update(format=A.format)
        order = {'1': wrong if isinstance(wrong, float) or dense(wrong).shape != (n, n) else fmt(mat(rs, n + 1), f)}
        return f'declared {sorted(kw)}', [], lambda: qsymm.Model(order, **kw), lambda: qsymm.Model({'1': v1}, **kw), \
            lambda r: np.allclose(dense(r[1]), dense(v1)) and r.shape == (n, n)
    d = [('1', v1), ('a', wrong)]
    if rs.rand() < .5:
        d = d[::-1]
    return 'dict', [], lambda: qsymm.Model(dict(d), **kw), lambda: qsymm.Model({'1': v1, 'a': v2}, **kw), \
        lambda r: np.allclose(dense(r['a']), dense(v2)) and r.shape == (n, n)


@case
def momenta_names(rs):
    import qsymm
    bad = [[0, 1], ('k_x', 1), [2]][rs.randint(3)]
    v = mat(rs, 2)
    mom = MOMS[rs.randint(len(MOMS))]
    return str(bad), [bad], lambda: qsymm.Model({'1': v}, momenta=bad), lambda: qsymm.Model({'1': v}, momenta=mom), \
        lambda r: tuple(str(k) for k in r.momenta) == mom


@case
def bloch_keys(rs):
    """A BlochModel is a sum of hoppings with coefficients that do not depend on momenta."""
    import qsymm
    import sympy
    v = mat(rs, 2)
    a = round(rs.uniform(.1, 3), 2)
    k = min(rs.randint(14), 9)
    x, y, s = sympy.Symbol('k_x'), sympy.Symbol('k_y'), sympy.Symbol('a')
    from qsymm.model import e
    I = sympy.I
    c = qsymm.model.BlochCoeff(np.array([a, 0.]), s)
    text = [f'{a}*k_x', f'exp({a}*k_x)', 'exp(I*a*k_x)', 'k_y*exp(I*k_x)', 'k_x**2', f'a*k_x*exp({a}*I*k_y)'][k % 6]
    bad = [lambda: qsymm.BlochModel(text, momenta=('k_x', 'k_y'))] * 6 + [
        lambda: qsymm.BlochModel({c: v, s: v}, momenta=('k_x', 'k_y')),
        lambda: qsymm.BlochModel({s * x: v}, momenta=('k_x', 'k_y')),
        lambda: qsymm.BlochModel({e**(I * s * y): v}, momenta=('k_x', 'k_y')),
        lambda: qsymm.BlochModel({key: v}, momenta=('k_x', 'k_y'))]
    # A momentum anywhere in a coefficient, in a function, power, or nonlinear in the exponent
    m, f = [x, y][rs.randint(2)], sympy.Function('f')
    inner = [m, m**2, sympy.sin(m), f(m), s * f(s, m), sympy.sqrt(m), s**m, 1 / (m + s), f(m**2 + 1), e**m, e**(s * m), e**(I * m**2)][rs.randint(12)]
    key = [inner, s * inner, inner * e**(I * x), s * inner * e**(I * (2 * x - y)), s**2 * f(s) * inner][rs.randint(5)]
    good = [lambda: qsymm.BlochModel({c: v}, momenta=('k_x', 'k_y')), lambda: qsymm.BlochModel({s * e**(I * a * x): v}, momenta=('k_x', 'k_y'))][rs.randint(2)]
    return f'{k} {key if k == 9 else text}', [v], bad[k], good, lambda r: len(r.data) == 1 and np.allclose(r[c], v) and np.allclose(next(iter(r.keys()))[0], [a, 0])


@case
def bloch_coefficients(rs):
    import sympy
    from qsymm.model import BlochCoeff
    a, b = sympy.symbols('a b')
    h = np.round(rs.standard_normal(rs.randint(1, 4)), 2)
    k = rs.randint(5)
    bad = [lambda: BlochCoeff(list(h), a), lambda: BlochCoeff(h, a + b), lambda: BlochCoeff(h, 'a'), lambda: BlochCoeff(h, 2.5),
           lambda: BlochCoeff(h, a) * 'b'][k]
    return f'{k}', [h], bad, lambda: BlochCoeff(h, a) * b, lambda r: np.allclose(r[0], h) and r[1] == a * b


@case
def bloch_symbolic(rs):
    """General symbolic transformations of BlochModels are not available."""
    mom, n, _, f = draw(rs)
    A, B = model(rs, mom, n, True, f), model(rs, mom, n, False, f)
    return '', [A, B], lambda: A.transform_symbolic(lambda k: k), lambda: B.transform_symbolic(lambda k: k), lambda r: same(r, B)


@case
def lambdify_options(rs):
    mom, n, bloch, f = draw(rs)
    A = model(rs, mom, n, bloch, 'dense')
    o = [dict(onsite=True), dict(hopping=True)][rs.randint(2)]
    names = ['site'] if 'onsite' in o else ['site1', 'site2']

    def ok(r):
        import inspect
        p = list(inspect.signature(r).parameters)
        return p[:len(names)] == names and p[len(names):] == sorted(p[len(names):])
    return str(sorted(o)), [A], lambda: A.lambdify(onsite=True, hopping=True), lambda: A.lambdify(**o), ok


@case
def scalar_models(rs):
    """Symmetries are looked for in matrix valued Models only."""
    import qsymm
    mom = MOMS[rs.randint(len(MOMS))]
    H = model(rs, mom, 2, False, 'dense', herm=True)
    s = H.trace()
    k = rs.randint(3)
    cand = qsymm.groups.generate_group({qsymm.time_reversal(len(mom))})
    bad = [lambda: qsymm.symmetries(s, cand), lambda: s.eliminate_zeros(),
           lambda: qsymm.symmetry_finder.discrete_symmetries(s, cand)][k]
    return f'{k}', [H, s], bad, lambda: H.eliminate_zeros(), lambda r: same(r, H)


@case
def rotations_of_models(rs):
    """A rotation acts on as many momenta as the Model has."""
    import qsymm
    n = rs.randint(1, 4)
    mom = MOMS[5][:n]
    bloch = bool(rs.rand() < .5)
    A = model(rs, mom, 2, bloch)
    m = rs.choice([x for x in (1, 2, 3) if x != n])
    g, b = qsymm.inversion(n), qsymm.inversion(m)
    k = rs.randint(2)
    bad = [lambda: b.apply(A), lambda: A.rotate_momenta(-np.eye(m, dtype=int))][k]
    good = [lambda: g.apply(A), lambda: A.rotate_momenta(-np.eye(n, dtype=int))][k]
    H = bloch and A.tomodel() or A
    import sympy
    at = {s: round(rs.uniform(-1, 1), 3) for s in list(H.momenta) + [sympy.Symbol('a')]}

    def val(M, t):
        from qsymm.model import e
        M = M.tomodel() if bloch else M
        return sum(complex(k.subs(e, np.e).subs(t).evalf()) * v for k, v in M.items())
    neg = {s: (-v if s in H.momenta else v) for s, v in at.items()}
    return f'{k} {bloch}', [A, g, b], bad, good, lambda r: np.allclose(val(r, at), val(A, neg), atol=1e-6)


# ------------------------------------------------------------------ operators
@case
def generators(rs):
    """Generators of rotations are Hermitian and antisymmetric, those of unitaries Hermitian."""
    from qsymm import ContinuousGroupGenerator as G
    n = rs.randint(1, 4)
    d = rs.randint(2, 4)
    a = np.round(rs.standard_normal((d, d)), 2)
    R, L = 1j * (a - a.T), mat(rs, n, True)
    k = rs.randint(4)
    anti = mat(rs, n)
    anti = anti - anti.conj().T + 2j * np.eye(n) * (1 + abs(anti).max())
    far = np.zeros((d, d), complex)
    far[rs.randint(d), rs.randint(d)] = 1
    up = np.triu(rs.uniform(.5, 2, (d, d)), 1)
    bad = [lambda: G(up - up.T, L), lambda: G(R + far, L), lambda: G(R, anti),
           lambda: G(a + a.T + 2 * np.eye(d) * (1 + abs(a).max()), L)][k]
    return f'{k}', [R, L], bad, lambda: G(R, L), lambda r: np.allclose(r.R, R) and np.allclose(r.U, L)


@case
def real_space_parts(rs):
    """R is a matrix or array; exact and floating point rotations are not mixed."""
    import sympy
    import qsymm
    from qsymm import PointGroupElement as P
    c = np.pi / 3
    fl = np.array([[np.cos(c), -np.sin(c)], [np.sin(c), np.cos(c)]])
    ex = sympy.ImmutableMatrix([[sympy.S(1) / 2, -sympy.sqrt(3) / 2], [sympy.sqrt(3) / 2, sympy.S(1) / 2]])
    it = [np.array([[0, 1], [1, 0]]), np.array([[0, -1], [1, 0]]), np.diag([1, -1])][rs.randint(3)]
    k = rs.randint(4)
    A, B, C = P(fl), P(ex), P(it)
    bad = [lambda: P([[0, 1], [1, 0]]), lambda: P('C4'), lambda: A * B, lambda: B * A][k]
    x, R = ([B, np.array(ex).astype(float)], [A, fl])[rs.randint(2)]
    left = rs.rand() < .5
    good = (lambda: C * x) if left else (lambda: x * C)
    return f'{k}', [A, B, C], bad, good, lambda r: np.allclose(np.array(r.R).astype(float), it @ R if left else R @ it)


@case
def permutations(rs):
    """Symmetry related sites exist and have the same orbitals."""
    import qsymm
    names = ['A', 'B', 'C'][:rs.randint(2, 4)]
    n = rs.randint(1, 3)
    norbs = [(x, n) for x in names]
    perm = dict(zip(names, names[1:] + names[:1]))
    k = rs.randint(4)
    S = qsymm.groups.symmetry_from_permutation
    R = np.eye(2, dtype=int)
    act = {x: np.ones((1, 1)) for x in names}
    bad = [(lambda: S(R, perm, [(x, n + (x == 'A')) for x in names])) if rs.rand() < .5 else
           (lambda: S(R, perm, [(x, 1 + (x == 'A')) for x in names], onsite_action=act)), lambda: S(R, {x: 'A' for x in names}, norbs),
           lambda: S(R, {x: perm[x] for x in names[1:]}, norbs), lambda: S(R, perm, norbs + [('D', n)])][k]
    U = np.zeros((n * len(names),) * 2)
    for i, x in enumerate(names):
        j = names.index(perm[x])
        U[j * n:j * n + n, i * n:i * n + n] = np.eye(n)
    return f'{k}', [norbs, perm], bad, lambda: S(R, perm, norbs), lambda r: np.allclose(r.U, U)


@case
def point_group_options(rs):
    import qsymm
    from qsymm import groups as G
    k = rs.randint(4)
    bad = [lambda: G.hexagonal(rs.choice([1, 4])), lambda: G.rotation(1 / 4, axis=[0, 0, 1], U=np.eye(2), spin=.5),
           lambda: G.mirror([1, 0], U=np.eye(2), spin=.5), lambda: G.time_reversal(2, U=np.eye(2), spin=.5)][k]
    good = [lambda: G.rotation(1 / 4), lambda: G.mirror([1, 0]), lambda: G.time_reversal(2)]
    j = rs.randint(3)
    want = [np.array([[0, -1], [1, 0]]), np.diag([-1, 1]), np.eye(2)][j]
    return f'{k}', [], bad, good[j], lambda r: np.allclose(np.array(r.R).astype(float), want)


# ------------------------------------------------------------------ families
@case
def family_options(rs):
    import qsymm
    from qsymm import hamiltonian_generator as H
    tr = qsymm.time_reversal(2, U=np.eye(2))
    sx = np.array([[0, 1], [1, 0]])
    inv = qsymm.inversion(2, U=np.eye(2))
    kx = qsymm.ContinuousGroupGenerator(1j * np.array([[0, 1], [-1, 0]]), sx)
    k = rs.randint(6)
    bad = [lambda: H.continuum_hamiltonian([tr, inv], 2, 2, all_powers=[1]),
           lambda: H.continuum_pairing([tr], 2, 1, ph_square=rs.choice([0, 2, 1j])),
           lambda: H.bloch_family([('A', 'A', [1, 0])], [tr], {'A': 2}),
           lambda: H.bloch_family([('A', 'A', [1, 0])], [tr, kx], [('A', 2)]),
           lambda: H.bloch_family([('A', 'A', [1, 0]), ('A', 'A', [1, 0, 0])], [tr], [('A', 2)]),
           lambda: H.bloch_family([('A', 'A', [1, 0])], [qsymm.PointGroupElement(np.array([[.5, -.75**.5], [.75**.5, .5]]), U=np.eye(2))], [('A', 2)])][k]
    # real symmetric and even: powers 0 and 2, sigma_0, sigma_x, sigma_z times 1, k_x^2, k_x k_y, k_y^2
    return f'{k}', [tr, inv, kx], bad, lambda: H.continuum_hamiltonian([tr, inv], 2, 2, all_powers=[2, 2]), lambda r: len(r) == 12


@case
def family_members(rs):
    """Members of a family have the shape and momenta of the symmetries."""
    import qsymm
    from qsymm import hamiltonian_generator as H
    mom, n = ('k_x', 'k_y'), rs.randint(1, 4)
    fam = [model(rs, mom, n, herm=True) for _ in range(2)]
    odd = [model(rs, mom, n + 1, herm=True), model(rs, ('k_x', 'k_z'), n, herm=True), model(rs, ('k_x',), n, herm=True)][rs.randint(3)]
    one = qsymm.PointGroupElement(np.eye(2, dtype=int), False, False, np.eye(n))
    three = qsymm.PointGroupElement(np.eye(3, dtype=int), False, False, np.eye(n))
    large = qsymm.PointGroupElement(np.eye(2, dtype=int), False, False, np.eye(n + 1))
    import sympy
    k = rs.randint(5)
    bad = [lambda: H.constrain_family([one], fam + [odd]), lambda: H.constrain_family([three], fam), lambda: H.constrain_family([large], fam),
           lambda: H.hamiltonian_from_family(fam, coeffs=[sympy.Symbol('t')]),
           lambda: H.hamiltonian_from_family(fam, coeffs=list(sympy.symbols('t u v')), tosympy=False)][k]
    return f'{k}', [fam, one], bad, lambda: H.constrain_family([one], fam), lambda r: len(r) == len(fam) and all(same(x, y) for x, y in zip(r, fam))


@case
def broken_symmetry(rs):
    """check_symmetry raises for members that break a discrete or a continuous symmetry."""
    import qsymm
    from qsymm import hamiltonian_generator as H
    n = rs.randint(2, 4)
    V = unitary(rs, n)
    d = np.arange(n) - (n - 1) / 2
    L = qsymm.ContinuousGroupGenerator(None, V @ np.diag(d) @ V.conj().T)
    P = qsymm.PointGroupElement(-np.eye(2, dtype=int), False, False, V @ np.diag((-1.)**np.arange(n)) @ V.conj().T)
    S = [L, P] if rs.rand() < .5 else [P, L]
    import sympy
    kx, ky = sympy.symbols('k_x k_y')

    def m(key, a):
        return qsymm.Model({key: V @ a @ V.conj().T}, momenta=('k_x', 'k_y'))
    fam = [m(kx * ky, np.diag(rs.uniform(1, 2, n))), m(sympy.S(1), np.diag(rs.uniform(1, 2, n)))]
    off = np.zeros((n, n), complex)
    off[0, 1] = rs.uniform(.01, 1) * np.exp(1j * rs.uniform(0, 6))
    off = off + off.conj().T
    odd = [m(kx, off), m(ky, np.diag(rs.uniform(1, 2, n))), m(kx**2, off)][rs.randint(3)]
    bad = list(fam)
    bad.insert(rs.randint(3), odd)
    return f'{type(S[0]).__name__}', [S, fam, odd], lambda: H.check_symmetry(bad, S), lambda: H.check_symmetry(fam, S), lambda r: r is None


# ------------------------------------------------------------------ run
def run(plan, ctx):
    done = []
    for name, seed in plan['ops']:
        rs = np_rng('case', name, seed)
        label, args, bad, good, ok = CASES[name](rs)
        what = f'{name} [{label}]'
        before = [shown(a) for a in args if not isinstance(a, (list, dict))]

        def fine(when):
            try:
                r = good()
            except Exception as ex:
                ctx.check(False, 'valid-refused', f'{what}, {when} the refusal: {type(ex).__name__}: {ex}')
            ctx.check(ok(r), 'valid-wrong', lambda: f'{what}, {when} the refusal: {r}')
        if rs.rand() < .5:
            fine('before')
        for _ in range(rs.randint(1, 3)):
            try:
                r = bad()
            except Exception as ex:
                ctx.event('refused', what, type(ex).__name__)
            else:
                ctx.check(False, 'accepted', f'{what} returned {r}'[:400])
        after = [shown(a) for a in args if not isinstance(a, (list, dict))]
        ctx.check(before == after, 'changed', lambda: f'{what} changed an argument: {before} -> {after}')
        fine('after')
        ctx.count('case-' + name)
        ctx.nontrivial = True
        done.append((name, label))
    ctx.sig(done)
