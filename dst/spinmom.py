"""Workload and oracle of spin and orbital angular momentum (C23)."""
import math

import numpy as np

from . import gen, seams
from .core import np_rng

TOL = 1e-8


def generate(rng):
    ops = ['matrices', 'rotation', 'rotation', 'roundint', 'orbitals', 'orbitals', 'rotate', 'rotate', 'mirror', 'reversal', 'plain', 'group',
           'scribble', 'scribble', 'bad', 'evict']
    return dict(env=gen.gen_env(rng, noise=True), ops=[[rng.choice(ops), rng.randrange(10**6)] for _ in range(rng.randrange(4, 16))])


# ------------------------------------------------------------------- reference
def su2(n):
    """exp(-i n.sigma/2) in closed form."""
    t = float(np.linalg.norm(n))
    x, y, z = (np.asarray(n, float) / t) if t else (0., 0., 1.)
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c - 1j * s * z, -1j * s * (x - 1j * y)], [-1j * s * (x + 1j * y), c + 1j * s * z]])


def wigner(n, twos):
    """Spin twos/2 representation of the rotation: action on homogeneous polynomials."""
    (a, b), (c, d) = su2(n)
    N = twos
    out = np.zeros((N + 1, N + 1), complex)
    for k in range(N + 1):          # column: x^(N-k) y^k, m = N/2 - k; x -> a x + c y, y -> b x + d y
        p = np.array([1. + 0j])
        for f in [(a, c)] * (N - k) + [(b, d)] * k:
            p = np.convolve(p, np.array(f))
        for j in range(N + 1):
            out[j, k] = p[j] * math.sqrt(math.factorial(N - j) * math.factorial(j) / (math.factorial(N - k) * math.factorial(k)))
    return out


def ladder(twos):
    s = twos / 2
    m = [s - i for i in range(twos + 1)]
    P = np.zeros((twos + 1,) * 2, complex)
    for i in range(1, twos + 1):
        P[i - 1, i] = math.sqrt(s * (s + 1) - m[i] * (m[i] + 1))
    return np.array([(P + P.T) / 2, (P - P.T) / 2j, np.diag(m).astype(complex)])


def rodrigues(n):
    t = float(np.linalg.norm(n))
    return gen.rot3(t, np.asarray(n, float) / t) if t else np.eye(3)


POINTS = np_rng('orbital points', 0).standard_normal((12, 3))


def orbital_values(l, x):
    X, Y, Z = x.T
    r2 = X**2 + Y**2 + Z**2
    if l == 1:
        return np.array([X, Y, Z])
    return np.array([3**.5 / 2 * (X**2 - Y**2), (3 * Z**2 - r2) / 2, 3**.5 * X * Y, 3**.5 * Y * Z, 3**.5 * Z * X])


def orbital_rep(l, R):
    """f_i(R^-1 r) = sum_j f_j(r) D_ji."""
    return np.linalg.lstsq(orbital_values(l, POINTS).T, orbital_values(l, POINTS @ R).T, rcond=None)[0]


# ------------------------------------------------------------- representations
def spin_argument(rs):
    """(argument for the library, function giving the rotation matrices, generators, bare time reversal valid)."""
    k = rs.randint(6)
    twos = rs.randint(0, 10) if rs.rand() < .3 else rs.randint(0, 5)
    if k < 3:
        s = twos / 2
        if twos % 2 == 0 and rs.rand() < .5:
            s = [int(s), np.int64(int(s))][rs.randint(2)]
        elif rs.rand() < .2:
            s = np.float64(s)
        return s, lambda n: wigner(n, twos), ladder(twos), twos
    S = ladder(twos)
    if k == 3:
        V = gen.rand_unitary(rs, twos + 1)
        arrs, D = np.array([V @ x @ V.conj().T for x in S]), lambda n: V @ wigner(n, twos) @ V.conj().T
    elif k == 4:
        t2 = rs.randint(1, 3)
        T = ladder(t2)
        arrs = np.array([np.kron(x, np.eye(t2 + 1)) + np.kron(np.eye(twos + 1), y) for x, y in zip(S, T)])
        D = lambda n: np.kron(wigner(n, twos), wigner(n, t2))
    else:
        l = rs.randint(1, 3)
        import qsymm
        arrs, D = np.array(qsymm.groups.L_matrices(3, l)), lambda n: orbital_rep(l, rodrigues(n))
    form = rs.randint(3)
    return [arrs, list(arrs), [x.tolist() for x in arrs]][form], D, arrs, None


def vector(rs, d=3):
    k = rs.randint(5)
    if k == 0:
        return np.array([0, 0, 0])
    if k == 1:
        v = np.zeros(3)
        v[rs.randint(3)] = rs.choice([-2, -1, 1, 2, .5, 2 / 3, 1 / 3, 4]) * math.pi
        return v
    if k == 2:
        v = rs.standard_normal(3)
        return v / np.linalg.norm(v) * math.pi * rs.choice([1, 2, 4, 1e-9, .5])
    return rs.standard_normal(3) * rs.choice([.1, 1, 3])


def keep(x):
    return [np.array(y, copy=True) for y in x] if isinstance(x, (list, np.ndarray)) and np.ndim(x) else None


def same(a, b):
    return np.shape(a) == np.shape(b) and bool(np.allclose(np.array(a, complex), b, rtol=0, atol=TOL * (1 + np.abs(b).max(initial=0))))


# ------------------------------------------------------------------ operations
class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx, self.results = plan, ctx, []

    def out(self, x):
        self.results.append(x)
        self.ctx.nontrivial = True
        return x


def op_matrices(P, rs):
    from qsymm.groups import spin_matrices
    twos = rs.randint(0, 14)
    s = twos / 2
    if twos % 2 == 0 and rs.rand() < .4:
        s = int(s)
    zero = bool(rs.randint(2))
    got = P.out(P.ctx.call(spin_matrices, s, include_0=zero) if zero or rs.rand() < .5 else P.ctx.call(spin_matrices, s))
    want = ladder(twos)
    if zero:
        want = np.concatenate([np.eye(twos + 1)[None], want])
    P.ctx.check(isinstance(got, np.ndarray) and same(got, want), 'wrong-matrices', lambda: f's={s} include_0={zero}: {np.array(got).tolist()}')
    return ('matrices', twos, zero)


def op_rotation(P, rs):
    from qsymm.groups import spin_rotation
    s, D, S, _ = spin_argument(rs)
    n = vector(rs)
    before, nk = keep(s), n.copy()
    arg = [n, n.tolist(), tuple(n)][rs.randint(3)]
    U = P.out(P.ctx.call(spin_rotation, arg, s))
    P.ctx.check(same(U, D(n)), 'wrong-rotation', lambda: f'n={nk.tolist()} s={s if before is None else "arrays"}: {np.array(U).tolist()}')
    P.ctx.check(np.array_equal(n, nk) and (before is None or all(np.array_equal(x, y) for x, y in zip(s, before))), 'argument-changed', 'spin_rotation')
    axial(P, U, S, rodrigues(n), False)
    return ('rotation', type(s).__name__, len(U))


def axial(P, U, S, R, anti):
    """U S_i U^+ = sum_j S_j R_ji (R proper), complex conjugated and odd for time reversal."""
    S = np.array(S)
    U = np.array(U)
    lhs = [U @ (x.conj() if anti else x) @ U.conj().T for x in S]
    rhs = [sum((-1 if anti else 1) * R[j, i] * S[j] for j in range(3)) for i in range(3)]
    P.ctx.check(same(lhs, np.array(rhs)), 'not-covariant', lambda: f'R={R.tolist()} U={U.tolist()}')


def op_roundint(P, rs):
    """Exact integer rotations."""
    from qsymm.groups import spin_rotation, L_matrices
    n = np.zeros(3)
    k = rs.randint(3)
    if k == 0:
        n[rs.randint(3)] = math.pi / 2 * rs.randint(-4, 5)
    elif k == 1:
        n = np.array([1, 1, 1]) * rs.choice([-1, 1], 3) / 3**.5 * 2 * math.pi / 3 * rs.randint(-2, 3)
    else:
        n = np.array([1, rs.choice([-1, 1]), 0])[rs.permutation(3)] / 2**.5 * math.pi * rs.randint(-1, 2)
    U = P.ctx.call(spin_rotation, n, L_matrices(3, 1), roundint=True)
    P.ctx.check(type(U).__module__.startswith('tinyarray') and np.array(U).dtype.kind == 'i' and same(U, rodrigues(n)), 'wrong-rotation',
                lambda: f'n={n.tolist()}: {U!r}')
    m = rs.standard_normal(3)
    try:
        V = spin_rotation(m, L_matrices(3, 1), roundint=True)
    except AssertionError:
        V = None
    P.ctx.check(V is None, 'rounded', lambda: f'rotation {m.tolist()} is not an integer matrix, got {V!r}')
    P.ctx.nontrivial = True
    return ('roundint', k)


def op_orbitals(P, rs):
    from qsymm.groups import L_matrices, spin_rotation
    k = rs.randint(4)
    if k == 0:
        L = P.out(P.ctx.call(L_matrices, 2, 1))
        P.ctx.check(np.shape(L) == (1, 2, 2), 'wrong-matrices', lambda: f'{L!r}')
        t = float(rs.uniform(-7, 7))
        U = gen.expi(np.array(L[0]), t)
        P.ctx.check(same(U, gen.rot2(t)), 'wrong-rotation', lambda: f'2d angle {t}: {U.tolist()}')
        return 'orbitals2'
    l = rs.randint(1, 3)
    if l == 1 and rs.rand() < .5:
        L = P.out(P.ctx.call(L_matrices))
    else:
        L = P.out(P.ctx.call(L_matrices, d=3, l=l))
    L = np.array(L)
    P.ctx.check(L.shape == (3, 2 * l + 1, 2 * l + 1) and np.array_equal(L.real, np.zeros_like(L.real)) and same(-np.swapaxes(L, 1, 2), L),
                'wrong-matrices', lambda: f'l={l}: not imaginary antisymmetric')
    eps = np.zeros((3, 3, 3))
    for a, b, c in [(0, 1, 2), (1, 2, 0), (2, 0, 1)]:
        eps[a, b, c], eps[b, a, c] = 1, -1
    for a in range(3):
        for b in range(3):
            P.ctx.check(same(L[a] @ L[b] - L[b] @ L[a], 1j * np.tensordot(eps[a, b], L, 1)), 'wrong-algebra', lambda: f'l={l} [{a},{b}]')
    P.ctx.check(same(sum(x @ x for x in L), l * (l + 1) * np.eye(2 * l + 1)), 'wrong-casimir', f'l={l}')
    n = vector(rs)
    U = P.out(P.ctx.call(spin_rotation, n, L))
    P.ctx.check(same(U, orbital_rep(l, rodrigues(n))), 'wrong-rotation', lambda: f'l={l} n={n.tolist()}: {np.array(U).tolist()}')
    return ('orbitals', l)


def element(P, g, R, c, a, U, label):
    ctx = P.ctx
    ctx.check(same(np.array(g.R).astype(float), R), 'wrong-element', lambda: f'{label}: R={np.array(g.R).tolist()} instead of {np.array(R).tolist()}')
    ctx.check((bool(g.conjugate), bool(g.antisymmetry)) == (c, a), 'wrong-element', lambda: f'{label}: {g!r}')
    ctx.check((g.U is None) == (U is None), 'wrong-element', lambda: f'{label}: U={g.U}')
    if U is not None:
        ctx.check(same(g.U, U), 'wrong-element', lambda: f'{label}: U={np.array(g.U).tolist()} instead of {U.tolist()}')
        P.out(g.U)
    P.out(g.R)


def action(rs):
    """(keywords, D or None, generators)."""
    k = rs.randint(4)
    if k == 0:
        return {}, None, None
    if k == 1:
        V = gen.rand_unitary(rs, rs.randint(1, 4))
        return dict(U=V), lambda n: V, None
    s, D, S, _ = spin_argument(rs)
    return dict(spin=s), D, S


def op_rotate(P, rs):
    import qsymm
    kw, D, S = action(rs)
    x = [1 / 4, 1 / 3, 1 / 2, -1 / 6, 1, 0, 3 / 2, float(rs.uniform(-2, 2))][rs.randint(8)]
    if rs.rand() < .4:
        g = P.ctx.call(qsymm.rotation, x, **kw)
        n = np.array([0, 0, 2 * math.pi * x])
        element(P, g, gen.rot2(2 * math.pi * x), False, False, D and D(n), f'rotation({x})')
        inv, d = False, 2
    else:
        ax = np.array([[1, 0, 0], [0, 0, -1], [1, 1, 1], [1, -1, 0], [2, 1, 0]][rs.randint(5)], [int, float][rs.randint(2)]) if rs.rand() < .6 else rs.standard_normal(3) * 3
        arg = [ax, ax.tolist(), tuple(ax)][rs.randint(3)]
        old = ax.copy()
        inv = bool(rs.randint(2))
        g = P.ctx.call(qsymm.rotation, x, arg, inversion=inv, **kw)
        P.ctx.check(np.array_equal(ax, old), 'argument-changed', 'rotation')
        n = 2 * math.pi * x * ax / np.linalg.norm(ax)
        element(P, g, rodrigues(n) * (-1 if inv else 1), False, False, D and D(n), f'rotation({x}, {old.tolist()}, {inv})')
        d = 3
    if S is not None:
        axial(P, g.U, S, rodrigues(n), False)
    return ('rotate', d, inv, sorted(kw))


def op_mirror(P, rs):
    import qsymm
    kw, D, S = action(rs)
    d = rs.choice([2, 3]) if kw.get('spin') is not None else rs.choice([1, 2, 3])
    ax = rs.randint(-2, 3, d) if rs.rand() < .6 else rs.standard_normal(d)
    if not ax.any():
        ax[0] = 1
    old = ax.copy()
    arg = [ax, ax.tolist(), tuple(ax)][rs.randint(3)]
    g = P.ctx.call(qsymm.mirror, arg, **kw)
    P.ctx.check(np.array_equal(ax, old), 'argument-changed', 'mirror')
    u = np.append(old / np.linalg.norm(old), [0] * (3 - d)) * math.pi
    R = np.eye(d) - 2 * np.outer(old, old) / (old @ old)
    element(P, g, R, False, False, D and D(u), f'mirror({old.tolist()})')
    if S is not None:
        axial(P, g.U, S, rodrigues(u), False)
    return ('mirror', d, sorted(kw))


def op_reversal(P, rs):
    import qsymm
    kw, D, S = action(rs)
    d = rs.randint(0, 4)
    g = P.ctx.call(qsymm.time_reversal, d, **kw)
    element(P, g, np.eye(d), True, False, D and D(np.array([0, math.pi, 0])), f'time_reversal({d})')
    if S is not None and not isinstance(kw['spin'], (list, np.ndarray)):
        axial(P, g.U, S, np.eye(3), True)
        U = np.array(g.U)
        P.ctx.check(same(U @ U.conj(), (-1)**(len(U) - 1) * np.eye(len(U))), 'wrong-square', lambda: f'T^2 for spin {kw["spin"]}')
    return ('reversal', d, sorted(kw))


def op_plain(P, rs):
    import qsymm
    from qsymm.groups import identity
    d = rs.randint(0, 4)
    V = gen.rand_unitary(rs, 2) if rs.randint(2) else None
    k = rs.randint(4)
    if k == 3:
        n = [None, 1, 3][rs.randint(3)]
        g = P.ctx.call(identity, d, n)
        element(P, g, np.eye(d), False, False, None if n is None else np.eye(n), 'identity')
    else:
        f = [qsymm.particle_hole, qsymm.chiral, qsymm.inversion][k]
        g = P.ctx.call(f, d, U=V) if rs.randint(2) else P.ctx.call(f, d, V)
        element(P, g, np.eye(d) * (-1 if k == 2 else 1), k == 0, k != 2, V, f.__name__)
    return ('plain', k, d)


def op_group(P, rs):
    """Every element of a named group acts on the spin as its rotation does."""
    from qsymm import groups
    twos = rs.randint(0, 4)
    k = rs.randint(4)
    tr, gens = bool(rs.randint(2)), bool(k == 3 or rs.randint(2))
    f = [groups.square, lambda **q: groups.hexagonal(dim=2, **q), lambda **q: groups.hexagonal(dim=3, **q), groups.cubic][k]
    s, D, S, _ = spin_argument(rs) if rs.rand() < .4 else (twos / 2, lambda n: wigner(n, twos), ladder(twos), 0)
    if tr and isinstance(s, (list, np.ndarray)) and not gens:
        gens = True
    G = P.ctx.call(f, tr=tr, ph=False, generators=gens, spin=s)
    for g in sorted(G, key=lambda g: (np.array(g.R).astype(float).ravel().tolist(), bool(g.conjugate))):
        R = np.array(g.R).astype(float)
        # in the plane a mirror is a twofold rotation around its normal for the spin
        R3 = np.eye(3)
        R3[:len(R), :len(R)] = R
        R = R3 * np.sign(np.linalg.det(R3))
        if g.conjugate and isinstance(s, (list, np.ndarray)):
            continue
        axial(P, g.U, S, R, bool(g.conjugate))
        P.results += [g.U]
    return ('group', k, tr, gens, len(G))


def op_scribble(P, rs):
    """The caller changes what it got: later answers do not change."""
    k = 0
    for x in P.results:
        if isinstance(x, np.ndarray) and x.size and x.flags.writeable:
            x[...] = 7
            k += 1
    P.results = []
    if k:
        P.ctx.fault('result-overwritten')
    return 'scribble' if k else None


def op_bad(P, rs):
    import qsymm
    from qsymm import groups
    V = np.eye(2)
    cases = [(lambda: qsymm.rotation(.25, U=V, spin=.5), ValueError), (lambda: qsymm.mirror([1, 0], U=V, spin=.5), ValueError),
             (lambda: qsymm.time_reversal(2, U=V, spin=.5), ValueError), (lambda: qsymm.rotation(.25, [1, 0]), ValueError),
             (lambda: qsymm.rotation(.25, [1, 0, 0, 0]), ValueError), (lambda: groups.L_matrices(4, 1), ValueError),
             (lambda: groups.L_matrices(2, 2), ValueError), (lambda: groups.spin_matrices(.3), AssertionError),
             (lambda: groups.spin_rotation([0, 0, 1], .8), AssertionError), (lambda: groups.square(spin=.5), ValueError),
             (lambda: groups.cubic(spin=1), ValueError), (lambda: groups.hexagonal(spin=.5), ValueError)]
    i = rs.randint(len(cases))
    f, want = cases[i]
    try:
        f()
        err = None
    except Exception as ex:
        err = ex
    P.ctx.check(err is not None, 'accepted', f'invalid call {i}')
    P.ctx.check(isinstance(err, want), 'wrong-error', lambda: f'invalid call {i}: {type(err).__name__}: {err}')
    return ('bad', i)


def op_evict(P, rs):
    (seams.clear_qsymm_caches if rs.rand() < .5 else seams.clear_sympy_cache)()
    P.ctx.fault('cache-eviction')
    return 'evict'


def run(plan, ctx):
    P = Run(plan, ctx)
    done = []
    for name, seed in plan['ops']:
        x = globals()['op_' + name](P, np_rng('op', name, seed))
        if x is not None:
            ctx.count('op-' + (x if isinstance(x, str) else x[0]))
            done.append(x)
            ctx.event(str(x))
    ctx.sig([str(x) for x in done])
