"""Workload and oracle of the linear algebra that the finders and generators are built on (C25)."""
import itertools as it
import warnings

import numpy as np

from . import gen
from .core import Violation, np_rng

OPS = ['null', 'null', 'null-sparse', 'null-sparse', 'null-few', 'simult', 'simult', 'simult', 'solve', 'solve', 'solve-conj', 'solve-sparse',
       'rref', 'rref', 'sparse-basis', 'basis', 'vectors', 'close', 'prop', 'split', 'int-inverse', 'products', 'bad',
       'lie', 'lie', 'sun', 'sun', 'irreps', 'irreps']


def generate(rng):
    return dict(env=gen.gen_env(rng), ops=[[rng.choice(OPS), rng.randrange(10**6)] for _ in range(rng.randrange(2, 7))])


def cgauss(rs, *shape, real=False):
    x = rs.standard_normal(shape)
    return x if real else x + 1j * rs.standard_normal(shape)


def unitary(rs, n, real=False):
    q, r = np.linalg.qr(cgauss(rs, n, n, real=real))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def with_spectrum(rs, rows, cols, s, real):
    """A matrix with the given singular values."""
    a = np.zeros((rows, cols))
    np.fill_diagonal(a, 0)
    a[range(len(s)), range(len(s))] = s
    return unitary(rs, rows, real) @ a @ unitary(rs, cols, real)


def low_rank(rs, real, small=False):
    rows, cols = rs.randint(1, 9), rs.randint(1, 9)
    if small:
        cols = rs.randint(3, 22)
        rows = rs.randint(1, 25)
    r = rs.randint(0, min(rows, cols) + 1)
    s = rs.choice([.3, 1., 1., 2., 5.]) * rs.uniform(.5, 1.5, r) if rs.rand() < .7 else rs.choice([.5, 1., 2.], r)
    k = rs.randint(4)
    if k == 0 and r < min(rows, cols):         # exact zeros, as constraint matrices have them
        a = np.zeros((rows, cols), dtype=float if real else complex)
        j = rs.permutation(cols)[:r]
        i = rs.permutation(rows)[:r]
        a[i, j] = s if real else s * np.exp(2j * np.pi * rs.rand(r))
        return a, r
    a = with_spectrum(rs, rows, cols, s, real)
    if k == 1:                                 # repeated and empty equations
        a = np.vstack([a, a[rs.randint(rows, size=2)], np.zeros((1, cols))])
    return a, r


def orthonormal(v):
    return np.allclose(v @ v.conj().T, np.eye(len(v)), atol=1e-7)


def check_null(ctx, a, ns, dim, label, tol=1e-6):
    ns = np.asarray(ns)
    ctx.check(ns.ndim == 2 and ns.shape == (dim, a.shape[1]), 'wrong-dimension', lambda: f'{label} of {a.shape}: {ns.shape} instead of {dim}')
    ctx.check(orthonormal(ns), 'not-orthonormal', lambda: f'{label}: {ns.tolist()}')
    ctx.check(np.abs(a @ ns.T).max(initial=0) < tol, 'not-null', lambda: f'{label}: {a.tolist()} {ns.tolist()}')


def fmt(rs, a):
    import scipy.sparse as sp
    return [sp.csr_matrix, sp.csc_matrix, sp.coo_matrix, sp.lil_matrix, sp.dok_matrix][rs.randint(5)](a)


def op_null(ctx, rs):
    from qsymm.linalg import nullspace
    real = rs.rand() < .5
    a, r = low_rank(rs, real)
    keep = a.copy()
    if rs.rand() < .5:
        ns = ctx.call(nullspace, a)
    else:
        k = rs.randint(3)
        ns, nsc = ctx.call(nullspace, fmt(rs, a) if k == 0 else a, return_complement=True, sparse=False)
        ctx.check(nsc.shape == (r, a.shape[1]) and orthonormal(np.vstack([ns, nsc])), 'wrong-complement', lambda: f'{a.tolist()}: {nsc.tolist()}')
    check_null(ctx, a, ns, a.shape[1] - r, 'nullspace')
    if real:
        ctx.check(not np.iscomplexobj(ns), 'not-real', 'null space of a real matrix')
    ctx.check(np.array_equal(a, keep), 'argument-changed', 'nullspace')
    return 'null', a.shape, r, real


def arpack(ctx, fn, *a, **kw):
    """None when ARPACK itself did not converge."""
    from scipy.sparse.linalg import ArpackError
    try:
        return ctx.call(fn, *a, **kw)
    except Violation as v:
        if isinstance(v.__cause__, ArpackError):
            ctx.count('arpack-gave-up')
            return None
        raise


def op_null_sparse(ctx, rs):
    import scipy.sparse as sp
    from qsymm.linalg import nullspace
    real = rs.rand() < .6
    a, r = low_rank(rs, real, small=True)
    n = a.shape[1]
    m = fmt(rs, a)
    if rs.rand() < .3 and isinstance(m, sp.csr_matrix):
        m = sp.csr_matrix((np.append(m.data, 0), np.append(m.indices, n - 1), np.append(m.indptr[:-1], m.nnz + 1)), shape=m.shape)
    nnz = m.nnz
    x = a if rs.rand() < .2 else m
    ns = arpack(ctx, nullspace, x, **([{}, dict(sparse=True)][rs.randint(2)] if x is m else dict(sparse=True)),
                **[{}, {}, dict(k_max=-1), dict(k_max=-3), dict(k_max=-25)][rs.randint(5)])
    if ns is None:
        return None
    check_null(ctx, a, ns, n - r, 'sparse nullspace', 3e-3)
    ctx.check(m.nnz == nnz and np.array_equal(m.toarray(), a), 'argument-changed', 'sparse nullspace')
    return 'null-sparse', a.shape, r, real


def op_null_few(ctx, rs):
    """At most k_max vectors."""
    from qsymm.linalg import nullspace
    real = rs.rand() < .6
    a, r = low_rank(rs, real, small=True)
    n = a.shape[1]
    if r == 0 or n < 4:
        return None
    k = rs.randint(1, n - 2)
    ns = arpack(ctx, nullspace, fmt(rs, a), k_max=int(k))
    if ns is None:
        return None
    check_null(ctx, a, ns, min(k, n - r), f'nullspace with k_max={k}', 3e-3)
    return 'null-few', a.shape, r, int(k)


def commuting(rs):
    """Commuting normal matrices with a known joint spectrum."""
    n, m = rs.randint(1, 8), rs.randint(1, 5)
    real = rs.rand() < .3
    U = unitary(rs, n, real) if rs.rand() < .8 else np.eye(n)[rs.permutation(n)]
    classes = rs.randint(0, rs.randint(1, n + 1), n)
    spectra, kinds = [], []
    for _ in range(m):
        kind = rs.choice(['herm', 'herm', 'unitary', 'normal', 'anti', 'scalar', 'exact'])
        pool = {'herm': rs.permutation([-2., -1, -.5, 0, 1, 2, 3.3]), 'anti': 1j * rs.permutation([-2., -1, 0, .3, 1, 2, 3]),
                'unitary': np.exp(2j * np.pi * rs.permutation(7) / 7 + 1j * rs.rand()), 'scalar': np.full(7, rs.standard_normal()),
                'normal': rs.permutation([1, 1j, -1, -1j, 1 + 1j, 0, 2 - 1j]), 'exact': rs.permutation([1., -1, 1, -1, 0, 0, 1])}[kind]
        fold = rs.randint(1, 8)
        spectra.append(pool[(classes % fold)])
        kinds.append(kind)
    mats = [U @ np.diag(s) @ U.conj().T for s in spectra]
    mats = [m if rs.rand() < .9 else np.real_if_close(m, 1e5) for m in mats]
    return U, np.array(spectra), mats


def op_simult(ctx, rs):
    from qsymm.linalg import simult_diag
    U, spectra, mats = commuting(rs)
    n = len(U)
    arr = np.array(mats)
    x = arr if rs.rand() < .8 else [m.copy() for m in mats]
    keep = arr.copy()
    if isinstance(x, list) and len(x) > 1:
        x = np.array(x)
    Ps = ctx.call(simult_diag, x, **[{}, {}, dict(checks=1), dict(checks=2), dict(tol=1e-5)][rs.randint(5)])
    ctx.check(np.array_equal(arr, keep), 'argument-changed', 'simult_diag')
    ctx.check(all(P.ndim == 2 and P.shape[0] == n and P.shape[1] for P in Ps) and sum(P.shape[1] for P in Ps) == n, 'wrong-shape',
              lambda: f'{[P.shape for P in Ps]} for size {n}')
    Q = np.hstack(Ps)
    ctx.check(np.allclose(Q.conj().T @ Q, np.eye(n), atol=1e-6), 'not-unitary', lambda: f'{arr.tolist()}')
    got = []
    for P in Ps:
        vals = []
        for m in mats:
            b = P.conj().T @ m @ P
            ctx.check(np.allclose(m @ P, P * b[0, 0], atol=1e-5), 'not-diagonal', lambda: f'{arr.tolist()}: block {P.tolist()}')
            vals.append(b[0, 0])
        got.append((tuple(np.round(vals, 3) + 0.), P.shape[1]))
    want = {}
    for col in spectra.T:
        k = tuple(np.round(col, 3) + 0.)
        want[k] = want.get(k, 0) + 1
    # one block for every distinct set of eigenvalues, with its multiplicity
    ok = len(got) == len(want)
    for vals, mult in got:
        ok = ok and any(mult == w and np.allclose(vals, k, atol=2e-3) for k, w in want.items())
    ctx.check(ok, 'wrong-blocks', lambda: f'{arr.tolist()}: {got} instead of {want}')
    return 'simult', n, len(mats), sorted(want.values())


def span_equal(A, B, tol=1e-6):
    """Same row span (real or complex as given)."""
    A, B = np.asarray(A), np.asarray(B)
    if not len(A) or not len(B):
        return len(A) == len(B)
    qa = np.linalg.qr(A.T)[0]
    qb = np.linalg.qr(B.T)[0]
    return qa.shape == qb.shape and np.allclose(qa @ (qa.conj().T @ qb), qb, atol=tol)


def equations(rs, related):
    """Left and right matrices with a solution space that is interesting."""
    n, m = rs.randint(1, 5), rs.randint(1, 4)
    H = [cgauss(rs, n, n) for _ in range(m)]
    k = rs.randint(5)
    if k == 0:
        H = [h + h.conj().T for h in H]
    elif k == 1 and n > 1:                     # reducible
        b = rs.randint(1, n)
        H = [np.block([[h[:b, :b], np.zeros((b, n - b))], [np.zeros((n - b, b)), h[b:, b:]]]) for h in H]
        U = unitary(rs, n)
        H = [U @ h @ U.conj().T for h in H]
    elif k == 2 and n in (2, 4):               # degenerate
        H = [np.kron(h[:n // 2, :n // 2], np.eye(2)) for h in H]
        H = [h + h.conj().T for h in H]
    elif k == 3:
        H = [np.diag(rs.choice([0., 1, -1], n)) for _ in H]
    U = unitary(rs, n)
    if related == 'same':
        return n, H, None
    if related == 'rotated':
        return n, H, [U @ h @ U.conj().T for h in H]
    if related == 'conj':
        return n, H, [U @ h.conj() @ U.conj().T for h in H]
    return n, H, [cgauss(rs, n, n) for _ in H]


def solutions(n, HL, HR, conj, hermitian, traceless):
    """Real vectors (re, im of X) that span the solutions, and how small the first excluded singular value is."""
    rows = []
    units = []
    for i in range(n * n):
        for c in (1, 1j):
            e = np.zeros(n * n, complex)
            e[i] = c
            units.append(e.reshape(n, n))
    def ri(x):
        x = np.asarray(x).ravel()
        return np.concatenate([x.real, x.imag])
    for e in units:
        eqs = [e @ l - r @ (e.conj() if c else e) for l, r, c in zip(HL, HR, conj)]
        if hermitian:
            eqs.append(e - e.conj().T)
        if traceless:
            eqs.append(np.array([np.trace(e)]))
        rows.append(np.concatenate([ri(q) for q in eqs]))
    _, s, vh = np.linalg.svd(np.array(rows).T)
    s = np.concatenate([s, np.zeros(len(vh) - len(s))])
    kept = s < 1e-7
    X = [sum(v * e for v, e in zip(row, units)) for row in vh[kept]]
    return np.array([ri(x) for x in X]).reshape(-1, 2 * n * n), (s[~kept].min() if (~kept).any() else 1.)


def solve(ctx, rs, with_conj, sparse=False):
    import scipy.sparse as sp
    from qsymm.linalg import solve_mat_eqn
    n, HL, HR = equations(rs, rs.choice(['same', 'same', 'rotated', 'conj', 'conj', 'other']) if with_conj else rs.choice(['same', 'same', 'rotated', 'other']))
    hermitian, traceless = bool(rs.rand() < .5), bool(rs.rand() < .4)
    conj = [bool(x) for x in rs.rand(len(HL)) < .5] if with_conj and rs.rand() < .5 else [with_conj] * len(HL)
    want, gap = solutions(n, HL, HL if HR is None else HR, conj, hermitian, traceless)
    if gap < .1:
        return None
    size = (n * n - traceless) * (2 if any(conj) and not hermitian else 1)
    if sparse and size < 3:
        return None
    kw = dict(hermitian=hermitian, traceless=traceless)
    if with_conj:
        kw['conjugate'] = conj if rs.rand() < .5 or len(set(conj)) > 1 else conj[0]
    left = [fmt(rs, h) if sparse else h for h in HL]
    right = None if HR is None else [fmt(rs, h) if sparse else h for h in HR]
    if not sparse and rs.rand() < .5:
        left, right = np.array(left), right if right is None else np.array(right)
    if sparse and isinstance(left[0], np.ndarray) or rs.rand() < .2:
        kw['sparse'] = sparse
    args = (left,) if right is None and rs.rand() < .7 else (left, right)
    X = arpack(ctx, solve_mat_eqn, *args, **kw)
    if X is None:
        return None
    X = np.asarray(X)
    label = f'X HL = HR X{"*" if any(conj) else ""} hermitian={hermitian} traceless={traceless} conjugate={conj} sparse={sparse}'
    tol = 1e-2 if sparse else 1e-6
    ctx.check(X.ndim == 3 and X.shape[1:] == (n, n), 'wrong-shape', lambda: f'{label}: {X.shape}')
    for x in X:
        for l, r, c in zip(HL, HL if HR is None else HR, conj):
            ctx.check(np.allclose(x @ l, r @ (x.conj() if c else x), atol=tol), 'no-solution', lambda: f'{label}: HL={np.array(HL).tolist()} X={x.tolist()}')
        if hermitian:
            ctx.check(np.allclose(x, x.conj().T, atol=1e-7), 'not-hermitian', label)
        if traceless:
            ctx.check(abs(np.trace(x)) < 1e-6, 'not-traceless', label)
    # complex solution spaces count complex dimensions
    complexes = not hermitian and not any(conj)
    d = len(want) // 2 if complexes else len(want)
    ctx.check(len(X) == d, 'wrong-dimension', lambda: f'{label}: {len(X)} solutions instead of {d}; HL={np.array(HL).tolist()}')
    if d:
        flat = X.reshape(d, -1)
        vec = np.vstack([np.hstack([(c * flat).real, (c * flat).imag]) for c in ((1, 1j) if complexes else (1,))])
        ctx.check(np.linalg.svd(vec, compute_uv=False).min() > .1, 'dependent', label)
        ctx.check(span_equal(vec, want, 3e-2 if sparse else 1e-5), 'wrong-span', lambda: f'{label}: HL={np.array(HL).tolist()}')
    return 'solve', n, d, hermitian, traceless, any(conj), sparse


def op_solve(ctx, rs):
    return solve(ctx, rs, False)


def op_solve_conj(ctx, rs):
    return solve(ctx, rs, True)


def op_solve_sparse(ctx, rs):
    return solve(ctx, rs, rs.rand() < .4, True)


def echelon(rs, real):
    """A matrix with known reduced row echelon form."""
    cols = rs.randint(1, 8)
    k = rs.randint(0, cols + 1)
    piv = sorted(rs.permutation(cols)[:k])
    R = np.zeros((k, cols), dtype=float if real else complex)
    for i, p in enumerate(piv):
        R[i, p + 1:] = (rs.randint(-2, 3, cols - p - 1) if rs.rand() < .6 else cgauss(rs, cols - p - 1, real=real)) * (1 if real else rs.choice([1, 1j]))
    for i, p in enumerate(piv):
        R[:, p] = 0
        R[i, p] = 1
    rows = k + rs.randint(0, 3) if k else rs.randint(1, 4)
    while True:
        M = cgauss(rs, rows, k, real=real) if rs.rand() < .6 else rs.randint(-2, 3, (rows, k)).astype(float)
        s = np.linalg.svd(M, compute_uv=False)
        if not k or s.min() > .2:
            break
    return M @ R, R, rows


def op_rref(ctx, rs):
    from qsymm.linalg import rref
    real = rs.rand() < .5
    m, R, rows = echelon(rs, real)
    unit = rs.choice([1, 1, 1, 1e-3, 300.]) if R.size else 1
    m = m * unit
    rtol = [1e-3, 1e-6, 1e-9][rs.randint(3)]
    if len(R) and rtol * np.abs(m).max() > .02 * unit:
        return None
    keep = m.copy()
    if rs.rand() < .6:
        red, S = ctx.call(lambda: rref(m, rtol=rtol, return_S=True))
        ctx.check(S.shape == (rows, rows) and np.allclose(S @ m, red, atol=1e-7), 'wrong-transformation', lambda: f'{m.tolist()}: {S.tolist()}')
        ctx.check(np.linalg.svd(S, compute_uv=False).min() * max(1, unit) > 1e-6, 'singular-transformation', lambda: f'{m.tolist()}: {S.tolist()}')
    else:
        red = ctx.call(rref, m, rtol=rtol)
    want = np.vstack([R, np.zeros((rows - len(R), R.shape[1]))])
    ctx.check(red.shape == want.shape and np.allclose(red, want, atol=1e-7), 'wrong-echelon-form', lambda: f'{m.tolist()}: {red.tolist()} instead of {want.tolist()}')
    ctx.check(np.array_equal(m, keep), 'argument-changed', 'rref')
    return 'rref', m.shape, len(R), real


def op_sparse_basis(ctx, rs):
    from qsymm.linalg import sparse_basis
    nd = int(rs.choice([2, 3, 5]))
    reals = rs.rand() < .5
    m, R, rows = echelon(rs, reals or rs.rand() < .5)
    if not len(R):
        got = ctx.call(sparse_basis, m[:0])
        ctx.check(len(got) == 0, 'wrong-basis', 'empty basis')
        return 'sparse-basis', 0
    if 10.**-nd * np.abs(m).max() > .02:
        return None
    if reals:
        # the real span of complex vectors: split the columns into real and imaginary parts
        if R.shape[1] % 2:
            m, R = np.hstack([m, 0 * m[:, :1]]), np.hstack([R, 0 * R[:, :1]])
        h = R.shape[1] // 2
        x, want = m[:, :h] + 1j * m[:, h:], R[:, :h] + 1j * R[:, h:]
    else:
        x, want = m, R
    keep = x.copy()
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        got = ctx.call(sparse_basis, x, num_digits=nd, reals=reals)
    ctx.check(got.shape == want.shape and np.allclose(got, want, rtol=0, atol=1.1 * 10.**-nd), 'wrong-basis', lambda: f'{x.tolist()}: {got.tolist()} instead of {want.tolist()}')
    ctx.check(np.array_equal(got, np.round(got, nd)), 'not-rounded', lambda: f'{got.tolist()}')
    ctx.check(bool(log) == (len(want) < rows), 'wrong-warning', lambda: f'{[str(w.message) for w in log]} for {rows} vectors of rank {len(want)}')
    ctx.check(np.array_equal(x, keep), 'argument-changed', 'sparse_basis')
    return 'sparse-basis', x.shape, len(want), bool(reals)


def op_basis(ctx, rs):
    import scipy.sparse as sp
    from qsymm.linalg import matrix_basis
    n = rs.randint(1, 6)
    traceless, anti, real, sparse = (bool(x) for x in rs.rand(4) < .5)
    gens = [ctx.call(matrix_basis, n, traceless=traceless, antihermitian=anti, real=real, sparse=sparse) for _ in range(2)]
    out, other = [], []
    for b in gens[0]:                          # two bases being made at the same time, one of them written to
        if rs.rand() < .7:
            x = next(gens[1], None)
            if x is not None:
                other.append(x.copy())
                x *= 0
        out.append(b)
    for x in gens[1]:
        other.append(x)
    label = f'{n} traceless={traceless} antihermitian={anti} real={real} sparse={sparse}'
    ctx.check(all(isinstance(b, sp.csr_matrix) if sparse else isinstance(b, np.ndarray) for b in out), 'wrong-type', label)
    out, other = ([b.toarray() if sparse else b for b in z] for z in (out, other))
    ctx.check(len(out) == len(other) and all(np.array_equal(a, b) for a, b in zip(out, other)), 'not-the-same', label)
    dim = (n * (n - 1) // 2 if anti else n * (n + 1) // 2 - traceless) if real else n * n - traceless
    ctx.check(len(out) == dim and all(b.shape == (n, n) for b in out), 'wrong-dimension', lambda: f'{label}: {len(out)}')
    for b in out:
        ctx.check(np.array_equal(b.conj().T, -b if anti else b), 'not-hermitian', label)
        ctx.check(not traceless or np.trace(b) == 0, 'not-traceless', label)
        ctx.check(not real or not np.any(b.imag), 'not-real', label)
    if out:
        v = np.array([np.hstack([b.real.ravel(), b.imag.ravel()]) for b in out])
        ctx.check(np.linalg.matrix_rank(v) == dim, 'dependent', label)
    return 'basis', n, traceless, anti, real, sparse


def op_vectors(ctx, rs):
    import sympy
    import qsymm
    from qsymm.linalg import family_to_vectors
    n, m = rs.randint(1, 4), rs.randint(0, 5)
    shape = (n, n)
    names = sympy.symbols('k_x k_y a b', commutative=False)
    keys = [names[0], names[1], names[2] * names[0], names[3], sympy.Integer(1)]
    fam, dicts = [], []
    for _ in range(m):
        d = {keys[j]: cgauss(rs, *shape) if rs.rand() < .5 else rs.randint(-1, 2, shape).astype(complex) for j in rs.permutation(5)[:rs.randint(0, 4)]}
        fam.append(qsymm.Model(dict(d), momenta=['k_x', 'k_y'], shape=shape, format=np.ndarray) if d else qsymm.Model({}, momenta=['k_x', 'k_y'], shape=shape, format=np.ndarray))
        dicts.append({k: v for k, v in fam[-1].items()})
    used = sorted({k for d in dicts for k in d}, key=str)
    V = ctx.call(family_to_vectors, fam)
    ctx.check(V.shape == (m, len(used) * 2 * n * n) and not np.iscomplexobj(V), 'wrong-shape', lambda: f'{V.shape} for {m} members, {len(used)} keys of size {n}')
    gram = np.array([[sum(np.vdot(a[k], b[k]).real for k in a if k in b) for b in dicts] for a in dicts]).reshape(m, m)
    ctx.check(np.allclose(V @ V.T, gram), 'not-isometric', lambda: f'{V.tolist()}')
    if m:
        order = [used[i] for i in rs.permutation(len(used))] + [sympy.Symbol('unused', commutative=False)] * rs.randint(2)
        W = ctx.call(family_to_vectors, fam, all_keys=order)
        zero = np.zeros(shape)
        want = np.array([np.hstack([np.hstack([d.get(k, zero).real.ravel(), d.get(k, zero).imag.ravel()]) for k in order]) if order else [] for d in dicts])
        ctx.check(W.shape == want.shape and np.allclose(W, want), 'wrong-vectors', lambda: f'{order}: {W.tolist()} instead of {want.tolist()}')
        ctx.check(all(set(f) == set(d) for f, d in zip(fam, dicts)), 'argument-changed', 'family_to_vectors')
        if used:
            try:
                family_to_vectors(fam, all_keys=used[1:])
            except AssertionError:
                pass
            else:
                ctx.check(False, 'accepted', f'all_keys without {used[0]}')
    return 'vectors', n, m, len(used)


def op_close(ctx, rs):
    """allclose: relative to the largest entry of either, for every kind of matrix."""
    import scipy.sparse as sp
    import scipy.sparse.linalg as sla
    from qsymm.linalg import allclose
    n = rs.randint(1, 5)
    a = cgauss(rs, n, n) * rs.choice([1e-9, 1e-3, 1., 1., 1e4])
    rtol, atol = [(1e-5, 1e-8), (1e-3, 0.), (1e-9, 1e-6)][rs.randint(3)]
    big = np.abs(a).max()
    band = atol + rtol * big
    f = [0, .5, .9, 2., 30.][rs.randint(5)]
    e = np.zeros((n, n), complex)
    e[rs.randint(n), rs.randint(n)] = f * band * np.exp(2j * np.pi * rs.rand())
    b = a + e
    band = atol + rtol * max(np.abs(a).max(), np.abs(b).max())
    want = np.abs(e).max() <= band
    if abs(np.abs(e).max() / band - 1) < .05:
        return None
    kinds = ['array', 'array', 'sparse', 'operator', 'list']
    ka, kb = kinds[rs.randint(5)], kinds[rs.randint(5)]
    if 'sparse' in (ka, kb):                   # sparse matrices are compared with sparse ones or arrays
        ka, kb = (x if x in ('sparse', 'array') else 'array' for x in (ka, kb))
    conv = {'array': lambda x: x, 'sparse': lambda x: fmt(rs, x), 'operator': sla.aslinearoperator, 'list': lambda x: x.tolist()}
    kw = {} if (rtol, atol) == (1e-5, 1e-8) and rs.rand() < .5 else dict(rtol=rtol, atol=atol)
    x, y = conv[ka](a), conv[kb](b)
    if ka == kb == 'sparse':
        x, y = sp.csr_matrix(x), sp.csr_matrix(y)
    got = ctx.call(allclose, x, y, **kw)
    ctx.check(bool(got) == want, 'wrong-comparison', lambda: f'{ka} {kb} {a.tolist()} {b.tolist()} {kw}: {got}')
    got = ctx.call(allclose, y, x, **kw)
    ctx.check(bool(got) == want, 'wrong-comparison', lambda: f'{kb} {ka} {b.tolist()} {a.tolist()} {kw}: {got}')
    if ka == 'array':
        c = complex(a[0, 0])
        got = ctx.call(allclose, np.full((n, n), c), c, **kw) and ctx.call(allclose, c, np.full((n, n), c), **kw)
        ctx.check(bool(got), 'wrong-comparison', f'array of {c} and the number')
    return 'close', ka, kb, bool(want)


def op_prop(ctx, rs):
    from qsymm.linalg import prop_to_id
    n = rs.randint(1, 6)
    c = complex(*rs.standard_normal(2)) * rs.choice([.1, 1., 50.])
    c += .05 * c / abs(c)
    if rs.rand() < .15:
        c = 0
    A = c * np.eye(n)
    k = rs.randint(4)
    if k == 0:                                  # rounding
        A = A + 1e-10 * cgauss(rs, n, n)
        want = True
    elif k == 1 or n == 1:
        want = True
    else:
        i, j = rs.randint(n), rs.randint(n)
        A = A + 0j
        A[i, j] += (.05 + rs.rand()) * max(abs(c), .1) * np.exp(2j * np.pi * rs.rand())
        want = False
    got = ctx.call(prop_to_id, A)
    ctx.check(bool(got[0]) == want and (not want or abs(got[1] - c) < 1e-6), 'wrong-factor', lambda: f'{A.tolist()}: {got}')
    return 'prop', n, int(k), want


def op_split(ctx, rs):
    from qsymm.linalg import split_list
    n = rs.randint(1, 9)
    steps = rs.choice([0, 0, 1e-9, .3, 1.], n - 1)
    tol = [1e-6, 1e-3][rs.randint(2)]
    vals = np.cumsum(np.concatenate([[rs.standard_normal()], steps]))
    if rs.rand() < .3:
        vals = vals * np.exp(1j * rs.rand())
    got = ctx.call(split_list, vals, tol) if tol != 1e-6 else ctx.call(split_list, vals)
    ends = [0] + [i + 1 for i, s in enumerate(steps) if s > .1] + [n]
    want = [list(x) for x in zip(ends[:-1], ends[1:])]
    ctx.check(np.asarray(got).tolist() == want, 'wrong-blocks', lambda: f'{vals.tolist()}: {got.tolist()} instead of {want}')
    return 'split', n, len(want)


def unimodular(rs, n, steps):
    A = np.eye(n, dtype=int)[rs.permutation(n)] * rs.choice([-1, 1], n)
    for _ in range(steps if n > 1 else 0):
        i, j = rs.permutation(n)[:2]
        B = A.copy()
        B[i] += rs.choice([-2, -1, 1, 2]) * A[j]
        if np.abs(B).max() <= 40:
            A = B
    return A


def op_int_inverse(ctx, rs):
    """Inverses of integer rotations, through the elements that use them."""
    import qsymm
    import tinyarray as ta
    from qsymm.linalg import _inv_int
    n = rs.randint(1, 5)
    A = unimodular(rs, n, rs.randint(0, 9))
    inv = np.array(ctx.call(_inv_int, ta.array(A, int)))
    ctx.check(np.array_equal(inv @ A, np.eye(n)), 'wrong-inverse', lambda: f'{A.tolist()}: {inv.tolist()}')
    g = qsymm.PointGroupElement(A)
    h = ctx.call(g.inv)
    ctx.check(np.array_equal(np.array(h.R) @ A, np.eye(n)) and g * h == g.identity(), 'wrong-inverse', lambda: f'element {A.tolist()}: {h.R}')
    if n > 1:
        B = A.copy()
        B[0] *= rs.choice([0, 2, 3])
        try:
            x = _inv_int(ta.array(B, int))
        except (ValueError, np.linalg.LinAlgError):
            pass
        else:
            ctx.check(False, 'accepted', f'{B.tolist()} gives {x}')
    return 'int-inverse', n, int(np.abs(A).max())


def op_products(ctx, rs):
    from qsymm.linalg import commutator, mtm
    n, m, p = rs.randint(1, 5), rs.randint(1, 4), rs.randint(1, 5)
    a, B, c = cgauss(rs, p, n), cgauss(rs, m, n, n), cgauss(rs, n, p)
    got = ctx.call(mtm, a, B, c)
    ctx.check(np.shape(got) == (m, p, p) and np.allclose(got, np.einsum('ij,ajk,kl->ail', a, B, c)), 'wrong-product', 'mtm')
    got = ctx.call(commutator, B[0], B[-1])
    ctx.check(np.allclose(got, B[0] @ B[-1] - B[-1] @ B[0]), 'wrong-product', 'commutator')
    return 'products', n, m, p


def su(n):
    """Traceless Hermitian matrices."""
    out = []
    for i in range(n):
        for j in range(i):
            e = np.zeros((n, n), complex)
            e[i, j] = e[j, i] = 1
            f = np.zeros((n, n), complex)
            f[i, j], f[j, i] = 1j, -1j
            out += [e, f]
    for i in range(1, n):
        out.append(np.diag([1.] * i + [-i] + [0.] * (n - i - 1)).astype(complex))
    return out


def orthonormal_mix(rs, mats, mix):
    """Another trace-orthonormal real basis of the same space of Hermitian matrices."""
    if not mats:
        return mats
    v = np.array([np.hstack([m.real.ravel(), m.imag.ravel()]) for m in mats])
    v = np.linalg.svd(v, full_matrices=False)[2]
    if mix:
        v = unitary(rs, len(v), True) @ v
    h = v.shape[1] // 2
    return (v[:, :h] + 1j * v[:, h:]).reshape(-1, *mats[0].shape)


def blocks(rs, top=7):
    """Sizes (copies n of d-dimensional irreps of su(d))."""
    out = []
    for _ in range(rs.randint(1, 4)):
        d, n = rs.randint(1, 4), rs.randint(1, 4)
        if sum(x * y for x, y in out) + d * n <= top:
            out.append((d, n))
    return out or [(2, 1)]


def op_lie(ctx, rs):
    """Structure constants, Killing form, Casimir operator, center."""
    from qsymm import symmetry_finder as sf
    bl = blocks(rs, 6)
    N = sum(d * n for d, n in bl)
    U = unitary(rs, N)
    semi, center, at = [], [], 0
    for d, n in bl:
        def put(m):
            M = np.zeros((N, N), complex)
            M[at:at + d * n, at:at + d * n] = m
            return U @ M @ U.conj().T
        semi += [put(np.kron(m, np.eye(n))) for m in su(d)]
        center.append(put(np.eye(d * n)))
        at += d * n
    if rs.rand() < .3:
        center = []
    elif rs.rand() < .5:                        # without the identity
        center = [c - np.trace(c) / N * np.eye(N) for c in center[1:]]
    if not semi and not center:
        return None
    if len(semi) + len(center) > 14:
        return None
    gens = orthonormal_mix(rs, semi + center, rs.rand() < .7) * rs.choice([1, 1, .3, 3])
    m = len(gens)
    keep = gens.copy()
    C = ctx.call(sf.struct_const, gens)
    ctx.check(C.shape == (m, m, m) and np.allclose(np.tensordot(C, gens, 1), np.array([[a @ b - b @ a for b in gens] for a in gens]), atol=1e-8),
              'wrong-structure', lambda: f'{bl}')
    g = ctx.call(sf.killing, gens)
    ctx.check(np.allclose(g, np.einsum('ade,bed->ab', C, C), atol=1e-8), 'wrong-killing-form', lambda: f'{bl}')
    if center:
        try:
            sf.casimir(gens)
        except ValueError:
            pass
        else:
            ctx.check(False, 'accepted', f'Casimir operator of an algebra with a center {bl}')
    else:
        Q = ctx.call(sf.casimir, gens)
        ctx.check(all(np.allclose(Q @ x, x @ Q, atol=1e-7) for x in gens), 'not-casimir', lambda: f'{bl}')
        # the same number 2 C_2 / norm in every copy; 1 summed over the algebra in its adjoint
        ctx.check(abs(np.trace(Q) - sum(n * (d * d - 1) / (2 * d * d) * d for d, n in bl)) < 1e-6, 'not-casimir', lambda: f'{bl}: trace {np.trace(Q)}')
    gc, gs = ctx.call(sf.separate_lie_algebra, gens)
    ctx.check(np.array_equal(gens, keep), 'argument-changed', 'Lie algebra')
    for got, want, label in ((gc, center, 'center'), (gs, semi, 'semisimple part')):
        ctx.check(got.shape == (len(want), N, N), 'wrong-dimension', lambda: f'{label} of {bl}: {got.shape} instead of {len(want)}')
        ctx.check(span_equal(got.reshape(len(want), N * N), np.array(want).reshape(len(want), N * N)), 'wrong-span', lambda: f'{label} of {bl}')
    return 'lie', bl, len(center)


def op_sun(ctx, rs):
    """Symmetry-adapted basis of copies of su(d)."""
    from qsymm.symmetry_finder import symmetry_adapted_sun
    d, n = rs.randint(2, 5), rs.randint(1, 5)
    N = n * d
    U = unitary(rs, N) if rs.rand() < .7 else np.eye(N)[rs.permutation(N)]
    base = [U @ np.kron(m, np.eye(n)) @ U.conj().T for m in su(d)]
    k = rs.randint(3)
    gens = orthonormal_mix(rs, base, True) if k == 0 else np.array([base[i] for i in rs.permutation(len(base))]) * (1 if k == 1 else .1)
    keep = gens.copy()
    Ps = ctx.call(symmetry_adapted_sun, gens, **[{}, dict(check=True)][rs.randint(2)])
    ctx.check(np.array_equal(gens, keep), 'argument-changed', 'symmetry_adapted_sun')
    ctx.check(np.shape(Ps) == (d, N, n), 'wrong-shape', lambda: f'{np.shape(Ps)} for d={d} n={n}')
    V = np.hstack(list(Ps))
    ctx.check(np.allclose(V.conj().T @ V, np.eye(N), atol=1e-7), 'not-unitary', f'd={d} n={n}')
    for g in gens:
        b = (V.conj().T @ g @ V).reshape(d, n, d, n)
        L = np.einsum('aibi->ab', b) / n
        ctx.check(np.allclose(b, np.einsum('ab,ij->aibj', L, np.eye(n)), atol=1e-6), 'not-adapted', lambda: f'd={d} n={n}')
    if n > 1:
        try:
            symmetry_adapted_sun(gens[:-1])
        except ValueError:
            pass
        else:
            ctx.check(False, 'accepted', f'{len(gens) - 1} generators of size {N}')
    return 'sun', int(d), int(n), int(k)


def op_irreps(ctx, rs):
    """Irreducible blocks and conserved quantities of a family of matrices."""
    from qsymm import symmetry_finder as sf
    bl = [(int(d), int(n)) for n, d in blocks(rs, 8)]
    N = sum(d * n for d, n in bl)
    U = unitary(rs, N)
    H = []
    for _ in range(rs.randint(2, 4)):
        M, at = np.zeros((N, N), complex), 0
        for d, n in bl:
            h = cgauss(rs, n, n)
            M[at:at + d * n, at:at + d * n] = np.kron(np.eye(d), h + h.conj().T + 3 * rs.standard_normal() * np.eye(n))
            at += d * n
        H.append(U @ M @ U.conj().T)
    keep = [h.copy() for h in H]
    Ps = ctx.call(sf._reduce_hamiltonian, np.array(H) if rs.rand() < .5 else H)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(H, keep)), 'argument-changed', 'reduce')
    ctx.check(sorted((P.shape[0], P.shape[2]) for P in Ps) == sorted(bl) and all(P.shape[1] == N for P in Ps), 'wrong-blocks',
              lambda: f'{[P.shape for P in Ps]} instead of {bl}')
    V = np.hstack([p for P in Ps for p in P])
    ctx.check(np.allclose(V.conj().T @ V, np.eye(N), atol=1e-6), 'not-unitary', lambda: f'{bl}')
    for P in Ps:
        for h in H:
            b = [p.conj().T @ h @ p for p in P]
            ctx.check(all(np.allclose(x, b[0], atol=1e-5) for x in b) and all(np.allclose(h @ p, p @ x, atol=1e-5) for p, x in zip(P, b)),
                      'not-adapted', lambda: f'{bl}')
    L = ctx.call(sf.conserved_quantities, Ps)
    ctx.check(len(L) == sum(d * d for d, n in bl) - 1, 'wrong-dimension', lambda: f'{len(L)} conserved quantities of {bl}')
    for c in L:
        ctx.check(all(np.allclose(c.U @ h, h @ c.U, atol=1e-5) for h in H) and np.allclose(c.U, c.U.conj().T) and abs(np.trace(c.U)) < 1e-6,
                  'not-conserved', lambda: f'{bl}')
    if len(L):
        ctx.check(np.linalg.matrix_rank(np.array([c.U.ravel() for c in L]), tol=1e-6) == len(L), 'dependent', lambda: f'{bl}')
    return 'irreps', sorted(bl), len(H)


def op_bad(ctx, rs):
    from qsymm.linalg import nullspace, simult_diag, solve_mat_eqn
    U, V = unitary(rs, 4), unitary(rs, 4)
    d = np.diag([1., 2, 3, 4])
    k = rs.randint(8)
    f = [lambda: simult_diag(np.array([U @ d @ U.conj().T, V @ d @ V.conj().T])),
         lambda: simult_diag(np.array([np.triu(cgauss(rs, 4, 4)), np.eye(4)])),
         lambda: simult_diag(np.array([np.eye(4), U @ np.triu(np.ones((4, 4))) @ U.conj().T])),
         lambda: solve_mat_eqn([d, d], [d]),
         lambda: solve_mat_eqn([d], [d[:3, :3]]),
         lambda: solve_mat_eqn([d[:3]]),
         lambda: solve_mat_eqn([d, d], conjugate=[True]),
         lambda: nullspace(fmt(rs, d), k_max=0)][k]
    try:
        f()
    except ValueError:
        return 'bad', int(k)
    except Exception as ex:
        ctx.check(False, 'wrong-error', f'case {k}: {type(ex).__name__}: {ex}')
    ctx.check(False, 'accepted', f'malformed input, case {k}')


def run(plan, ctx):
    done = []
    for name, seed in plan['ops']:
        x = globals()['op_' + name.replace('-', '_')](ctx, np_rng('op', name, seed))
        if x is not None:
            ctx.count('op-' + name)
            ctx.nontrivial = True
            done.append(x)
            ctx.event(name, str(x))
    ctx.sig([str(x) for x in done])
