"""Workload and oracle of lattice reduction, closest vectors and Voronoi cells (C22)."""
import itertools as it

import numpy as np

from . import gen
from .core import np_rng

TOL = 1e-7


def generate(rng):
    m = rng.choice([1, 2, 2, 3, 3, 3, 4])
    return dict(m=m, n=m + rng.choice([0, 0, 0, 1, 2]), kind=rng.choice(['exact', 'exact', 'generic', 'thin']), seed=rng.randrange(10**6),
                mix=rng.choice([0, 1, 3, 6, 10]), unit=rng.choice([1, 1, 1, 1e-10, 1e-6, 3.7, 1e5]), c=rng.choice([1.34, 1.34, 1.5, 2, 5]),
                env=gen.gen_env(rng, noise=False),
                ops=[[rng.choice(['lll', 'lll', 'cvp', 'cvp', 'cvp', 'group', 'group', 'shortest', 'voronoi', 'relevant', 'relevant', 'bad']),
                      rng.randrange(10**6)] for _ in range(rng.randrange(2, 8))])


EXACT = {1: [np.eye(1)], 2: [np.eye(2), [[1, 0], [0, 2]], [[1, 0], [.5, 3**.5 / 2]], [[1, 1], [1, -1]], [[2, 0], [1, 1]], [[2, 0], [1, 2]]],
         3: [np.eye(3), [[1, 1, 0], [1, 0, 1], [0, 1, 1]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[1, 0, 0], [.5, 3**.5 / 2, 0], [0, 0, 1.5]],
             [[2, 0, 0], [0, 1, 0], [0, 0, 3]], [[1, 1, 0], [1, -1, 0], [0, 0, 2]], [[2, 0, 0], [0, 2, 0], [1, 1, 1.5]]],
         4: [np.eye(4), [[1, 1, 0, 0], [1, -1, 0, 0], [0, 1, -1, 0], [0, 0, 1, -1]], [[2, 0, 0, 0], [1, 1, 0, 0], [0, 0, 1, 0], [0, 0, .5, 3**.5 / 2]]]}


def lattice(plan):
    """Rows: a basis, skewed by a unimodular matrix."""
    rs = np_rng('lattice', plan['seed'])
    m, n = plan['m'], plan['n']
    if plan['kind'] == 'exact':
        A = np.array(EXACT[m][rs.randint(len(EXACT[m]))], float)
    elif plan['kind'] == 'generic':
        while True:
            A = rs.standard_normal((m, m))
            if np.linalg.cond(A) < 8:
                break
    else:
        A = np.diag(rs.choice([1., 1.5, 3., 6.], m)) + np.tril(rs.uniform(-.5, .5, (m, m)), -1)
    Q = np.linalg.qr(rs.standard_normal((n, n)))[0] if rs.rand() < .5 or m < n else np.eye(n)
    A = A @ Q[:m]
    S = np.eye(m)
    if m > 1:
        for _ in range(plan['mix']):
            i, j = rs.permutation(m)[:2]
            S[i] += rs.choice([-2, -1, 1, 2]) * S[j]
            if np.abs(S).max() > 12:
                S[i] = np.eye(m)[i]
                S = S if abs(abs(np.linalg.det(S)) - 1) < 1e-6 else np.eye(m)
        S = S[rs.permutation(m)]
    return A * plan['unit'], S @ A * plan['unit']


def points_within(B, v, D):
    """Coefficients of all lattice vectors within D of v (a point of the span)."""
    inv = np.linalg.inv(B @ B.T)
    x = v @ B.T @ inv
    w = D * np.sqrt(np.diag(inv)) * (1 + 1e-9) + 1e-9
    if np.prod(2 * w + 1) > 4e5:
        return None
    P = np.array(list(it.product(*[range(int(np.ceil(a - b)), int(np.floor(a + b)) + 1) for a, b in zip(x, w)])))
    d = np.linalg.norm(P @ B - v, axis=1)
    keep = d <= D * (1 + 1e-9)
    return P[keep], d[keep]


class Lattice:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.good, self.B = lattice(plan)
        self.unit = plan['unit']

    def coset_min(self, good=None):
        """{parity: (minimal length, list of minimal vectors)} in terms of B."""
        B, m = self.B, self.plan['m']
        G = self.good
        # coefficients in the good basis, where the box is small
        T = np.rint(np.linalg.lstsq(B.T, G.T, rcond=None)[0]).astype(int)      # G = T.T @ B
        out = {}
        for p in it.product((0, 1), repeat=m):
            if not any(p):
                continue
            v = np.array(p) @ G
            # v + 2 L: closest vectors of -v in 2L
            D = np.linalg.norm(v)
            P, d = points_within(2 * G, -v, D)
            k = d <= d.min() * (1 + 1e-5)
            coef = (2 * P[k] + np.array(p)) @ T.T
            gap = np.sort(d)
            out[p] = (d.min(), coef, gap[k.sum()] / d.min() - 1 if len(gap) > k.sum() else np.inf)
        return out


def same_input(L, keep, label):
    L.ctx.check(np.array_equal(keep, L.B), 'argument-changed', label)


def form(L, rs):
    """The basis as array, list or transposed view."""
    k = rs.randint(3)
    return [L.B, L.B.tolist(), np.asfortranarray(L.B)][k]


def op_lll(L, rs):
    from qsymm.kwant_linalg_lll import lll
    ctx, B, c = L.ctx, L.B, L.plan['c']
    keep = B.copy()
    red, co = ctx.call(lll, form(L, rs), c)
    same_input(L, keep, 'lll')
    ctx.check(red.shape == B.shape and co.shape == (len(B), len(B)) and co.dtype.kind == 'i', 'wrong-shape', lambda: f'{red.shape} {co.shape} {co.dtype}')
    ctx.check(abs(abs(np.linalg.det(co)) - 1) < 1e-6, 'other-lattice', lambda: f'{B.tolist()}: transformation {co.tolist()}')
    ctx.check(np.allclose(co.T @ B, red, rtol=0, atol=TOL * L.unit * 10), 'other-lattice', lambda: f'{B.tolist()}: {co.tolist()} does not give {red.tolist()}')
    g = red.copy()
    mu = np.zeros((len(g), len(g)))
    for i in range(len(g)):
        for j in range(i):
            mu[i, j] = red[i] @ g[j] / (g[j] @ g[j])
            g[i] = g[i] - mu[i, j] * g[j]
    r = (g**2).sum(1)
    ctx.check(np.all(r[:-1] < c * r[1:] * (1 + 1e-6)), 'not-reduced', lambda: f'{B.tolist()}: squared lengths {r.tolist()} c={c}')
    ctx.check(all(abs(mu[i, j]) <= .5 + 1e-6 for i in range(len(g)) for j in range(i)), 'not-reduced', lambda: f'{B.tolist()}: {mu.tolist()}')
    return 'lll'


def target(L, rs):
    """A point: generic, lattice point, middle of a cell, or out of the span."""
    m, n = L.plan['m'], L.plan['n']
    k = rs.randint(5)
    if k == 0:
        x = rs.randint(-3, 4, m).astype(float)
    elif k == 1:
        x = rs.randint(-4, 5, m) / 2
    else:
        x = rs.uniform(-3, 3, m)
    v = x @ L.good
    if n > m and rs.rand() < .5:
        q = np.linalg.qr(np.vstack([L.good / L.unit, rs.standard_normal((n - m, n))]).T)[0][:, m:]
        v = v + L.unit * q @ rs.standard_normal(n - m)
    return v


def project(L, v):
    return np.linalg.lstsq(L.good.T / L.unit, v / L.unit, rcond=None)[0] @ L.good


def distances(L, v, D):
    """All lattice vectors around v: lengths, through the good basis."""
    res = points_within(L.good, v, D)
    return None if res is None else np.sort(res[1])


def basis_for_cvp(L, rs):
    """The closest-vector search is documented to want a reduced basis."""
    from qsymm.kwant_linalg_lll import lll
    if rs.rand() < .6 or L.plan['mix'] > 3 and L.plan['m'] > 2:
        return lll(L.B)[0]
    return L.good


def op_cvp(L, rs, n=None, v=None):
    from qsymm.kwant_linalg_lll import cvp
    ctx = L.ctx
    B = basis_for_cvp(L, rs)
    n = n or int(rs.choice([1, 1, 1, 2, 3, 5, 9]))
    v = target(L, rs) if v is None else v
    keep, vk = B.copy(), v.copy()
    got = ctx.call(cvp, [v, v.tolist()][rs.randint(2)], B, n) if n > 1 else ctx.call(cvp, v, B)
    ctx.check(np.array_equal(B, keep) and np.array_equal(v, vk), 'argument-changed', 'cvp')
    ctx.check(got.shape == (n, len(B)) and got.dtype.kind == 'i', 'wrong-shape', lambda: f'{got.shape} {got.dtype} for n={n}')
    p = project(L, v)
    d = np.linalg.norm(got @ B - p, axis=1)
    ctx.check(len({tuple(x) for x in got}) == n, 'repeated', lambda: f'{got.tolist()}')
    ctx.check(np.all(np.diff(d) >= -TOL * L.unit), 'not-sorted', lambda: f'{d.tolist()}')
    want = distances(L, p, d.max() + TOL * L.unit)
    if want is None:
        return None
    ctx.check(np.allclose(d, want[:n], rtol=0, atol=TOL * L.unit), 'not-closest', lambda: f'{v.tolist()} in {B.tolist()}: distances {d.tolist()} instead of {want[:n].tolist()}')
    return ('cvp', n)


def op_shortest(L, rs):
    """Shortest vectors of the lattice."""
    return op_cvp(L, rs, int(rs.randint(2, 8)), np.zeros(L.plan['n']))


def op_group(L, rs):
    from qsymm.kwant_linalg_lll import cvp
    ctx = L.ctx
    B = basis_for_cvp(L, rs)
    n = int(rs.choice([1, 1, 2, 3, 4]))
    v = target(L, rs) if rs.rand() < .7 else np.zeros(L.plan['n'])
    p = project(L, v)
    rtol = 1e-6
    got = ctx.call(cvp, v, B, n, group_by_length=True, rtol=rtol)
    d = np.linalg.norm(got @ B - p, axis=1)
    all_d = distances(L, p, (d.max() + .5 * L.unit))
    if all_d is None:
        return None
    rad = .5 / np.sqrt(np.max(np.diag(np.linalg.inv(B @ B.T))))
    gaps = np.diff(all_d)
    if np.any((gaps > .01 * rtol * rad) & (gaps < 100 * rtol * rad)):
        return None
    ends = np.where(gaps > rtol * rad)[0]
    want = all_d[:ends[n - 1] + 1] if len(ends) >= n else None
    if want is None:
        return None
    ctx.check(len({tuple(x) for x in got}) == len(got), 'repeated', lambda: f'{got.tolist()}')
    ctx.check(len(d) == len(want) and np.allclose(np.sort(d), want, rtol=0, atol=1e-5 * L.unit), 'wrong-shells',
              lambda: f'{v.tolist()} in {B.tolist()} n={n}: {np.sort(d).tolist()} instead of {want.tolist()}')
    return ('group', n)


def op_voronoi(L, rs):
    from qsymm.kwant_linalg_lll import voronoi
    ctx, m = L.ctx, L.plan['m']
    B = L.good
    keep = B.copy()
    V = ctx.call(voronoi, B)
    ctx.check(np.array_equal(B, keep), 'argument-changed', 'voronoi')
    ctx.check(V.shape == (2 * (2**m - 1), m) and V.dtype.kind == 'i', 'wrong-shape', lambda: f'{V.shape} {V.dtype}')
    h = len(V) // 2
    ctx.check(np.array_equal(V[h:], -V[:h]), 'wrong-order', lambda: f'{V.tolist()}')
    L2 = Lattice.__new__(Lattice)
    L2.plan, L2.ctx, L2.good, L2.B, L2.unit = L.plan, ctx, L.good, B, L.unit
    mins = L2.coset_min()
    got = {tuple(v % 2): np.linalg.norm(v @ B) for v in V[:h]}
    ctx.check(set(got) == set(mins), 'wrong-vectors', lambda: f'{B.tolist()}: {V.tolist()}')
    for p, x in got.items():
        ctx.check(abs(x - mins[p][0]) < 1e-6 * x, 'wrong-vectors', lambda: f'{B.tolist()}: {V.tolist()}: length {x} instead of {mins[p][0]}')
    return 'voronoi'


def op_relevant(L, rs):
    from qsymm.kwant_linalg_lll import voronoi
    ctx = L.ctx
    B = L.good if rs.rand() < .6 or L.plan['mix'] > 3 else L.B
    L2 = Lattice.__new__(Lattice)
    L2.plan, L2.ctx, L2.good, L2.B, L2.unit = L.plan, ctx, L.good, B, L.unit
    mins = L2.coset_min()
    if any(g < 1e-3 for _, _, g in mins.values()):
        return None       # a face of nearly vanishing size: open
    V = ctx.call(voronoi, B, reduced=True, rtol=[1e-9, 1e-5][rs.randint(2)])
    want = set()
    for p, (d, co, g) in mins.items():
        if len(co) == 2:
            want |= {tuple(x) for x in co.astype(int)}
    got = {tuple(v) for v in V}
    ctx.check(len(got) == len(V) and got == want, 'wrong-vectors', lambda: f'{B.tolist()}: {sorted(got)} instead of {sorted(want)}')
    h = len(V) // 2
    ctx.check(np.array_equal(V[h:], -V[:h]), 'wrong-order', lambda: f'{V.tolist()}')
    return ('relevant', len(V))


def op_bad(L, rs):
    from qsymm.kwant_linalg_lll import cvp, lll, voronoi
    ctx, k = L.ctx, rs.randint(5)
    f = [lambda: lll(L.B[0]), lambda: lll(np.vstack([L.B, rs.standard_normal((L.plan['n'] - L.plan['m'] + 1, L.plan['n']))])),
         lambda: cvp(L.B[0], L.B[0]), lambda: voronoi(L.B[0]), lambda: lll(5.)][k]
    try:
        f()
    except ValueError:
        return ('bad', int(k))
    except Exception as ex:
        ctx.check(False, 'wrong-error', f'case {k}: {type(ex).__name__}: {ex}')
    ctx.check(False, 'accepted', f'malformed input, case {k}')


def run(plan, ctx):
    L = Lattice(plan, ctx)
    done = []
    for name, seed in plan['ops']:
        x = globals()['op_' + name](L, np_rng('op', name, seed))
        if x is not None:
            ctx.count('op-' + name)
            ctx.nontrivial = True
            done.append(x)
            ctx.event(name, str(x))
    ctx.sig(plan['m'], plan['n'], plan['kind'], plan['mix'], plan['unit'], [str(x) for x in done])
