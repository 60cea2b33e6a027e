"""Workload and oracle of point-group elements (C11): a pool of library
elements next to reference elements, driven by a seeded operation sequence."""
import itertools as it
import math

import numpy as np

from . import gen, seams
from .core import np_rng, rng_of
from .gen import SPATIAL
from .spec import G, Spec, dense, eval_model, ray_equal

OPS = ['mul', 'mul', 'mul', 'pow', 'inv', 'ident', 'eq', 'eq', 'eq', 'hash', 'sort', 'apply', 'apply', 'apply',
       'product', 'product', 'undo', 'new', 'evict', 'strict', 'set', 'cgg', 'laws', 'mixed', 'caches']
PAULI = {'sigma_0': np.eye(2), 'sigma_x': np.array([[0, 1], [1, 0]]), 'sigma_y': np.array([[0, -1j], [1j, 0]]),
         'sigma_z': np.diag([1, -1])}


def generate(rng):
    d = rng.choice([0, 1, 2, 2, 2, 3, 3, 3])
    exact = rng.random() < .6
    spatial = rng.choice([s for s, v in SPATIAL.items() if v[0] == d])
    whole = all(np.allclose(x, np.round(x)) for x in SPATIAL[spatial][2])
    skew = rng.choice([1, 2, 3, 4, 6]) if d > 1 and exact and whole and rng.random() < .4 else 0
    return dict(d=d, exact=exact, spatial=spatial, skew=skew, N=rng.choice([0, 1, 2, 2, 3, 4]), useed=rng.randrange(10**6),
                ufam=rng.choice(['haar', 'haar', 'clifford', 'real']), strict=rng.random() < .3,
                names=rng.choice([None, None, ('q', 'p', 'w'), ('k_z', 'k_x', 'k_y')]),
                n0=rng.randrange(2, 6), env=gen.gen_env(rng, noise=False),
                ops=[[rng.choice(OPS), rng.randrange(10**6)] for _ in range(rng.randrange(4, 15))])


class Pool:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.d, self.N, self.exact = plan['d'], plan['N'], plan['exact']
        self.slots = []      # (library element, reference, strict)
        self.S = self.lattice_basis(np_rng('skew', plan['useed']), plan.get('skew', 0))

    # ----------------------------------------------------------- making
    def unitary(self, rs):
        n = self.N
        if n == 0:
            return None
        f = self.plan['ufam']
        if f == 'haar':
            return gen.rand_unitary(rs, n)
        if f == 'real':
            q, r = np.linalg.qr(rs.standard_normal((n, n)))
            return q + 0j
        U = gen.signed_perm(rs, n)
        return U * rs.choice([1, 1j, -1, np.exp(1j * np.pi / 4)])

    def lattice_basis(self, rs, n):
        """Unimodular: rotations may be given in any basis of the lattice."""
        S = np.eye(self.d)
        for _ in range(n):
            i, j = rs.permutation(self.d)[:2]
            T = S.copy()
            T[i] += rs.choice([-2, -1, 1, 2]) * S[j]
            S = T if np.abs(T).max() < 8 else S
        return S

    def rotation(self, rs):
        R = self.cartesian(rs)
        if self.plan.get('skew'):
            R = np.round(self.S @ R @ np.linalg.inv(self.S)) + 0.
        return R

    def cartesian(self, rs):
        d = self.d
        gens = SPATIAL[self.plan['spatial']][2]
        R = np.eye(d)
        for _ in range(rs.randint(0, 4)):
            if gens:
                R = R @ gens[rs.randint(len(gens))]
        if not gens and d and rs.rand() < .5:
            R = -R
        if not self.exact and d >= 2 and rs.rand() < .5:
            t = rs.choice([2 * math.pi / 5, 2 * math.pi / 8, 1.0, 2 * math.pi / 7])
            Q = gen.rot2(t) if d == 2 else gen.rot3(t, rs.standard_normal(3))
            R = R @ Q
        return R

    def new(self, rs):
        import sympy
        import tinyarray as ta
        import qsymm
        R = self.rotation(rs)
        c, a = bool(rs.rand() < .4), bool(rs.rand() < .35)
        U = self.unitary(rs)
        if U is not None and rs.rand() < .08:
            U = None
        strict = self.plan['strict'] and rs.rand() < .6
        isint = np.allclose(R, np.round(R))
        if isint:
            Ri = np.round(R).astype(int)
            forms = [lambda: ta.array(Ri) if self.d else ta.identity(0, int), lambda: np.array(Ri),
                     lambda: np.array(Ri, float), lambda: np.array(Ri) + 1e-12]
            if self.d:
                forms += [lambda: sympy.Matrix(Ri), lambda: sympy.ImmutableMatrix(Ri), lambda: ta.array(Ri, float)]
        elif self.exact:
            M = gen.exact_R(R)
            forms = [lambda: M, lambda: sympy.Matrix(M)]
        else:
            forms = [lambda: np.array(R), lambda: ta.array(R)]
        Rin = forms[rs.randint(len(forms))]()
        kw = {}
        Uin = U
        if U is not None:
            c_ = rs.randint(8)
            if c_ == 0:
                Uin = U.tolist()
            elif c_ == 1 and self.N == 2:
                nm = list(PAULI)[rs.randint(4)]
                Uin, U = nm, PAULI[nm].astype(complex)
            elif c_ == 2 and self.N == 4:
                n1, n2 = (list(PAULI)[rs.randint(4)] for _ in '12')
                Uin, U = f'kron({n1}, {n2})', np.kron(PAULI[n1], PAULI[n2]).astype(complex)
            elif c_ == 3 and self.N == 2:
                Uin, U = '1j * foo', 1j * np.array([[0, 1], [-1, 0]], complex)
                kw['locals'] = {'foo': [[0, 1], [-1, 0]]}
            elif c_ == 4 and self.N == 1:
                Uin = complex(U[0, 0])
        g = self.ctx.call(qsymm.PointGroupElement, Rin, c, a, Uin, strict, **kw)
        return self.push(g, G(R, c, a, U), strict, 'constructor')

    def push(self, g, ref, strict, label):
        self.judge(g, ref, label)
        self.ctx.check(bool(g._strict_eq) == bool(strict), 'wrong-strict', f'{label}: _strict_eq {g._strict_eq}')
        self.slots.append((g, ref, strict))
        if len(self.slots) > 14:
            del self.slots[3]
        return self.slots[-1]

    # ---------------------------------------------------------- judging
    def judge(self, g, ref, label):
        ctx = self.ctx
        R = np.array(g.R).astype(float).reshape(ref.R.shape) if self.d == 0 else np.array(g.R).astype(float)
        ctx.check(R.shape == ref.R.shape and np.allclose(R, ref.R, atol=1e-7), 'wrong-rotation',
                  lambda: f'{label}: R={R.tolist()} expected {ref.R.tolist()}')
        ctx.check(type(g.conjugate) in (bool, np.bool_, int) and (bool(g.conjugate), bool(g.antisymmetry)) == (ref.c, ref.a),
                  'wrong-flags', lambda: f'{label}: {g.conjugate, g.antisymmetry} expected {ref.c, ref.a}')
        ctx.check((g.U is None) == (ref.U is None), 'wrong-unitary', lambda: f'{label}: U={g.U}, expected {ref.U}')
        if ref.U is not None:
            ctx.check(np.shape(g.U) == ref.U.shape and np.allclose(g.U, ref.U, atol=1e-7), 'wrong-unitary',
                      lambda: f'{label}: U={np.round(g.U, 4).tolist()} expected {np.round(ref.U, 4).tolist()}')
        ctx.nontrivial = True

    def equal(self, s, t):
        """Expected outcome of ==, None when too close to call."""
        (g, x, sx), (h, y, sy) = s, t
        if (x.c, x.a) != (y.c, y.a):
            return False
        diff = np.max(np.abs(x.R - y.R), initial=0)
        if 1e-9 < diff < 1e-3:
            return None
        if diff >= 1e-3:
            return False
        if not (sx or sy):
            return True
        if x.U is None or y.U is None:
            return x.U is None and y.U is None
        # proportional up to a phase
        V = x.U.conj().T @ y.U
        dist = np.max(np.abs(V - V[0, 0] * np.eye(len(V))))
        if 1e-9 < dist < 1e-3:
            return None
        return bool(dist <= 1e-9)

    def mixes(self, *ss):
        """Elements with exact and floating rotations must not be multiplied."""
        import sympy
        import tinyarray as ta
        kinds = {type(s[0].R) for s in ss}
        f = ta.ndarray_float in kinds
        return f and any(not issubclass(k, (ta.ndarray_int, ta.ndarray_float)) for k in kinds)

    def spec(self, rs, kind, n):
        s = Spec(kind, self.d, n)
        lat = SPATIAL[self.plan['spatial']][1]
        for _ in range(rs.randint(1, 4)):
            p = [None, 'a', 'b'][rs.randint(3)]
            if kind == 'cont':
                x = tuple(int(v) for v in rs.choice([0, 0, 1, 1, 2], self.d))
            else:
                hops = gen.lattice_hops(self.d, lat)
                x = tuple(np.array(hops[rs.randint(len(hops))], float))
            # need not be Hermitian
            s.add((p, x), rs.standard_normal((n, n)) + 1j * rs.standard_normal((n, n)))
        return s

    def model(self, rs, allow=('cont', 'bloch', 'bmodel')):
        """A model on which every element of the pool may act."""
        n = self.N or int(rs.choice([1, 2, 3]))
        how = allow[rs.randint(len(allow))]
        if how == 'bloch' and not self.exact:
            how = 'bmodel'
        if how == 'bmodel' and self.d == 0:
            how = 'cont'
        sparse = rs.rand() < .3
        if how == 'bmodel' and rs.rand() < .8:
            s = self.spec(rs, 'bloch', n)
        elif how == 'bmodel':
            s = self.spec(rs, 'cont', n)
            s.terms = {(p, (0,) * self.d): m for (p, x), m in s.terms.items()}
        else:
            s = self.spec(rs, 'cont' if self.d == 0 else how, n)
        m = gen.to_model(s, sparse=sparse, bloch=how == 'bmodel', names=self.plan['names'])
        return s, m, (how, sparse, n)

    def points(self, rs, s):
        ks = rs.uniform(.2, 1.3, (5, self.d)) * rs.choice([-1, 1], (5, self.d))
        pv = {p: rs.uniform(.4, 1.3, 5) for p in ('a', 'b')}
        return ks, pv

    def compare(self, model, s, ks, pv, label, fmt=None):
        with seams.paused():
            got = eval_model(model, gen.momenta_for(self.d, self.plan['names']), ks, pv, shape=(s.N, s.N))
            want = s.eval(ks, pv)
        sc = max(1.0, np.max(np.abs(want)))
        self.ctx.check(got.shape == want.shape and np.max(np.abs(got - want)) < 1e-6 * sc, 'wrong-action',
                       lambda: f'{label}: values differ by {np.max(np.abs(got - want)) if got.shape == want.shape else (got.shape, want.shape)}')
        if fmt is not None:
            self.ctx.check(model.format is fmt, 'wrong-format', f'{label}: {model.format} instead of {fmt}')
        self.ctx.nontrivial = True


def same(x):
    return x.U is None


def op_new(P, r):
    P.new(r)
    return 'new'


def op_mul(P, r):
    s, t = (P.slots[r.randint(len(P.slots))] for _ in '12')
    if P.mixes(s, t):
        return None
    g = P.ctx.call(lambda: s[0] * t[0])
    P.push(g, s[1] * t[1], s[2] or t[2], 'product')
    return 'mul'


def op_mixed(P, r):
    """Exact times floating rotation: refused, or correct."""
    for s, t in it.product(P.slots, P.slots):
        if P.mixes(s, t):
            try:
                g = s[0] * t[0]
            except ValueError:
                P.ctx.have_result = True
                return 'mixed-refused'
            P.judge(g, s[1] * t[1], 'mixed product')
            return 'mixed-accepted'
    return None


def op_pow(P, r):
    s = P.slots[r.randint(len(P.slots))]
    n = int(r.randint(-3, 7))
    g = P.ctx.call(lambda: s[0]**n)
    x = G(np.eye(P.d), False, False, None if s[1].U is None else np.eye(len(s[1].U)))
    base = s[1] if n >= 0 else s[1].inv()
    for _ in range(abs(n)):
        x = x * base
    P.push(g, x, s[2] and n != 0, f'power {n}')
    return f'pow{n}'


def op_inv(P, r):
    s = P.slots[r.randint(len(P.slots))]
    g = P.ctx.call(s[0].inv)
    P.push(g, s[1].inv(), s[2], 'inverse')
    return 'inv'


def op_ident(P, r):
    import qsymm
    s = P.slots[r.randint(len(P.slots))]
    e = G(np.eye(P.d), False, False, None if s[1].U is None else np.eye(len(s[1].U)))
    g = P.ctx.call(s[0].identity)
    P.push(g, e, False, 'identity')
    if r.rand() < .3:
        shape = None if s[1].U is None else len(s[1].U)
        P.push(P.ctx.call(qsymm.groups.identity, P.d, shape), e, False, 'identity function')
    return 'ident'


def op_laws(P, r):
    """Associativity, inverse and identity laws through the library's own ==."""
    a, b, c = (P.slots[r.randint(len(P.slots))] for _ in '123')
    if P.mixes(a, b, c):
        return None
    call = P.ctx.call
    P.ctx.check(call(lambda: (a[0] * b[0]) * c[0] == a[0] * (b[0] * c[0])), 'group-law', 'associativity')
    P.ctx.check(call(lambda: a[0] * a[0].inv() == a[0].identity()), 'group-law',
                lambda: f'a * a**-1 != 1 for {a[0]!r}')
    P.ctx.check(call(lambda: a[0].inv() * a[0] == a[0].identity()), 'group-law', 'a**-1 * a != 1')
    P.ctx.check(call(lambda: (a[0] * b[0]).inv() == b[0].inv() * a[0].inv()), 'group-law', '(ab)**-1')
    P.ctx.check(call(lambda: a[0] * a[0].identity() == a[0]), 'group-law', 'a * 1 != a')
    P.ctx.check(call(lambda: a[0].identity() * a[0] == a[0]), 'group-law', '1 * a != a')
    # unitary part of the laws, including the sign for antiunitary elements
    e = a[0] * a[0].inv()
    if a[1].U is not None:
        P.ctx.check(np.allclose(e.U, np.eye(P.N), atol=1e-7), 'group-law', 'unitary part of a * a**-1')
    return 'laws'


def op_eq(P, r):
    s, t = (P.slots[r.randint(len(P.slots))] for _ in '12')
    if r.rand() < .4:
        # an element built from the same data again, with another phase of U
        g, x, st = s
        U = None if x.U is None else x.U * np.exp(1j * r.uniform(0, 6))
        import qsymm
        R = [g.R, np.array(x.R), gen.exact_R(x.R) if P.exact else np.array(x.R)][r.randint(3)]
        t = (P.ctx.call(qsymm.PointGroupElement, R, x.c, x.a, U, st), G(x.R, x.c, x.a, U), st)
        if P.mixes(s, t) and st:
            return None
    want = P.equal(s, t)
    if want is None:
        return None
    ctx = P.ctx
    for u, v in ((s, t), (t, s)):
        ctx.check(bool(ctx.call(lambda: u[0] == v[0])) is want, 'wrong-equality',
                  lambda: f'== gives {not want} for {u[0]!r}{v[0]!r}')
        ctx.check(bool(ctx.call(lambda: u[0] != v[0])) is not want, 'wrong-equality', lambda: f'!= for {u[0]!r}{v[0]!r}')
    if want and not P.mixes(s, t):
        ctx.check(hash(s[0]) == hash(t[0]), 'hash-mismatch', lambda: f'equal elements hash differently: {s[0]!r}{t[0]!r}')
    return f'eq-{want}'


def op_hash(P, r):
    """Equal elements are one set member and one dictionary key."""
    s = P.slots[r.randint(len(P.slots))]
    if P.mixes(*P.slots):
        return None
    groups = []
    for t in P.slots:
        hit = False
        for g in groups:
            w = [P.equal(t, x) for x in g]
            if any(x is None for x in w) or len(set(w)) > 1:
                return None         # == is not transitive here (strict next to plain elements)
            if w[0]:
                if hit:
                    return None
                g.append(t)
                hit = True
        if not hit:
            groups.append([t])
    ctx = P.ctx
    order = r.permutation(len(P.slots))
    S = ctx.call(lambda: {P.slots[i][0] for i in order})
    ctx.check(len(S) == len(groups), 'set-size', lambda: f'{len(S)} members, expected {len(groups)}')
    D = ctx.call(lambda: {P.slots[i][0]: n for n, i in enumerate(order)})
    for t in P.slots:
        ctx.check(ctx.call(lambda: t[0] in S) and ctx.call(lambda: t[0] in D), 'lost-key', lambda: repr(t[0]))
    ctx.check(ctx.call(lambda: S - {s[0]}) == ctx.call(lambda: S ^ {s[0]}), 'set-algebra', 'difference')
    return f'hash{len(groups)}'


def op_set(P, r):
    return op_hash(P, r)


def op_sort(P, r):
    if not P.exact:
        return None
    sl = P.slots
    ctx = P.ctx

    def sig(t):
        x = t[1]
        ident = np.allclose(x.R, np.eye(P.d))
        return (x.c, x.a, not ident, tuple(np.round(x.R.ravel(), 6).tolist()))
    for s, t in it.product(sl[:6], sl[:6]):
        got = bool(ctx.call(lambda: s[0] < t[0]))
        a, b = sig(s), sig(t)
        ctx.check(got is bool(a < b), 'wrong-order', lambda: f'{got} for {s[0]!r} < {t[0]!r}')
        ctx.check(bool(ctx.call(lambda: s[0] > t[0])) is bool(a > b), 'wrong-order', lambda: f'> of {s[0]!r} and {t[0]!r}')
    for _ in range(2):
        lst = ctx.call(sorted, [sl[i][0] for i in r.permutation(len(sl))])
        keys = [sig((None, G.of(g) if P.d else G(np.zeros((0, 0)), g.conjugate, g.antisymmetry))) for g in lst]
        ctx.check(keys == sorted(keys), 'wrong-order', 'sorted() does not sort')
    ctx.check(sig((0, G.of(min(x[0] for x in sl)) if P.d else G(np.zeros((0, 0)), *min((x[0].conjugate, x[0].antisymmetry) for x in sl)))) ==
              min(sig(x) for x in sl), 'wrong-order', 'min()')
    return f'sort{len(sl)}'


def op_strict(P, r):
    s, t = (P.slots[r.randint(len(P.slots))] for _ in '12')
    if s[1].U is None or t[1].U is None:
        P.ctx.check(not P.ctx.call(s[0]._strictereq, t[0]), 'wrong-equality', 'strict equality without unitary part')
        return 'strict-none'
    return None


def op_apply(P, r):
    s = P.slots[r.randint(len(P.slots))]
    spec, m, how = P.model(r)
    if how[0] == 'bloch' and P.mixes(s, s):
        return None
    ks, pv = P.points(r, spec)
    q = P.ctx.call(s[0].apply, m)
    P.compare(q, spec.apply(s[1]), ks, pv, f'apply {how}')
    P.compare(m, spec, ks, pv, 'argument of apply')
    P.ctx.check(q.momenta == m.momenta, 'wrong-momenta', f'{q.momenta}')
    P.ctx.check(type(q) is type(m), 'wrong-type', f'{type(q)}')
    return ('apply',) + how


def op_product(P, r):
    s, t = (P.slots[r.randint(len(P.slots))] for _ in '12')
    if P.mixes(s, t) or (s[1].U is None) != (t[1].U is None):
        return None
    spec, m, how = P.model(r)
    ks, pv = P.points(r, spec)
    call = P.ctx.call
    one = call(lambda: (s[0] * t[0]).apply(m))
    two = call(lambda: s[0].apply(t[0].apply(m)))
    P.compare(one, spec.apply(t[1]).apply(s[1]), ks, pv, f'product {how}')
    P.compare(two, spec.apply(t[1]).apply(s[1]), ks, pv, f'factors in turn {how}')
    if how[0] != 'bloch':
        # rounding may leave tiny extra terms, which == ignores
        P.ctx.check(bool(call(lambda: one.allclose(two, atol=1e-6))), 'wrong-equality', lambda: f'(g h) H != g (h H) for {how}')
    return ('product',) + how


def op_undo(P, r):
    s = P.slots[r.randint(len(P.slots))]
    spec, m, how = P.model(r)
    ks, pv = P.points(r, spec)
    q = P.ctx.call(lambda: s[0].inv().apply(s[0].apply(m)))
    P.compare(q, spec, ks, pv, f'inverse action {how}')
    if s[1].U is not None or not s[1].c:
        # terms below the library's absolute tolerance are dropped on the way
        P.ctx.check(bool(P.ctx.call(lambda: q.allclose(m, atol=1e-6))), 'wrong-equality', lambda: f'g**-1 g H != H {how}')
    return ('undo',) + how


def op_cgg(P, r):
    """Infinitesimal action against its formula."""
    import qsymm
    d = P.d
    n = P.N or 2
    bloch = r.rand() < .25 and d > 0
    spec, m, how = P.model(r, ('bmodel',) if bloch else ('cont', 'cont', 'bloch') if P.exact else ('cont',))
    n = spec.N
    L = gen.rand_herm(r, n) if r.rand() < .75 else None
    R = None
    if not bloch and d >= 2 and r.rand() < .7:
        A = r.standard_normal((d, d))
        R = 1j * (A - A.T)
    elif r.rand() < .3 and d:
        R = np.zeros((d, d))
    g = P.ctx.call(qsymm.ContinuousGroupGenerator, R, L)
    ks, pv = P.points(r, spec)
    fmt = m.format
    q = P.ctx.call(g.apply, m)
    with seams.paused():
        H = spec.eval(ks, pv)
        want = np.zeros_like(H)
        if L is not None:
            want = want + 1j * (H @ L - L @ H)
        if R is not None:
            for i in range(d):
                want = want + 1j * (ks @ R[i])[:, None, None] * spec.deriv(ks, pv, i)
        got = eval_model(q, gen.momenta_for(d, P.plan['names']), ks, pv, shape=(n, n))
    P.ctx.check(np.max(np.abs(got - want), initial=0) < 1e-6 * max(1, np.max(np.abs(want), initial=0)),
                'wrong-action', lambda: f'infinitesimal {how}: {np.max(np.abs(got - want))}')
    P.compare(m, spec, ks, pv, 'argument of apply')
    P.ctx.check(q.format is fmt or not q.data, 'wrong-format', f'{q.format}')
    P.ctx.nontrivial = True
    return ('cgg', R is not None, L is not None) + how


def op_evict(P, r):
    if r.rand() < .5:
        seams.clear_qsymm_caches()
        P.ctx.fault('evict-library-caches')
    else:
        seams.clear_sympy_cache()
        P.ctx.fault('evict-sympy-cache')
    return 'evict'


def op_caches(P, r):
    """Everything already in the pool is still what it was."""
    for g, x, st in P.slots:
        P.judge(g, x, 'pool element later')
    return None


def run(plan, ctx):
    P = Pool(plan, ctx)
    rs = np_rng('pool', plan['useed'])
    for _ in range(plan['n0']):
        P.new(rs)
    done = []
    for name, seed in plan['ops']:
        x = globals()['op_' + name](P, np_rng('op', name, seed) if name != 'persist' else seed)
        if x is not None:
            ctx.count('op-' + name)
            done.append(x)
            ctx.event(name, str(x))
    op_caches(P, None)
    ctx.sig(P.d, P.exact, P.N, plan['spatial'], [str(x) for x in done])


def shrink(plan):
    if plan['n0'] > 1:
        yield {**plan, 'n0': plan['n0'] - 1}
    for n in (1, 2):
        if plan['N'] > n:
            yield {**plan, 'N': n}
    if plan['ufam'] != 'clifford':
        yield {**plan, 'ufam': 'clifford'}
    if plan['strict']:
        yield {**plan, 'strict': False}
    if plan['names']:
        yield {**plan, 'names': None}
