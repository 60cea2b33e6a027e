"""Workload and oracles of the Model algebra (C09) and conversions (C10)."""
import numpy as np

from . import gen, seams
from .core import Violation, np_rng, rng_of
from .spec import dense, eval_expr, eval_model, env_of

PARAMS = ('a', 'b', 'm_1', 'Delta')
NAMES = [None, None, ('q', 'p', 'w'), ('k_y', 'k_z', 'k_x'), ('kappa', 'a_x', 'z')]
KINDS = ('cont', 'cont', 'bmodel', 'bmodel', 'bloch')
NUMS = [2, -1, 3, 0.5, -1.5, 1j, 1 - 2j, 0.25 + 0.5j]


def symbols(names):
    import sympy
    return [sympy.Symbol(n, commutative=True) for n in names]


def rand_value(rs, shape, fmt, style=None):
    import scipy.sparse as sp
    style = style or rs.choice(['int', 'gauss', 'sparse', 'real'])
    v = rs.standard_normal(shape) + 1j * rs.standard_normal(shape)
    if style == 'int':
        v = rs.randint(-2, 3, shape) + 1j * rs.randint(-2, 3, shape)
    elif style == 'sparse':
        v = v * (rs.random_sample(shape) < .4)
    elif style == 'real':
        v = np.asarray(v).real + 0j
    v = np.asarray(v, complex)
    if fmt == 'scalar':
        return np.complex128(v)
    if fmt == 'csr':
        return sp.csr_matrix(v)
    return v


class Machine:
    """Slots of library Models, each with the matrix function it should be."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.kind, self.d = plan['kind'], plan['d']
        self.names = list(plan['names'] or gen.MOM)[:self.d]
        rs = np_rng('points', plan['run_seed'])
        n = 6
        self.ks = rs.uniform(.2, 1.3, (n, self.d)) * rs.choice([-1, 1], (n, self.d))
        self.pv = {p: rs.uniform(.4, 1.3, n) * rs.choice([-1, 1], n) for p in PARAMS}
        self.slots = []

    # ------------------------------------------------------------- creation
    def random_key(self, rs, bmodel=None):
        """(library key, f(ks, pv))."""
        import sympy
        from qsymm.model import BlochCoeff
        ps = [PARAMS[i] for i in rs.randint(0, len(PARAMS), rs.choice([0, 0, 1, 1, 2]))]
        par = sympy.Mul(*symbols(ps))
        # a phase factor, e.g. of a magnetic flux
        ph = [PARAMS[i] for i in rs.randint(0, len(PARAMS), 1)] if self.kind != 'cont' and rs.rand() < .15 else []
        for p in ph:
            par = par * kc_e()**(sympy.I * symbols([p])[0])

        def fp(ks, pv):
            r = np.ones(len(ks), complex)
            for p in ps:
                r = r * pv[p]
            for p in ph:
                r = r * np.exp(1j * pv[p])
            return r
        if self.kind == 'cont':
            ex = rs.choice([0, 0, 1, 1, 2], self.d)
            key = par * sympy.Mul(*[k**int(x) for k, x in zip(symbols(self.names), ex)])
            return key, lambda ks, pv: fp(ks, pv) * np.prod(ks**ex, axis=1)
        hop = rs.choice([0, 0, 1, -1, 2, .5, -.5], self.d)
        if self.kind == 'bmodel' and rs.rand() < .2:      # nearly equal hoppings are not equal
            hop = hop * rs.choice([1.0004, .9993])
        f = (lambda ks, pv: fp(ks, pv) * np.exp(1j * ks @ hop))
        if self.kind == 'bmodel':
            return BlochCoeff(np.array(hop, float), par), f
        e = kc_e()
        return par * sympy.Mul(*[e**(sympy.I * gen.exact(x) * k) for x, k in zip(hop, symbols(self.names))]), f

    def make(self, rs, shape, fmt):
        import qsymm
        cls = qsymm.BlochModel if self.kind == 'bmodel' else qsymm.Model
        mom = self.names if rs.rand() < .5 else symbols(self.names)
        n = int(rs.choice([0, 1, 1, 2, 3, 4], p=[.06, .2, .14, .2, .2, .2]))
        keys = []
        for _ in range(n):
            k, f = self.random_key(rs)
            if not any(k == x for x, _ in keys):
                keys.append((k, f))
        style = rs.choice(['int', 'gauss', 'sparse', 'real'])
        vals = [rand_value(rs, shape, fmt, style) for _ in keys]
        style = rs.rand()
        kw = {}
        if not keys:
            kw = dict(shape=shape, format={'dense': np.ndarray, 'csr': csr(), 'scalar': np.complex128}[fmt])
        if self.kind != 'bmodel' and keys and style < .25:
            # unnormalised key: sums and numerical factors moved to the values
            c = [2, -3, 1j, .5][rs.randint(4)]
            k2, f2 = self.random_key(rs)
            import sympy
            k1, f1 = keys[0]
            if rs.rand() < .5:
                keys[0] = (sympy.sympify(c) * k1 * (1 + k2), lambda ks, pv: c * f1(ks, pv) * (1 + f2(ks, pv)))
            else:
                keys[0] = (sympy.sympify(c) * k1 + k2, lambda ks, pv: c * f1(ks, pv) + f2(ks, pv))
            kw['normalize'] = True
            if any(keys[0][0] == x for x, _ in keys[1:]):
                keys, vals = keys[:1], vals[:1]
        m = self.ctx.call(cls, {k: v for (k, _), v in zip(keys, vals)}, momenta=mom, **kw)
        vs = [np.array(dense(v)) for v in vals]

        def ref(ks, pv):
            r = np.zeros((len(ks),) + tuple(shape), complex)
            for (_, f), v in zip(keys, vs):
                r = r + f(ks, pv).reshape((-1,) + (1,) * v.ndim) * v
            return r
        return self.push(m, ref, shape, fmt)

    def push(self, m, ref, shape, fmt, label='new'):
        s = dict(m=m, f=ref, shape=tuple(shape), fmt=fmt)
        self.judge(s, label)
        s['fp'] = fingerprint(m)
        s['n'] = len(m.data)
        s['max'] = float(np.max(np.abs(ref(self.ks, self.pv)), initial=0))
        self.slots.append(s)
        return s

    # ------------------------------------------------------------- judging
    def value(self, m, shape):
        with seams.paused():
            return eval_model(m, self.names, self.ks, self.pv, shape=shape)

    def judge(self, s, label):
        m = s['m']
        want = s['f'](self.ks, self.pv)
        ctx = self.ctx
        ctx.check(tuple(getattr(x, 'name', str(x)) for x in m.momenta) == tuple(self.names), 'wrong-momenta',
                  lambda: f'{label}: momenta {m.momenta} instead of {self.names}')
        if not m.data:
            ctx.check(np.max(np.abs(want), initial=0) < 1e-6, 'wrong-value',
                      lambda: f'{label}: empty Model, expected values up to {np.max(np.abs(want))}')
        ctx.check(tuple(m.shape or ()) == s['shape'], 'wrong-shape',
                  lambda: f'{label}: shape {m.shape}, expected {s["shape"]}')
        fm = {'dense': np.ndarray, 'csr': csr(), 'scalar': np.complex128}[s['fmt']]
        ctx.check(m.format is fm, 'wrong-format', lambda: f'{label}: format {m.format}, expected {fm}')
        for k, v in m.data.items():
            ctx.check(isinstance(v, fm), 'wrong-format', lambda: f'{label}: value of type {type(v)}')
            ctx.check(tuple(getattr(v, 'shape', ())) == s['shape'], 'wrong-shape',
                      lambda: f'{label}: value of shape {v.shape}')
        got = self.value(m, s['shape'])
        ctx.check(got.shape == want.shape, 'wrong-shape', lambda: f'{label}: {got.shape} {want.shape}')
        err = np.max(np.abs(got - want), initial=0)
        ctx.check(np.isfinite(err) and err < 1e-7 * max(1, np.max(np.abs(want), initial=0)), 'wrong-value',
                  lambda: f'{label}: value differs from the reference by {err:.3g} '
                          f'(reference magnitude {np.max(np.abs(want)):.3g})')
        if np.max(np.abs(want), initial=0) > 1e-6:
            ctx.nontrivial = True

    def unchanged(self, label, skip=None):
        for i, s in enumerate(self.slots):
            if s is skip:
                continue
            now = fingerprint(s['m'])
            self.ctx.check(same_fp(now, s['fp']), 'other-model-changed',
                           lambda: f'{label} changed Model {i}')


def kc_e():
    from qsymm.kwant_continuum import e
    return e


def csr():
    import scipy.sparse as sp
    return sp.csr_matrix


def fingerprint(m):
    return ({k: dense(v).tobytes() for k, v in m.data.items()}, m.shape, m.format,
            tuple(str(x) for x in m.momenta), set(m.keep))


def same_fp(a, b):
    return len(a[0]) == len(b[0]) and all(k in b[0] and b[0][k] == v for k, v in a[0].items()) and a[1:] == b[1:]


# ------------------------------------------------------------------ operations

OPS = ['new', 'add', 'add', 'sub', 'sum', 'addzero', 'addconst', 'neg', 'num', 'rnum', 'sym', 'div', 'emul', 'emul',
       'earr', 'matmul', 'matmul', 'matarr', 'arrmat', 'conj', 'T', 'trace', 'reshape', 'copy', 'set', 'csr', 'dense',
       'around', 'elim', 'rot', 'rot', 'eq', 'eq', 'evict', 'evalf', 'get', 'new', 'values', 'again']


def gen_algebra(rng):
    kind = rng.choice(KINDS)
    n = rng.choice([4, 6, 8, 10, 14])
    return dict(kind=kind, d=rng.choice([1, 2, 2, 3]), names=rng.choice(NAMES), side=rng.choice([1, 2, 2, 3]),
                env={k: v for k, v in gen.gen_env(rng, noise=False).items() if k != 'gauge'},
                ops=[[rng.choice(OPS), rng.randrange(100), rng.randrange(100), rng.randrange(10**6)]
                     for _ in range(n)])


def run_algebra(plan, ctx):
    M = Machine(plan, ctx)
    rs = np_rng('init', plan['run_seed'])
    n = plan['side']
    M.make(rs, (n, n), 'dense')
    M.make(rs, (n, n), 'csr' if rs.rand() < .4 else 'dense')
    M.make(rs, (), 'scalar')
    done = []
    for op in plan['ops']:
        name, i, j, r = op
        sl = M.slots
        a, b = sl[i % len(sl)], sl[j % len(sl)]
        res = globals()['op_' + name](M, a, b, np_rng('op', r) if name != 'persist' else None, op)
        if res is False:
            continue
        done.append(name)
        ctx.count('op-' + name)
        M.unchanged(f'operation {len(done)} ({name})')
        if len(sl) > 12:
            del sl[3]
    ctx.sig(plan['kind'], plan['d'], plan['side'], tuple(done), tuple((s['fmt'], s['n']) for s in M.slots))
    ctx.event('slots', [(s['fmt'], s['shape'], s['n'], np.round(s['f'](M.ks, M.pv).ravel()[:3], 6).tolist())
                        for s in M.slots])


def small(*ss):
    return all(s['max'] < 60 for s in ss) and np.prod([max(1, s['n']) for s in ss]) <= 40


def out(M, a, fn, f, shape, fmt, label):
    m = M.ctx.call(fn)
    M.push(m, f, shape, fmt, label)


def same_type(a, b):
    return a['fmt'] == b['fmt'] and a['shape'] == b['shape']


def partner(M, a, r, ok):
    c = [s for s in M.slots if ok(s)]
    return c[r.randint(len(c))] if c else None


def op_new(M, a, b, r, op):
    n = M.plan['side']
    c = r.randint(6)
    if c == 0:
        M.make(r, (), 'scalar')
    elif c == 1:
        M.make(r, (n, n + 1), 'dense')
    elif c == 2:
        M.make(r, (n, n), 'csr')
    elif c == 3:
        M.make(r, (n + 1, n), 'csr')
    else:
        M.make(r, (n, n), 'dense')


def op_add(M, a, b, r, op, sign=1):
    b = b if same_type(a, b) else partner(M, a, r, lambda s: same_type(a, s))
    if a['n'] + b['n'] > 60:
        return False
    fa, fb = a['f'], b['f']
    if sign == 1:
        out(M, a, lambda: a['m'] + b['m'], lambda k, p: fa(k, p) + fb(k, p), a['shape'], a['fmt'], 'a + b')
    else:
        out(M, a, lambda: a['m'] - b['m'], lambda k, p: fa(k, p) - fb(k, p), a['shape'], a['fmt'], 'a - b')


def op_sub(M, a, b, r, op):
    return op_add(M, a, b, r, op, -1)


def op_sum(M, a, b, r, op):
    ss = [a] + [partner(M, a, r, lambda s: same_type(a, s)) for _ in range(2)]
    if sum(s['n'] for s in ss) > 60:
        return False
    fs = [s['f'] for s in ss]
    out(M, a, lambda: sum([s['m'] for s in ss]), lambda k, p: sum(f(k, p) for f in fs), a['shape'], a['fmt'], 'sum')


def op_addzero(M, a, b, r, op):
    z = [0, 0.0][r.randint(2)]
    out(M, a, (lambda: a['m'] + z) if r.rand() < .5 else (lambda: z + a['m']), a['f'], a['shape'], a['fmt'], 'a + 0')


def op_addconst(M, a, b, r, op):
    c = rand_value(r, a['shape'], a['fmt'])
    cd = np.array(dense(c))
    fa = a['f']
    if a['fmt'] == 'scalar' and r.rand() < .5:
        c = complex(c)
    left = r.rand() < .3 and a['fmt'] != 'csr'      # a sparse matrix on the left handles + itself
    if r.rand() < .25:
        return out(M, a, lambda: a['m'] - c, lambda k, p: fa(k, p) - cd, a['shape'], a['fmt'], 'a - constant')
    out(M, a, (lambda: c + a['m']) if left else (lambda: a['m'] + c), lambda k, p: fa(k, p) + cd,
        a['shape'], a['fmt'], 'a + constant')


def op_neg(M, a, b, r, op):
    fa = a['f']
    out(M, a, lambda: -a['m'], lambda k, p: -fa(k, p), a['shape'], a['fmt'], '-a')


def number(r):
    x = NUMS[r.randint(len(NUMS))]
    c = r.randint(4)
    if c == 0:
        return np.complex128(x), complex(x)
    if c == 1 and not isinstance(x, complex):
        return np.float64(x), complex(x)
    return x, complex(x)


def op_num(M, a, b, r, op):
    if a['max'] > 1e3:
        return False
    x, c = number(r)
    fa = a['f']
    out(M, a, lambda: a['m'] * x, lambda k, p: fa(k, p) * c, a['shape'], a['fmt'], f'a * {x}')


def op_rnum(M, a, b, r, op):
    if a['max'] > 1e3:
        return False
    x, c = number(r)
    fa = a['f']
    out(M, a, lambda: x * a['m'], lambda k, p: fa(k, p) * c, a['shape'], a['fmt'], f'{x} * a')


def op_div(M, a, b, r, op):
    if a['max'] > 1e3:
        return False
    x, c = number(r)
    fa = a['f']
    out(M, a, lambda: a['m'] / x, lambda k, p: fa(k, p) / c, a['shape'], a['fmt'], f'a / {x}')


def op_sym(M, a, b, r, op):
    import sympy
    if a['max'] > 200:
        return False
    ps = [PARAMS[i] for i in r.randint(0, len(PARAMS), r.choice([1, 1, 2]))]
    x = sympy.Mul(*symbols(ps))
    ki = None
    if M.kind == 'cont' and r.rand() < .3:
        ki = r.randint(M.d)
        x = x * symbols(M.names)[ki]
    fa, nd = a['f'], len(a['shape'])

    def f(k, p):
        c = np.ones(len(k), complex)
        for q in ps:
            c = c * p[q]
        if ki is not None:
            c = c * k[:, ki]
        return fa(k, p) * c.reshape((-1,) + (1,) * nd)
    out(M, a, lambda: a['m'] * x, f, a['shape'], a['fmt'], f'a * {x}')


def op_emul(M, a, b, r, op):
    def ok(x, y):
        f = {x['fmt'], y['fmt']}
        if 'scalar' in f:
            return True
        return f == {'dense'} and x['shape'] == y['shape']
    if not ok(a, b):
        b = partner(M, a, r, lambda s: ok(a, s))
    if b is None or not small(a, b):
        return False
    fa, fb = a['f'], b['f']
    shape = a['shape'] or b['shape']
    fmt = a['fmt'] if a['fmt'] != 'scalar' else b['fmt']
    da, db = len(shape) - len(a['shape']), len(shape) - len(b['shape'])

    def f(k, p):
        x, y = fa(k, p), fb(k, p)
        return x.reshape(x.shape + (1,) * da) * y.reshape(y.shape + (1,) * db)
    out(M, a, lambda: a['m'] * b['m'], f, shape, fmt, 'a * b elementwise')


def op_earr(M, a, b, r, op):
    if a['fmt'] == 'csr' or a['max'] > 200:
        return False
    shape = a['shape'] or (2, 2)
    c = rand_value(r, shape, 'dense')
    fa, nd = a['f'], len(shape) - len(a['shape'])

    def f(k, p):
        x = fa(k, p)
        return x.reshape(x.shape + (1,) * nd) * c
    left = r.rand() < .5
    out(M, a, (lambda: c * a['m']) if left else (lambda: a['m'] * c), f, shape, 'dense', 'a * array')


def op_matmul(M, a, b, r, op):
    def ok(x, y):
        return len(x['shape']) == 2 and len(y['shape']) == 2 and x['shape'][1] == y['shape'][0]
    if not ok(a, b):
        b = partner(M, a, r, lambda s: ok(a, s))
    if b is None or not ok(a, b) or not small(a, b):
        return False
    fa, fb = a['f'], b['f']
    fmt = 'csr' if a['fmt'] == b['fmt'] == 'csr' else 'dense'
    out(M, a, lambda: a['m'] @ b['m'], lambda k, p: fa(k, p) @ fb(k, p), (a['shape'][0], b['shape'][1]), fmt, 'a @ b')


def op_matarr(M, a, b, r, op):
    if len(a['shape']) != 2 or a['max'] > 200:
        return False
    m = r.choice([a['shape'][1], 1, 2])
    sparse = r.rand() < .3
    c = rand_value(r, (a['shape'][1], int(m)), 'csr' if sparse else 'dense')
    cd, fa = dense(c), a['f']
    fmt = 'csr' if sparse and a['fmt'] == 'csr' else 'dense'
    out(M, a, lambda: a['m'] @ c, lambda k, p: fa(k, p) @ cd, (a['shape'][0], int(m)), fmt, 'a @ array')


def op_arrmat(M, a, b, r, op):
    if len(a['shape']) != 2 or a['max'] > 200:
        return False
    c = rand_value(r, (int(r.choice([a['shape'][0], 2])), a['shape'][0]), 'dense')
    fa = a['f']
    out(M, a, lambda: c @ a['m'], lambda k, p: c @ fa(k, p), (len(c), a['shape'][1]), 'dense', 'array @ a')


def op_conj(M, a, b, r, op):
    fa = a['f']
    out(M, a, lambda: a['m'].conj(), lambda k, p: fa(k, p).conj(), a['shape'], a['fmt'], 'a.conj()')


def op_T(M, a, b, r, op):
    if len(a['shape']) != 2:
        return False
    fa = a['f']
    out(M, a, lambda: a['m'].T(), lambda k, p: np.swapaxes(fa(k, p), 1, 2), a['shape'][::-1], a['fmt'], 'a.T()')


def op_trace(M, a, b, r, op):
    if len(a['shape']) != 2 or a['shape'][0] != a['shape'][1]:
        return False
    fa = a['f']
    out(M, a, lambda: a['m'].trace(), lambda k, p: np.trace(fa(k, p), axis1=1, axis2=2), (), 'scalar', 'a.trace()')


def op_reshape(M, a, b, r, op):
    if a['fmt'] != 'dense':
        return False
    fa, sh = a['f'], tuple(int(x) for x in a['shape'])
    new = (sh[0] * sh[1], 1) if len(sh) == 2 and r.rand() < .5 else sh[::-1]
    out(M, a, lambda: a['m'].reshape(new), lambda k, p: fa(k, p).reshape((len(k),) + new), new, 'dense', 'a.reshape')


def op_copy(M, a, b, r, op):
    """A copy is independent of the original in both directions."""
    import copy
    how = r.randint(3)
    fn = [lambda: a['m'].copy(), lambda: copy.copy(a['m']), lambda: a['m'] + 0][how]
    out(M, a, fn, a['f'], a['shape'], a['fmt'], 'a.copy()')
    s = M.slots[-1]
    # scribble on the copy: in place on the values and on the dictionary
    scribbled = M.ctx.call(fn)
    for k in list(scribbled.data):
        v = scribbled.data[k]
        if a['fmt'] == 'dense':
            v *= 0
            v += 7
        elif a['fmt'] == 'csr':
            v.data[...] = 7
        else:
            scribbled[k] = 7
    scribbled.data.clear()
    scribbled.keep.add('junk')
    M.unchanged('changing a copy in place')
    M.judge(s, 'second copy')


def op_set(M, a, b, r, op):
    """Assign one term of a fresh copy through text or symbol keys."""
    m = M.ctx.call(lambda: a['m'].copy())
    k, fk = M.random_key(r)
    v = rand_value(r, a['shape'], a['fmt'])
    vd, fa = np.array(dense(v)), a['f']

    key = k
    if r.rand() < .4:
        # keys written as text or as the number one
        if not isinstance(k, tuple):
            key = str(k)
        elif np.all(k[0] == 0):
            key = str(k[1]) if k[1] != 1 else 1

    def assign():
        m[key] = m[key] + v
        return m
    nd = len(a['shape'])
    out(M, a, assign, lambda ks, p: fa(ks, p) + fk(ks, p).reshape((-1,) + (1,) * nd) * vd, a['shape'], a['fmt'],
        f'm[{k}] = m[{k}] + v')


def op_csr(M, a, b, r, op):
    if len(a['shape']) != 2:
        return False
    out(M, a, lambda: a['m'].tocsr(), a['f'], a['shape'], 'csr', 'a.tocsr()')


def op_dense(M, a, b, r, op):
    if len(a['shape']) != 2:
        return False
    out(M, a, lambda: a['m'].toarray(), a['f'], a['shape'], 'dense', 'a.toarray()')


def op_around(M, a, b, r, op):
    if a['fmt'] == 'csr':
        return False
    if r.rand() < .5:
        d = int(r.choice([0, 0, 1, 2, 3]))
        m = a['m']
        got = M.ctx.call(lambda: m.around(d))
        for k, v in m.items():
            want = np.around(np.asarray(v), d)
            M.ctx.check(np.allclose(np.asarray(got[k]), want, atol=1e-9), 'wrong-value', lambda: f'a.around({d})[{k}] is {got[k]} instead of {want}')
        M.ctx.check(set(got.keys()) <= set(m.keys()), 'wrong-value', f'a.around({d}) has other terms')
        M.ctx.nontrivial = True
        return
    out(M, a, lambda: a['m'].around(10), a['f'], a['shape'], a['fmt'], 'a.around(10)')


def op_elim(M, a, b, r, op):
    if a['fmt'] == 'scalar':
        return False
    if r.rand() < .5:
        rtol, atol = float(r.choice([1e-5, .1, .5, .9])), float(r.choice([1e-8, .5, 2.]))
        m = a['m']
        norm = {k: np.linalg.norm(dense(v)) for k, v in m.items()}
        tol = max(atol, rtol * max(norm.values(), default=0))
        if any(abs(x - tol) < 1e-6 for x in norm.values()):
            return False
        got = M.ctx.call(lambda: m.eliminate_zeros(rtol=rtol, atol=atol))
        M.ctx.check(set(got.keys()) == {k for k, x in norm.items() if x > tol}, 'wrong-terms',
                    lambda: f'eliminate_zeros(rtol={rtol}, atol={atol}) of terms with norms {norm} left {list(got.keys())}')
        M.ctx.check(all(np.array_equal(dense(got[k]), dense(m[k])) for k in got.keys()), 'wrong-value', 'eliminate_zeros changed a term')
        M.ctx.nontrivial = True
        return
    out(M, a, lambda: a['m'].eliminate_zeros(rtol=1e-12, atol=1e-11), a['f'], a['shape'], a['fmt'],
        'a.eliminate_zeros()')


def op_rot(M, a, b, r, op):
    if M.d < 1 or a['max'] > 1e3 or a['n'] > 25:
        return False
    exact = gen.exact_R
    choices = {1: [[[-1.]], [[1.]]],
               2: [gen.rot2(np.pi / 3), gen.rot2(np.pi / 2), np.diag([1., -1]), np.array([[1., 1], [0, 1]]),
                   gen.rot2(2 * np.pi / 3) @ np.diag([1., -1])],
               3: [np.diag([-1., -1, 1]), np.eye(3)[[1, 2, 0]], gen.rot3(np.pi / 3, [0, 0, 1]),
                   np.array([[0., 1, 0], [-1, 0, 0], [0, 0, -1]])]}[M.d]
    R = np.array(choices[r.randint(len(choices))], float)
    how = r.randint(3)
    if M.kind == 'bloch':
        how = 0
    if how == 1 and M.d > 1:
        R = np.linalg.qr(r.standard_normal((M.d, M.d)))[0]
    Rl = exact(R) if how == 0 else R
    fa = a['f']
    out(M, a, lambda: a['m'].rotate_momenta(Rl), lambda k, p: fa(k @ R.T, p), a['shape'], a['fmt'],
        'a.rotate_momenta(%s)' % np.round(R, 3).tolist())


def op_eq(M, a, b, r, op):
    import qsymm
    if not same_type(a, b) or r.rand() < .3:
        b = partner(M, a, r, lambda s: same_type(a, s))
    va, vb = a['f'](M.ks, M.pv), b['f'](M.ks, M.pv)
    diff = np.max(np.abs(va - vb), initial=0)
    scale = max(1, np.max(np.abs(va), initial=0))
    got = M.ctx.call(lambda: a['m'] == b['m'])
    if diff < 1e-10 * scale and scale < 1e3:
        M.ctx.check(bool(got), 'equal-models-differ', 'two Models of the same function compare unequal')
        M.ctx.check(bool(M.ctx.call(lambda: (a['m'] - b['m']) == 0)), 'equal-models-differ', 'a - b == 0 is False')
    elif diff > 1e-3 * scale:
        M.ctx.check(not got, 'different-models-equal', f'Models that differ by {diff} compare equal')
        M.ctx.check(M.ctx.call(lambda: a['m'] != b['m']), 'different-models-equal', '!= is False')
        M.ctx.check(not M.ctx.call(lambda: (a['m'] - b['m']) == {}), 'different-models-equal', 'a - b == {} is True')
    z = np.max(np.abs(va), initial=0)
    if z > 1e-3:
        M.ctx.check(not M.ctx.call(lambda: a['m'] == 0), 'different-models-equal', 'nonzero Model == 0')


def op_evict(M, a, b, r, op):
    if r.rand() < .5:
        seams.clear_sympy_cache()
        M.ctx.fault('evict-sympy-cache')
    else:
        seams.clear_qsymm_caches()
        M.ctx.fault('evict-library-caches')


def op_evalf(M, a, b, r, op):
    if M.kind != 'cont' or not a['n']:
        return False
    i = r.randint(len(M.ks))
    import sympy
    env = dict(zip(M.names, M.ks[i]))
    env.update({p: v[i] for p, v in M.pv.items()})
    if r.rand() < .5:
        env = {sympy.Symbol(k, commutative=True): v for k, v in env.items()}
    got = M.ctx.call(lambda: a['m'].evalf(subs=env))
    want = a['f'](M.ks, M.pv)[i]
    M.ctx.check(np.shape(dense(got)) == np.shape(want) and
                np.allclose(dense(got), want, atol=1e-7 * max(1, a['max'])), 'wrong-value',
                lambda: f'evalf differs by {np.max(np.abs(dense(got) - want))}')


def op_get(M, a, b, r, op):
    """Access to terms by symbol and by text; missing terms read as zero."""
    m = a['m']
    for k, v in list(m.data.items())[:3]:
        for key in ([k] if isinstance(k, tuple) else [k, str(k)]):
            got = M.ctx.call(lambda: m[key])
            M.ctx.check(np.allclose(dense(got), dense(v)), 'wrong-value', f'm[{key!r}]')
    k, _ = M.random_key(r)
    if not any(k == x for x in m.data):
        got = M.ctx.call(lambda: m[k])
        M.ctx.check(np.all(dense(got) == 0) and np.shape(dense(got)) == a['shape'], 'wrong-value', f'missing m[{k}]')
    if a['n']:
        ks = list(m.keys())
        vl = M.ctx.call(lambda: m.value_list(ks[::-1]))
        M.ctx.check(all(np.allclose(dense(x), dense(m.data[k])) for x, k in zip(vl, ks[::-1])), 'wrong-value',
                    'value_list')


def op_values(M, a, b, r, op):
    """zeros_like is empty and has the same type; len/items agree."""
    z = M.ctx.call(lambda: a['m'].zeros_like())
    M.ctx.check(len(z) == 0 and z.shape == a['m'].shape and z.format is a['m'].format and
                type(z) is type(a['m']), 'wrong-shape', 'zeros_like')
    out(M, a, lambda: z + a['m'], a['f'], a['shape'], a['fmt'], 'zeros_like + a')


def op_again(M, a, b, r, op):
    """The same expression computed a second time equals the first."""
    fa, nd = a['f'], len(a['shape'])
    if a['n'] > 20 or a['max'] > 100:
        return False
    x = number(r)[1]
    r1 = M.ctx.call(lambda: (a['m'] + a['m']) * x - a['m'] * x)
    M.push(r1, lambda k, p: fa(k, p) * x, a['shape'], a['fmt'], '(a + a) x - a x')
    M.ctx.check(M.ctx.call(lambda: r1 == a['m'] * x), 'equal-models-differ', '(a + a) x - a x != a x')


def shrink_algebra(plan):
    ops = plan['ops']
    n = len(ops)
    size = n // 2
    while size >= 1:
        for s in range(0, n, size):
            yield {**plan, 'ops': ops[:s] + ops[s + size:]}
        size //= 2
    for d in range(1, plan['d']):
        yield {**plan, 'd': d}
    if plan['side'] > 1:
        yield {**plan, 'side': 1}
    if plan['names']:
        yield {**plan, 'names': None}
