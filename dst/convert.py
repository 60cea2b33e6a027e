"""Workload and oracle of C10: chains of conversions of one matrix function.

The reference is a Python function of {name: array}; the chain turns the
library object into text, sympy, dictionaries, Models, BlochModels, sparse
and dense formats and back, substitutes, truncates, evaluates."""
import numpy as np

from . import gen, seams
from .core import np_rng
from .models import csr, kc_e
from .spec import dense, eval_expr

PARAMS = ('a', 'b', 'm_1', 'Delta')
NAMES = [None, None, None, ('q', 'p', 'w'), ('kappa', 'a_x', 'z')]
MATS = {
    'sigma_0': np.eye(2), 'sigma_x': np.array([[0, 1], [1, 0]]), 'sigma_y': np.array([[0, -1j], [1j, 0]]),
    'sigma_z': np.diag([1, -1]), 'eye(2)': np.eye(2), 'identity(2)': np.eye(2),
}
PAULI = ('sigma_0', 'sigma_x', 'sigma_y', 'sigma_z')
OPS = ['bloch', 'bloch', 'unbloch', 'unbloch', 'unbloch', 'tosympy', 'resympy', 'lambdify', 'dict', 'textdict', 'text', 'csr', 'dense',
       'linop', 'keep', 'keepmul', 'subs', 'subs', 'subs', 'subs', 'evict', 'evict', 'normal', 'momsym']


def gen_chain(rng):
    return dict(kind=rng.choice(['cont', 'cont', 'bloch', 'bloch']), d=rng.choice([1, 2, 2, 3]),
                names=rng.choice(NAMES), source=rng.choice(['text', 'text', 'sympy', 'nc', 'dict', 'literal', 'locals',
                                                            'scalar', 'keep']),
                kron=rng.random() < .25, nterms=rng.choice([1, 2, 3, 4]), nice=rng.random() < .6,
                env={k: v for k, v in gen.gen_env(rng, noise=False).items() if k != 'gauge'},
                ops=[[rng.choice(OPS), rng.randrange(10**6)] for _ in range(rng.choice([1, 2, 3, 5, 7]))])


class Chain:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.kind = plan['kind']
        self.d = plan['d']
        self.mom = list(plan['names'] or gen.MOM)[:self.d]
        rs = np_rng('points', plan['run_seed'])
        self.n = 6
        self.rs = rs
        self.env = {}
        self.bloch = False
        self.fmt = 'dense'

    def var(self, name):
        """Numerical value of a variable (drawn when first met)."""
        if name not in self.env:
            r = np_rng('var', self.plan['run_seed'], name)
            self.env[name] = r.uniform(.3, 1.3, self.n) * r.choice([-1, 1], self.n)
        return self.env[name]

    # --------------------------------------------------------------- sources
    def factor(self, rs):
        """(text, function of a name->value lookup)."""
        c = rs.choice(['num', 'par', 'par2', 'mom', 'mom'])
        if c == 'num':
            t, v = [('2', 2), ('(-3)', -3), ('I', 1j), ('0.5', .5), ('(1 + 2*I)', 1 + 2j), ('sqrt(2)', 2**.5)][
                rs.randint(5 if self.plan['nice'] else 6)]
            return t, lambda g: v
        if c == 'par':
            p = PARAMS[rs.randint(len(PARAMS))]
            return p, lambda g: g(p)
        if c == 'par2':
            p = PARAMS[rs.randint(len(PARAMS))]
            return p + '**2', lambda g: g(p)**2
        k = self.mom[rs.randint(self.d)]
        l = self.mom[rs.randint(self.d)]
        if self.kind == 'cont':
            return [(k, lambda g: g(k)), (f'{k}**2', lambda g: g(k)**2), (f'({k} + {l})', lambda g: g(k) + g(l)),
                    (f'{k}*{l}', lambda g: g(k) * g(l)), (f'({k}**2 - 2*{l})', lambda g: g(k)**2 - 2 * g(l))][rs.randint(5)]
        return [(f'cos({k})', lambda g: np.cos(g(k))), (f'sin({k})', lambda g: np.sin(g(k))),
                (f'exp(I*{k})', lambda g: np.exp(1j * g(k))), (f'exp(-I*{k}/2)', lambda g: np.exp(-.5j * g(k))),
                (f'cos({k} + {l})' if k != l else f'cos(2*{k})', lambda g: np.cos(g(k) + g(l))),
                (f'sin({k}/2)', lambda g: np.sin(g(k) / 2)),
                (f'exp(2*I*{k} - I*{l})', lambda g: np.exp(2j * g(k) - 1j * g(l)))][rs.randint(7)]

    def scalar(self, rs, n=None):
        fs = [self.factor(rs) for _ in range(n or rs.choice([1, 2, 2, 3]))]
        if self.kind == 'bloch' and sum(any(f in t for f in ('cos', 'sin', 'exp')) for t, _ in fs) > 2:
            fs = fs[:2]

        def f(g):
            r = np.ones(self.n, complex)
            for _, h in fs:
                r = r * h(g)
            return r
        return '*'.join(t for t, _ in fs), f

    def matrix(self, rs):
        if self.plan['kron']:
            a, b = PAULI[rs.randint(4)], PAULI[rs.randint(4)]
            return f'kron({a}, {b})', np.kron(MATS[a], MATS[b])
        k = list(MATS)[rs.randint(len(MATS))]
        return k, MATS[k]

    def start(self):
        """Make the first library object; returns (model, reference)."""
        import qsymm
        import sympy
        rs = np_rng('source', self.plan['run_seed'])
        src = self.plan['source']
        terms = [(self.scalar(rs), self.matrix(rs)) for _ in range(self.plan['nterms'])]
        momarg = self.mom if rs.rand() < .5 else [sympy.Symbol(x, commutative=rs.rand() < .5) for x in self.mom]
        kw = {} if self.mom == list(gen.MOM) and rs.rand() < .5 else dict(momenta=momarg)

        def ref(g):
            r = 0
            for (_, f), (_, m) in terms:
                r = r + f(g)[:, None, None] * m
            return r
        make = self.ctx.call
        M = qsymm.Model
        if src == 'scalar':
            def ref(g):
                return sum(f(g) for (_, f), _ in terms)[:, None, None]
            return make(M, ' + '.join(t for (t, _), _ in terms), **kw), ref
        if src == 'literal':
            ent = [[self.scalar(rs, 1) for _ in range(2)] for _ in range(2)]

            def ref(g):
                return np.moveaxis(np.array([[f(g) for _, f in row] for row in ent]), 2, 0)
            text = '[' + ', '.join('[' + ', '.join(t for t, _ in row) + ']' for row in ent) + ']'
            return make(M, text, **kw), ref
        text = ' + '.join(f'{t} * {m}' for (t, _), (m, _) in terms)
        if src == 'locals':
            s, f = self.scalar(rs, 1)
            mt = rs.standard_normal((2, 2)).round(3) if not self.plan['nice'] else rs.randint(-2, 3, (2, 2))
            loc = {'u': s, 'Q': mt.tolist()}
            text2 = 'u * Q + ' + ' + '.join(f'u * {t} * Q' for (t, _), _ in terms)

            def ref(g):
                return (f(g) * (1 + sum(h(g) for (_, h), _ in terms)))[:, None, None] * mt
            return make(M, text2, locals=loc, **kw), ref
        if src in ('sympy', 'nc'):
            names = {x: sympy.Symbol(x, commutative=src == 'sympy') for x in list(PARAMS) + self.mom}
            e = sympy.zeros(*terms[0][1][1].shape)
            for (t, _), (_, m) in terms:
                e = e + sympy.sympify(t, locals=names) * sympy.Matrix(m.astype(complex).tolist()).applyfunc(sympy.nsimplify)
            if rs.rand() < .5:
                e = sympy.ImmutableMatrix(e)
            return make(M, e, **kw), ref
        if src == 'dict':
            data = {}
            for (t, _), (_, m) in terms:
                data[t] = data.get(t, 0) + m.astype(complex)
            import qsymm.model as qm
            with seams.paused():
                syms = {k: sympy.sympify(k, locals={x: sympy.Symbol(x, commutative=True)
                                                    for x in list(PARAMS) + self.mom}) for k in data}
            ok = len(set(syms.values())) == len(data)
            if rs.rand() < .5:
                data = {syms[k]: v for k, v in data.items()}
            if not ok:
                return make(M, text, **kw), ref
            if self.kind == 'bloch':
                # keys of dictionaries are not parsed for trigonometric functions
                n = len(data)
                data = {qm.substitute_exponents(sympy.sympify(k)): v for k, v in data.items()}
                if len(data) != n or len(data) != len({str(k) for k in data}):
                    return make(M, text, **kw), ref
            return make(M, data, normalize=True, **kw), ref
        if src == 'keep':
            full = make(M, text, **kw)
            ks = list(full.data)
            if not ks:
                return full, ref
            kept = [k for k in ks if rs.rand() < .6] or ks[:1]
            part = {k: np.array(full.data[k]) for k in kept}
            m = make(M, text, keep=[str(k) if rs.rand() < .5 else k for k in kept], **kw)
            self.ctx.check(set(m.data) == set(kept), 'wrong-terms',
                           lambda: f'keep={kept} of {ks} left {list(m.data)}')

            def ref(g):
                return sum(np.broadcast_to(np.asarray(eval_expr(k, Look(g)), complex), (self.n,))[:, None, None] * v
                           for k, v in part.items())
            return m, ref
        return make(M, text, **kw), ref

    # --------------------------------------------------------------- judging
    def value(self, m):
        out = 0
        g = Look(self.var)
        with seams.paused():
            for key, val in m.data.items():
                if isinstance(key, tuple):
                    ph = sum((float(h) * g[str(k)] for h, k in zip(key[0], m.momenta)), 0)
                    self.ctx.check(len(key[0]) == len(m.momenta), 'wrong-momenta',
                                   lambda: f'hopping {key[0]} for momenta {m.momenta}')
                    c = np.exp(1j * ph) * eval_expr(key[1], g)
                else:
                    c = eval_expr(key, g)
                v = np.asarray(dense(val), complex)
                out = out + np.broadcast_to(np.asarray(c, complex), (self.n,)).reshape((-1,) + (1,) * v.ndim) * v
            if not m.data:
                out = np.zeros((self.n,) + tuple(m.shape or (1, 1)), complex)
        return out

    def judge_value(self, got, label, names=None):
        want = self.ref(self.var)
        got = np.asarray(got)
        if got.shape != want.shape and np.max(np.abs(want), initial=0) < 1e-9 and np.all(got == 0):
            return
        self.ctx.check(got.shape == want.shape, 'wrong-shape', lambda: f'{label}: {got.shape} instead of {want.shape}')
        err = np.max(np.abs(got - want), initial=0)
        self.ctx.check(np.isfinite(err) and err < 1e-10 * max(1, np.max(np.abs(want), initial=0)), 'wrong-value',
                       lambda: f'{label}: off by {err:.3g} (magnitude {np.max(np.abs(want)):.3g})')
        if np.max(np.abs(want), initial=0) > 1e-6:
            self.ctx.nontrivial = True

    def judge(self, m, label):
        import qsymm
        names = [getattr(x, 'name', str(x)) for x in m.momenta]
        self.ctx.check(names == self.mom, 'wrong-momenta', lambda: f'{label}: momenta {names}, expected {self.mom}')
        self.ctx.check(type(m) is (qsymm.BlochModel if self.bloch else qsymm.Model), 'wrong-type',
                       lambda: f'{label}: {type(m)}')
        self.ctx.check(all(isinstance(k, tuple) == self.bloch for k in m.data), 'wrong-type', lambda: f'{label}: keys')
        fm = {'dense': np.ndarray, 'csr': csr(), 'linop': linop()}[self.fmt]
        if m.data:
            self.ctx.check(issubclass(m.format, fm) and all(isinstance(v, fm) for v in m.data.values()),
                           'wrong-format', lambda: f'{label}: format {m.format}, expected {fm}')
        self.judge_value(self.value(m), label)


class Look(dict):
    """Mapping view of a lookup function, for eval_expr."""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        return np.e if k == 'e' else self.f(k)


def linop():
    import scipy.sparse.linalg as sla
    return sla.LinearOperator


def run_chain(plan, ctx):
    C = Chain(plan, ctx)
    m, C.ref = C.start()
    if m.data == {} and m.format is None:
        # the text was a zero; documented to be discouraged
        C.judge_value(C.value(m), 'zero')
        return
    C.judge(m, 'source ' + plan['source'])
    done = [plan['source']]
    for name, r in plan['ops']:
        res = globals()['op_' + name](C, m, np_rng('op', r) if name != 'persist' else r)
        if res is False:
            continue
        done.append(name)
        ctx.count('op-' + name)
        if res is not None:
            m = res
            C.judge(m, f'step {len(done)} ({" > ".join(done)})')
        if not m.data:
            break
    ctx.sig(plan['kind'], plan['d'], plan['kron'], tuple(done), len(m.data), C.fmt)
    ctx.event('end', done, np.round(C.ref(C.var).ravel()[:4], 6).tolist())


def isfloat(m):
    return any(abs(v * 4 - np.round(v * 4)) > 1e-9 for x in m.data.values()
               for v in np.concatenate([np.ravel(dense(x)).real, np.ravel(dense(x)).imag]))


def op_evict(C, m, r):
    if r.rand() < .6:
        seams.clear_sympy_cache()
        C.ctx.fault('evict-sympy-cache')
    else:
        seams.clear_qsymm_caches()
        C.ctx.fault('evict-library-caches')


def op_bloch(C, m, r):
    import qsymm
    if C.bloch:
        # a BlochModel made from a BlochModel is the same function
        return C.ctx.call(qsymm.BlochModel, m)
    if C.kind == 'cont' and C.momdep(m):
        return False
    C.bloch = True
    return C.ctx.call(qsymm.BlochModel, m)


def momdep(C, m):
    """Whether a key depends on momenta other than through exponentials."""
    return bool(C.mom) and C.kind == 'cont' and any(
        str(s) in C.mom for k in m.data for s in k.free_symbols)


Chain.momdep = lambda self, m: momdep(self, m)


def op_unbloch(C, m, r):
    if not C.bloch:
        return False
    C.bloch = False
    return C.ctx.call(m.tomodel, nsimplify=bool(r.rand() < .5))


def op_tosympy(C, m, r):
    """The sympy expression has the value of the Model."""
    import sympy
    if C.fmt == 'linop':
        return False
    ns = bool(r.rand() < .4) and not isfloat(m)
    e = C.ctx.call(m.tosympy, nsimplify=ns)
    C.ctx.check(isinstance(e, (sympy.MatrixBase, sympy.Expr)), 'wrong-type', lambda: f'tosympy gave {type(e)}')
    C.judge_value(C.sym_value(e), 'tosympy')


def sym_value(C, e):
    import sympy
    g = Look(C.var)
    with seams.paused():
        if not isinstance(e, sympy.MatrixBase):
            return np.broadcast_to(np.asarray(eval_expr(e, g), complex), (C.n,))[:, None, None]
        return np.array([[np.broadcast_to(np.asarray(eval_expr(e[i, j], g), complex), (C.n,))
                          for j in range(e.shape[1])] for i in range(e.shape[0])]).transpose(2, 0, 1)


Chain.sym_value = lambda self, e: sym_value(self, e)


def op_resympy(C, m, r):
    """Model -> sympy -> Model."""
    if C.fmt == 'linop':
        return False
    e = C.ctx.call(m.tosympy)
    C.fmt = 'dense'
    return C.ctx.call(type(m), e, momenta=C.mom)


def op_text(C, m, r):
    """Model -> printed matrix -> Model."""
    import sympy
    if C.fmt == 'linop':
        return False
    e = C.ctx.call(m.tosympy)
    if isinstance(e, sympy.MatrixBase):
        e = e.tolist()
    C.fmt = 'dense'
    return C.ctx.call(type(m), str(e), momenta=C.mom)


def op_lambdify(C, m, r):
    import sympy
    if C.fmt == 'linop':
        return False
    how = r.randint(3)
    ns = bool(r.rand() < .3) and not isfloat(m)
    kw = [{}, dict(onsite=True), dict(hopping=True)][how]
    f = C.ctx.call(m.lambdify, nsimplify=ns, **kw)
    import inspect
    names = list(inspect.signature(f).parameters)
    lead = [[], ['site'], ['site1', 'site2']][how]
    C.ctx.check(names[:len(lead)] == lead and names[len(lead):] == sorted(names[len(lead):]), 'wrong-signature',
                lambda: f'lambdify gave arguments {names}')
    vals = {x: C.var(x) for x in names[len(lead):]}
    got = []
    for i in range(C.n):
        v = C.ctx.call(lambda **k: f(*([None] * len(lead)), **k), **{x: float(v[i]) for x, v in vals.items()})
        got.append(np.atleast_2d(np.asarray(v, complex)))
    C.judge_value(np.array(got), 'lambdify')


def op_dict(C, m, r):
    items = list(m.data.items())
    items = [items[i] for i in r.permutation(len(items))]
    how = r.randint(3)
    if how == 0:
        return C.ctx.call(type(m), dict(items), momenta=C.mom)
    if how == 1:
        return C.ctx.call(type(m), dict(items), momenta=C.mom, shape=m.shape, format=m.format)
    return C.ctx.call(type(m), dict(items), momenta=m.momenta, keep=[k for k, _ in items])


def op_textdict(C, m, r):
    if C.bloch:
        return False
    return C.ctx.call(type(m), {str(k): v for k, v in m.data.items()}, momenta=C.mom)


def op_normal(C, m, r):
    if C.bloch or C.fmt == 'linop':
        return False
    return C.ctx.call(type(m), dict(m.data), momenta=C.mom, normalize=True)


def op_momsym(C, m, r):
    """Momenta given as noncommutative or commutative symbols are the same."""
    import sympy
    mom = [sympy.Symbol(x, commutative=bool(r.rand() < .5)) for x in C.mom]
    return C.ctx.call(type(m), dict(m.data), momenta=mom)


def op_csr(C, m, r):
    C.fmt = 'csr'
    return C.ctx.call(m.tocsr)


def op_dense(C, m, r):
    C.fmt = 'dense'
    return C.ctx.call(m.toarray)


def op_linop(C, m, r):
    import scipy.sparse.linalg as sla
    if C.fmt == 'linop':
        return False
    C.fmt = 'linop'
    return C.ctx.call(type(m), {k: sla.aslinearoperator(v) for k, v in m.data.items()}, momenta=C.mom)


def op_keep(C, m, r):
    """Keep a subset of the terms."""
    ks = list(m.data)
    kept = [k for k in ks if r.rand() < .7] or ks[:1]
    if len(kept) == len(ks):
        return False
    part = {k: np.array(dense(m.data[k])) for k in kept}
    mom = [str(x) for x in m.momenta]
    n = C.n

    def ref(g):
        L = Look(g)
        out = 0
        for k, v in part.items():
            if isinstance(k, tuple):
                c = np.exp(1j * sum((float(h) * g(x) for h, x in zip(k[0], mom)), 0)) * eval_expr(k[1], L)
            else:
                c = eval_expr(k, L)
            out = out + np.broadcast_to(np.asarray(c, complex), (n,))[:, None, None] * v
        return out
    res = C.ctx.call(type(m), dict(m.data), keep=kept, momenta=C.mom)
    C.ctx.check(res.keep == set(kept) and set(res.data) == set(kept), 'wrong-terms',
                lambda: f'keep={kept} left {list(res.data)} with keep={res.keep}')
    if C.bloch:
        # the truncation belongs to the Model, in any form
        conv = C.ctx.call(res.tomodel)
        C.ctx.check(len(conv.keep) == len(kept) and all(any(k == x for x in conv.keep) for k in conv.data), 'wrong-terms',
                    lambda: f'tomodel of a Model with keep={kept} has keep={conv.keep}, terms {list(conv.data)}')
    C.ref = ref
    # later steps are not truncated again
    res = C.ctx.call(type(m), dict(res.data), momenta=C.mom)
    return res


def op_keepmul(C, m, r):
    """Products of truncated Models are the truncated products."""
    if C.fmt != 'dense' or len(m.data) > 8:
        return False
    full = C.ctx.call(lambda: m @ m)
    ks = list(full.data)
    kept = [k for k in ks if r.rand() < .6] + list(m.data)
    t = C.ctx.call(type(m), dict(m.data), keep=kept, momenta=C.mom)
    other = t if r.rand() < .5 else m
    a, b = (t, other) if r.rand() < .5 else (other, t)
    got = C.ctx.call(lambda: a @ b)
    for k in ks:
        want = full.data[k] if k in kept else None
        if want is None:
            C.ctx.check(k not in got.data, 'wrong-terms', lambda: f'term {k} should have been truncated')
        else:
            C.ctx.check(np.allclose(got[k], want, atol=1e-8), 'wrong-terms', lambda: f'term {k} of a truncated product')
    C.ctx.check(all(k in kept for k in got.data), 'wrong-terms', 'a truncated product has other terms')
    C.ctx.check(got.keep == set(kept) or not got.data, 'wrong-terms', lambda: f'keep of a product: {got.keep} instead of {kept}')


def op_subs(C, m, r):
    import sympy
    if C.fmt == 'linop' or len(m.data) > 14:
        return False
    free = sorted({str(s) for k in m.data for s in (k[1] if isinstance(k, tuple) else k).free_symbols}
                  | set(C.mom) - {'e'})
    free = [x for x in free if x != 'e']
    free += [x for x in C.mom if x not in free]
    if not free:
        return False
    pairs, fs = [], []
    before = list(C.mom)
    mom = list(C.mom)
    used = set()
    n = r.choice([1, 1, 1, 2, 3])
    fresh = [x for x in ('t', 'u_1', 'v', 'phi') if x not in free]

    def sym(x, as_text=True):
        c = r.randint(3)
        return x if c == 0 and as_text else sympy.Symbol(x, commutative=True)
    form = r.choice(['pair', 'dict', 'list'])
    for _ in range(int(n)):
        cand = [x for x in free if x not in used]
        if not cand or len(fresh) < 1:
            break
        x = cand[r.randint(len(cand))]
        used.add(x)
        ismom = x in mom
        nice = [2, -1, .5, 3][r.randint(4)]
        numbers = [nice, float(nice), sympy.sympify(nice), np.float64(nice)]
        c = r.randint(6)
        p = PARAMS[r.randint(len(PARAMS))]
        while p in used or p == x:
            p = 'par_%d' % r.randint(9)
        others = [y for y in mom if y != x and y not in used]
        renamed = [y for y in mom if y not in before and y != x]
        if c <= 1 and ismom and renamed and form != 'pair' and r.randint(3):
            # in terms of a momentum that got its name just before
            y = renamed[r.randint(len(renamed))]
            new, f = 2 * sympy.Symbol(y, commutative=True), (lambda g, y=y: 2 * g(y))
        elif c <= 1:
            new, f = numbers[r.randint(4)], (lambda g, v=nice: v)
            if ismom:
                mom.remove(x)
        elif c == 2:
            y = fresh.pop()
            new, f = sym(y), (lambda g, y=y: g(y))
            if ismom:
                mom[mom.index(x)] = y
            used.add(y)
        elif c == 3:
            new, f = 2 * sympy.Symbol(p, commutative=True), (lambda g, p=p: 2 * g(p))
            if ismom:
                mom.remove(x)
        elif c == 4 and others and ismom:
            y = others[r.randint(len(others))]
            new = sympy.Symbol(x, commutative=True) + sympy.Symbol(y, commutative=True)
            f = (lambda g, x=x, y=y: g(x) + g(y))
            used.add(y)
            if form == 'list':
                form = 'pair' if not pairs else 'dict'
        elif ismom:
            if C.bloch or C.kind == 'bloch':
                new, f = -sympy.Symbol(x, commutative=True), (lambda g, x=x: -g(x))
            else:
                new = sympy.Symbol(x, commutative=True) + 2 * sympy.Symbol(p, commutative=True)
                f = (lambda g, x=x, p=p: g(x) + 2 * g(p))
        else:
            q = 'lam'
            new = sympy.Symbol(p, commutative=True) + 3 * sympy.Symbol(q, commutative=True)
            f = (lambda g, p=p, q=q: g(p) + 3 * g(q))
        for y in getattr(new, 'free_symbols', ()):
            used.add(str(y))
        if isinstance(new, str):
            used.add(new)
        pairs.append((x, new))
        fs.append((x, f))
        if form == 'pair':
            break
    if not pairs:
        return False
    sub = dict(fs)
    # the images contain no variable that is itself replaced (except x -> f(x)),
    # so that the order of the replacements does not matter
    import itertools as it
    for (x, new), (y, _) in it.permutations(pairs, 2):
        names = {new} if isinstance(new, str) else {str(s) for s in getattr(new, 'free_symbols', ())}
        if y in names:
            return False
    arg = [(sym(x), v) for x, v in pairs]
    if form == 'pair':
        args = arg[0]
    elif form == 'dict':
        args = (dict(arg),)
    else:
        args = (arg,)
    old = C.ref
    C.ref = lambda g: old(lambda name: np.broadcast_to(np.asarray(sub[name](g), float), (C.n,)) if name in sub else g(name))
    before = C.mom
    C.mom = mom
    C.ctx.event('subs', str(args), before, mom)
    res = C.ctx.call(m.subs, *args)
    if not C.bloch:
        # numbers belong to the matrices, terms are otherwise not recognized as equal
        left = [k for k in res.data for x in k.atoms(sympy.Pow, sympy.exp) if str(x.base) in ('E', 'e') and not x.exp.free_symbols]
        C.ctx.check(not left, 'numerical-exponential', lambda: f'subs{args} leaves {left}')
    return res


def shrink_chain(plan):
    ops = plan['ops']
    for s in range(len(ops)):
        yield {**plan, 'ops': ops[:s] + ops[s + 1:]}
    if plan['nterms'] > 1:
        yield {**plan, 'nterms': 1}
        yield {**plan, 'nterms': plan['nterms'] - 1}
    if plan['kron']:
        yield {**plan, 'kron': False}
    if plan['names']:
        yield {**plan, 'names': None}
    for d in range(1, plan['d']):
        yield {**plan, 'd': d}
    if plan['source'] != 'text':
        yield {**plan, 'source': 'text'}
