"""Workload and oracle of the text rules (C24): random expressions whose value is
known independently of sympy."""
import math
import warnings

import numpy as np
import scipy.linalg as sla

from . import gen, seams
from .core import np_rng, rng_of

D = 2           # size of the matrices standing for symbols
NC = ['x', 'y', 'z', 'k_x', 'k_y', 'k_z']
LETTERS = list('ABCDEFGHJKLMNOPQRSTUVWXYZabcdfghijklmnopqrstuvw')
GREEK = ['alpha', 'beta', 'gamma', 'delta', 'epsilon', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'lamda', 'mu', 'nu', 'xi', 'rho', 'sigma', 'tau',
         'phi', 'chi', 'psi', 'omega']
LONG = ['m_0', 'V_0', 'mass', 't1', 'A_xy', 'sigma_plus', 'Delta', 'x_1', 'k_', 'k_a', 'kx', 'k_xy']
TOL = 1e-7
OK = {'sin': sla.sinm, 'cos': sla.cosm, 'exp': sla.expm, 'sinh': sla.sinhm, 'cosh': sla.coshm}


def generate(rng):
    ops = ['scalar', 'scalar', 'matrix', 'matrix', 'matrix', 'literal', 'locals', 'locals', 'locals', 'object', 'monomials', 'monomials', 'lambdify',
           'commutative', 'badkey', 'badtext', 'model', 'evict']
    return dict(env=gen.gen_env(rng, noise=False), ops=[[rng.choice(ops), rng.randrange(10**6)] for _ in range(rng.randrange(3, 12))])


# ---------------------------------------------------------------- values
def number(name):
    r = rng_of('value of', name)
    return complex(r.uniform(.4, 1.6), r.choice([0, r.uniform(-.8, .8)]))


def value(name, scalar=False):
    if name == 'e':
        return math.e * np.eye(D, dtype=complex)
    if name in NC and not scalar:
        rs = np_rng('matrix of', name)
        return rs.standard_normal((D, D)) * .7 + 1j * rs.standard_normal((D, D)) * .5
    return number(name) * np.eye(D)


def opaque(name):
    """A function of matrices."""
    a, b, c, d = (number((name, i)) for i in range(4))

    def f(*xs):
        out = a * np.eye(D, dtype=complex)
        for i, x in enumerate(xs):
            out = out + b * (i + 1) * x + c * (i + 1)**2 * x @ x
        return out if len(xs) < 2 else out + d * xs[0] @ xs[1]
    return f


# ------------------------------------------------------------ expression trees
class Gen:
    def __init__(self, rng, nc=True, functions=True, special=True, only=None):
        self.rng, self.nc, self.special = rng, nc, special
        pool = LETTERS + GREEK + LONG
        pool = rng.sample(pool, 9)
        self.syms, self.funs = pool[:6], pool[6:] if functions else []
        if only is not None:
            self.syms = only
        if rng.random() < .15 and only is None:
            self.syms = self.syms + ['e']

    def sym(self):
        if self.nc and self.rng.random() < .55:
            return ('sym', self.rng.choice(NC))
        return ('sym', self.rng.choice(self.syms))

    def num(self):
        t = self.rng.choice(['1', '2', '3', '0.5', '1.25', '7', '1/2', '2/3', 'I', 'pi', '2*I', '1.5e-1', 'sqrt(2)'])
        v = {'I': 1j, 'pi': math.pi, '2*I': 2j, '1/2': .5, '2/3': 2 / 3, 'sqrt(2)': 2**.5}.get(t)
        return ('num', t, complex(v if v is not None else float(t)))

    def scalar(self, depth):
        r = self.rng
        if depth <= 0:
            return self.sym() if r.random() < .75 else self.num()
        k = r.random()
        if k < .28:
            return (r.choice(['add', 'add', 'sub']), self.scalar(depth - 1), self.scalar(depth - 1))
        if k < .62:
            return ('mul', self.scalar(depth - 1), self.scalar(depth - 1))
        if k < .7:
            return ('neg', self.scalar(depth - 1))
        if k < .78:
            return ('pow', self.scalar(min(1, depth - 1)), r.choice([2, 2, 3]))
        if k < .84:
            return ('div', self.scalar(depth - 1), ('sym', r.choice(self.syms)) if r.random() < .5 else self.num())
        if k < .93 and self.funs:
            return ('fun', r.choice(self.funs), [self.scalar(r.choice([0, 0, 1])) for _ in range(r.choice([1, 1, 1, 2]))])
        if self.special:
            a = ('sym', r.choice(NC)) if self.nc else self.sym()
            return ('fun', r.choice(['sin', 'cos', 'exp']), [a if r.random() < .5 else ('mul', self.num(), a)])
        return self.sym()

    def flat(self, depth):
        """Without symbols that do not commute."""
        nc, self.nc = self.nc, False
        try:
            return self.scalar(depth)
        finally:
            self.nc = nc

    def matrix(self, n, depth, names=()):
        r = self.rng
        own = [x for x, s in names if s == n]
        if own and r.random() < .5:
            return ('name', r.choice(own), n)
        k = r.random()
        if depth <= 0 or k < .15:
            if n == 2 and r.random() < .8:
                return ('name', 'sigma_' + r.choice('0xyz'), 2)
            return ('name', r.choice(['eye', 'identity']) + f'({n})', n)
        if k < .3 and n == 4:
            return ('kron', [self.matrix(2, depth - 1, names), ('name', 'sigma_' + r.choice('0xyz'), 2)])
        if k < .3 and n == 8:
            return ('kron', [('name', 'sigma_' + r.choice('0xyz'), 2), self.matrix(2, depth - 1, names), ('name', 'sigma_' + r.choice('0xyz'), 2)])
        if k < .5:
            return (r.choice(['add', 'add', 'sub']), self.matrix(n, depth - 1, names), self.matrix(n, depth - 1, names))
        if k < .75:
            return ('mul', self.scalar(r.choice([0, 1, 2])), self.matrix(n, depth - 1, names))
        if k < .85:
            return ('mul', self.matrix(n, depth - 1, names), self.scalar(r.choice([0, 1])))
        if k < .92:
            return ('mul', self.matrix(n, depth - 1, names), self.matrix(n, depth - 1, names))
        if k < .96:
            return ('neg', self.matrix(n, depth - 1, names))
        return ('pow', self.matrix(n, 0, names), 2)


PREC = {'add': 1, 'sub': 1, 'neg': 2, 'mul': 3, 'div': 3, 'pow': 5}


def text(t, rng, top=0):
    k = t[0]
    sp = lambda o: rng.choice([o, f' {o} '])
    if k == 'num':
        s, p = t[1], 3 if any(c in t[1] for c in '*/') else 9
    elif k in ('sym', 'name'):
        s, p = t[1], 9
    elif k in ('fun', 'kron'):
        s, p = (t[1] if k == 'fun' else 'kron') + '(' + rng.choice([',', ', ']).join(text(a, rng) for a in (t[2] if k == 'fun' else t[1])) + ')', 9
    elif k == 'lit':
        s, p = '[' + ', '.join('[' + ', '.join(text(a, rng) for a in row) + ']' for row in t[1]) + ']', 9
    else:
        p = PREC[k]
        if k == 'neg':
            s = '-' + text(t[1], rng, 3)
        elif k == 'pow':
            s = text(t[1], rng, 6) + '**' + str(t[2])
        else:
            o = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[k]
            s = text(t[1], rng, p) + sp(o) + text(t[2], rng, p + (k in ('sub', 'mul', 'div', 'add')))
    return f'({s})' if p < top or rng.random() < .04 else s


def blocks(M):
    """Numerical matrix -> array of D x D blocks."""
    M = np.array(M, complex)
    return np.array([[x * np.eye(D) for x in row] for row in M])


PAULI = {'0': np.eye(2), 'x': [[0, 1], [1, 0]], 'y': [[0, -1j], [1j, 0]], 'z': [[1, 0], [0, -1]]}


def ev(t, env=None, scalar=False):
    """Scalars: (D, D); matrices: (n, m, D, D)."""
    env = env or {}
    k = t[0]
    rec = lambda a: ev(a, env, scalar)
    if k == 'num':
        return t[2] * np.eye(D)
    if k == 'sym':
        if t[1] in env:
            return env[t[1]]
        return value(t[1], scalar)
    if k == 'name':
        if t[1] in env:
            return env[t[1]]
        if t[1].startswith('sigma_'):
            return blocks(PAULI[t[1][-1]])
        return blocks(np.eye(t[2]))
    if k == 'fun':
        xs = [rec(a) for a in t[2]]
        return OK[t[1]](*xs) if t[1] in OK else opaque(t[1])(*xs)
    if k == 'lit':
        return np.array([[rec(a) for a in row] for row in t[1]])
    if k == 'kron':
        out = None
        for a in t[1]:
            v = rec(a)
            out = v if out is None else np.einsum('ijab,klbc->ikjlac', out, v).reshape(out.shape[0] * v.shape[0], out.shape[1] * v.shape[1], D, D)
        return out
    if k == 'neg':
        return -rec(t[1])
    if k == 'pow':
        a = rec(t[1])
        out = a
        for _ in range(t[2] - 1):
            out = mul(out, a)
        return out
    a, b = rec(t[1]), rec(t[2])
    if k == 'add':
        return a + b
    if k == 'sub':
        return a - b
    if k == 'mul':
        return mul(a, b)
    return mul(a, np.linalg.inv(b))


def mul(a, b):
    if a.ndim == 4 and b.ndim == 4:
        return np.einsum('ijab,jkbc->ikac', a, b)
    return a @ b


# --------------------------------------------------- values of sympy expressions
class BadSymbol(Exception):
    pass


def judge(x, env=None, scalar=(), rules=True):
    """Value of a sympy expression or matrix; checks which symbols commute."""
    import sympy
    from sympy.core.function import AppliedUndef
    rec = lambda a: judge(a, env, scalar, rules)
    if isinstance(x, sympy.MatrixBase):
        return np.array([[rec(x[i, j]) for j in range(x.cols)] for i in range(x.rows)]).reshape(x.rows, x.cols, D, D)
    if isinstance(x, sympy.Symbol):
        if env and x in env:
            return env[x]
        if rules and bool(x.is_commutative) != (x.name not in NC or x.name in scalar):
            raise BadSymbol(f'{x.name} commutative: {x.is_commutative}')
        if rules and (x.name == 'e') != bool(x.is_positive):
            raise BadSymbol(f'{x.name} positive: {x.is_positive}')
        return value(x.name, x.name in scalar)
    if isinstance(x, sympy.Add):
        return sum((rec(a) for a in x.args), np.zeros((D, D), complex))
    if isinstance(x, sympy.Mul):
        out = np.eye(D, dtype=complex)
        for a in x.args:
            out = out @ rec(a)
        return out
    if isinstance(x, sympy.Pow) and x.exp.is_Integer:
        return np.linalg.matrix_power(rec(x.base), int(x.exp))
    if isinstance(x, sympy.Pow) and not x.exp.is_number:
        b = rec(x.base)
        return sla.expm(rec(x.exp) * np.log(b[0, 0]))
    if isinstance(x, AppliedUndef):
        f = str(x.func)
        return OK[f](*[rec(a) for a in x.args]) if f in OK else opaque(f)(*[rec(a) for a in x.args])
    if isinstance(x, sympy.Function):
        f = str(x.func)
        if f not in OK:
            raise BadSymbol(f'{f} is not a plain function')
        return OK[f](*[rec(a) for a in x.args])
    if x.is_number:
        return complex(x.evalf()) * np.eye(D)
    raise BadSymbol(f'{type(x).__name__} {x}')


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= TOL * (1 + np.abs(b).max(initial=0))))


class Run:
    def __init__(self, plan, ctx):
        self.ctx = ctx

    def compare(self, got, want, label, **kw):
        import sympy
        ctx = self.ctx
        if want.ndim == 4:
            ctx.check(isinstance(got, sympy.MatrixBase) and got.shape == want.shape[:2], 'wrong-type', lambda: f'{label}: {got!r}')
        else:
            ctx.check(isinstance(got, sympy.Expr), 'wrong-type', lambda: f'{label}: {got!r}')
        try:
            v = judge(got, **kw)
        except BadSymbol as ex:
            ctx.check(False, 'wrong-symbol', f'{label}: {got}: {ex}')
        ctx.check(near(v, want), 'wrong-value', lambda: f'{label}: got {got}')
        ctx.nontrivial = True


def quiet(P, f, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return P.ctx.call(f, *a, **kw)


def sane(v):
    return np.all(np.isfinite(v)) and np.abs(v).max(initial=0) < 1e5


# ------------------------------------------------------------------ operations
def op_scalar(P, r):
    import qsymm
    g = Gen(r)
    t = g.scalar(r.choice([1, 2, 3, 4]))
    want = ev(t)
    if not sane(want):
        return None
    s = text(t, r)
    P.compare(P.ctx.call(qsymm.sympify, s), want, s)
    return ('scalar', len(s) // 8)


def op_matrix(P, r):
    import qsymm
    g = Gen(r)
    n = r.choice([2, 2, 4, 4, 3, 8])
    t = g.matrix(n, r.choice([1, 2, 3]) if n < 8 else 1)
    want = ev(t)
    if not sane(want):
        return None
    s = text(t, r)
    P.compare(P.ctx.call(qsymm.sympify, s), want, s)
    return ('matrix', n, len(s) // 12)


def literal(r, g, rows, cols, depth=1):
    return ('lit', [[g.scalar(r.choice([0, depth])) if r.random() < .7 else ('num', '0', 0j) for _ in range(cols)] for _ in range(rows)])


def op_literal(P, r):
    import qsymm
    rows, cols = r.choice([(1, 1), (2, 2), (2, 2), (3, 3), (1, 3), (2, 1)])
    t = literal(r, Gen(r), rows, cols, 2)
    want = ev(t)
    if not sane(want):
        return None
    s = text(t, r)
    P.compare(P.ctx.call(qsymm.sympify, s), want, s)
    return ('literal', rows, cols)


def op_locals(P, r):
    """Names given by the caller: texts, numbers, lists, arrays, sympy objects."""
    import qsymm
    import sympy
    inner, g = Gen(r), Gen(r)
    n = r.choice([2, 3])
    loc, env, mats, scal = {}, {}, [], []
    senv = {}
    for _ in range(r.choice([1, 1, 2, 3])):
        name = r.choice(g.syms + NC[:2] + NC[3:5] + ['sigma_x', 'sigma_p', 'my_m', 'eps', 'e', 'kron'])
        if name in loc:
            continue
        k = r.randrange(7)
        if name == 'kron':
            name = 'kron_'
        if name == 'e' and k not in (0, 3):
            continue
        if name.startswith('sigma') and k in (0, 1, 2, 5):
            k = r.choice([3, 4, 6])
        if k == 0:
            t = inner.scalar(r.choice([0, 1, 2]))
            loc[name], env[name] = text(t, r), ev(t)
        elif k == 1:
            v = r.choice([2, 1.5, 3])
            loc[name], env[name] = v, v * np.eye(D, dtype=complex)
        elif k == 2:
            v = sympy.Symbol('own_' + name, commutative=bool(r.randrange(2)))
            val = value(r.choice(NC)) if not v.is_commutative else value('own')
            loc[name], env[name], senv[v] = v, val, val
        elif k == 3:
            t = literal(r, inner, n, n)
            loc[name], env[name] = text(t, r), ev(t)
        elif k == 4:
            M = np_rng('array', r.randrange(1000)).randint(-3, 4, (n, n)) * r.choice([1, .5])
            loc[name], env[name] = M.tolist() if r.random() < .5 else M, blocks(M)
        elif k == 5:
            v = sympy.Symbol('x')           # commutes, although its name is reserved in texts
            val = number('plain x') * np.eye(D)
            loc[name], env[name], senv[v] = v, val, val
        else:
            t = inner.matrix(n, 1)
            loc[name], env[name] = text(t, r), ev(t)
        (mats if env[name].ndim == 4 else scal).append(name)
    g.syms = [x for x in g.syms if x not in mats] + scal or ['a']
    g.syms = [x for x in g.syms if x not in NC] or ['a']
    bad = [x for x in mats if x in NC]
    if bad or any(x in loc for x in g.funs):
        return None
    names = [(x, n) for x in mats] + [('sigma_' + c, 2) for c in '0xyz' if 'sigma_' + c not in loc and n == 2]
    t = g.matrix(n, r.choice([1, 2]), names) if mats and r.random() < .8 else g.scalar(r.choice([1, 2, 3]))
    want = ev(t, env)
    if not sane(want):
        return None
    s = text(t, r)
    if any(m in str(s) for m in mats) and want.ndim == 2:
        return None
    before = {k: (v.copy() if isinstance(v, (list, np.ndarray)) else v) for k, v in loc.items()}
    got = P.ctx.call(qsymm.sympify, s, loc) if r.random() < .5 else P.ctx.call(qsymm.sympify, s, locals=loc)
    P.ctx.check(list(loc) == list(before) and all(np.array_equal(loc[k], before[k]) for k in loc), 'argument-changed', lambda: f'{loc}')
    P.compare(got, want, f'{s} locals={before}', env=senv)
    return ('locals', sorted(type(v).__name__ for v in loc.values()), len(s) // 12)


def op_object(P, r):
    """sympy objects are returned as they are, functions made undefined."""
    import qsymm
    import sympy
    from sympy.core.function import AppliedUndef
    g = Gen(r)
    t = g.scalar(r.choice([1, 2, 3]))
    want = ev(t)
    if not sane(want):
        return None
    s = text(t, r)
    x = P.ctx.call(qsymm.sympify, s)
    loc = {'a': 1} if r.random() < .3 else None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        y = P.ctx.call(qsymm.sympify, x, loc)
    w = [q for q in w if issubclass(q.category, RuntimeWarning)]
    P.ctx.check(bool(w) == bool(loc), 'no-warning', f'locals={loc} with a sympy object')
    P.compare(y, want, f'sympify(sympify({s!r}))')
    P.ctx.check(all(isinstance(f, AppliedUndef) for f in y.atoms(sympy.Function)), 'defined-function', lambda: f'{s}: {y}')
    for v in (sympy.Matrix([[x, 1], [0, x]]), sympy.ImmutableMatrix([[x, 1], [0, x]])):
        z = P.ctx.call(qsymm.sympify, v)
        P.compare(z, np.array([[want, np.eye(D)], [np.zeros((D, D)), want]]), f'matrix of {s!r}')
    for v in (3, 2.5, 1j, sympy.Integer(4)):
        P.compare(P.ctx.call(qsymm.sympify, v), complex(v) * np.eye(D), f'{v!r}')
    return ('object', bool(loc))


def op_monomials(P, r):
    import sympy
    import qsymm
    from qsymm.kwant_continuum import monomials
    nc = r.random() < .5
    gens = r.sample(NC, 2) if nc else r.sample(LETTERS[:12] + ['alpha', 'gamma', 'x_1'], 2)
    rest = [c for c in ['q', 'mu', 'V_0', 'beta'] if c not in gens]

    def mono():
        t = ('num', *r.choice([('1', 1), ('2', 2), ('1/2', .5), ('I', 1j)]))
        for _ in range(r.choice([0, 1, 2, 3])):
            t = ('mul', t, ('sym', r.choice(gens + rest)))
            if r.random() < .2:
                t = ('mul', t, ('pow', ('sym', r.choice(gens)), 2))
        return t

    def poly():
        t = mono()
        for _ in range(r.choice([0, 1, 2, 3])):
            t = (r.choice(['add', 'sub', 'mul']), t, mono())
        if r.random() < .2:
            t = ('pow', t, 2)
        return t
    if r.random() < .5:
        t = ('lit', [[poly() if r.random() < .7 else ('num', '0', 0) for _ in range(2)] for _ in range(2)])
    else:
        t = poly()
    want = ev(t)
    if not sane(want):
        return None
    s = text(t, r)
    x = P.ctx.call(qsymm.sympify, s)
    form = r.randrange(3)
    syms = [qsymm.sympify(n) for n in gens]
    before = str(x)
    arg = None if form == 0 else gens if form == 1 else syms
    if form == 0:
        allsym = {q.name for q in x.atoms(sympy.Symbol)}
        out = P.ctx.call(monomials, x)
    else:
        allsym = set(gens)
        out = P.ctx.call(monomials, x, gens=arg) if r.random() < .5 else P.ctx.call(monomials, x, arg)
    P.ctx.check(str(x) == before, 'argument-changed', s)
    total = np.zeros_like(np.asarray(want, complex))
    for k, v in out.items():
        names = {q.name for q in k.atoms(sympy.Symbol)}
        P.ctx.check(names <= allsym and not (k.atoms(sympy.Add)) and (k == 1 or not k.as_coeff_Mul()[0] != 1), 'wrong-monomial', lambda: f'{s}: key {k}')
        P.ctx.check(not ({q.name for q in v.atoms(sympy.Symbol)} & allsym), 'wrong-monomial', lambda: f'{s}: coefficient {v} of {k}')
        total = total + mul(judge(k), judge(v))
    P.ctx.check(near(total, want), 'wrong-value', lambda: f'monomials of {s}: {out}')
    P.ctx.nontrivial = True
    return ('monomials', form, nc, len(out))


def op_lambdify(P, r):
    from qsymm.kwant_continuum import lambdify
    import sympy
    g = Gen(r, special=r.random() < .3)
    n = r.choice([0, 0, 2])
    t = g.matrix(n, 2) if n else g.scalar(r.choice([1, 2, 3]))
    want = ev(t, scalar=True)
    if not sane(want):
        return None
    s = text(t, r)
    f = quiet(P, lambdify, s)
    used, funs = set(), set()

    def walk(q):
        if isinstance(q, tuple) and q[0] == 'sym':
            used.add(q[1])
        elif isinstance(q, tuple) and q[0] == 'fun' and q[1] not in OK:
            funs.add(q[1])
        if isinstance(q, (tuple, list)):
            for e in q:
                walk(e)
    walk(t)
    code = f.__code__.co_varnames[:f.__code__.co_argcount]
    P.ctx.check(list(code) == sorted(code) and len(set(code)) == len(code), 'wrong-arguments', lambda: f'{s}: {code}')
    P.ctx.check({c for c in code if c not in OK} <= used | funs, 'wrong-arguments', lambda: f'{s}: {code}')
    vals = []
    for c in code:
        if c in OK:
            vals.append({'sin': np.sin, 'cos': np.cos, 'exp': np.exp, 'sinh': np.sinh, 'cosh': np.cosh}[c])
        elif c in funs:
            vals.append(lambda *xs, c=c: opaque(c)(*[x * np.eye(D) for x in xs])[0, 0])
        else:
            vals.append(value(c, True)[0, 0])
    got = np.array(P.ctx.call(f, *vals), complex)
    w = want[..., 0, 0]
    P.ctx.check(near(got, w), 'wrong-value', lambda: f'lambdify({s!r}): {got.tolist()} instead of {w.tolist()}')
    P.ctx.nontrivial = True
    return ('lambdify', n, len(code))


def op_commutative(P, r):
    import qsymm
    import sympy
    from qsymm.kwant_continuum import make_commutative
    g = Gen(r, special=False)
    n = r.choice([0, 2])
    t = g.matrix(2, 2) if n else g.scalar(r.choice([1, 2, 3]))
    if not sane(ev(t)):
        return None
    s = text(t, r)
    x = P.ctx.call(qsymm.sympify, s)
    some = r.sample(NC, r.randrange(0, 5))
    syms = [sympy.Symbol(c, commutative=bool(r.randrange(2))) for c in some]
    got = P.ctx.call(make_commutative, x, *syms)
    P.compare(got, ev(t, {c: value(c, True) for c in some}), f'make_commutative({s}, {some})', scalar=some)
    return ('commutative', n, len(some))


def op_badkey(P, r):
    import qsymm
    key = r.choice(['1', 'a b', 'lambda', 'a+b', '', 'if', 3, ('x',), 'a.b', 'k-x'])
    try:
        v = qsymm.sympify('a + x', {key: '1', 'b': '2'})
        err = None
    except Exception as ex:
        err = ex
    P.ctx.check(err is not None, 'accepted', lambda: f'local name {key!r}: {v}')
    P.ctx.check(isinstance(err, ValueError) and repr(key) in str(err), 'wrong-error', lambda: f'local name {key!r}: {type(err).__name__}: {err}')
    P.ctx.nontrivial = True
    return ('badkey', str(key))


def op_badtext(P, r):
    """Malformed text is refused, the next text is read as if nothing had happened."""
    import qsymm
    s = r.choice(['k_x +* 2', '[[1, 2], [3', 'sigma_x +', '(x', 'kron(sigma_x', '[[1, 2], [3]]', ')', 'a b c +', '[[k_x, ], )'])
    try:
        v = qsymm.sympify(s)
        err = None
    except Exception as ex:
        err = ex
    P.ctx.check(err is not None, 'accepted', lambda: f'{s!r}: {v!r}')
    P.ctx.fault('malformed-text')
    import sympy
    P.ctx.check(isinstance(sympy.sympify([1, 2]), list), 'global-state', f'sympy.sympify of lists changed after {s!r}')
    return ('badtext', s)


def op_model(P, r):
    """A Model made of the text has the value of the text."""
    import qsymm
    import sympy
    g = Gen(r, nc=False, functions=False, special=False, only=r.sample(['m', 'alpha', 'mu', 'B', 't1'], 3))
    n = r.choice([2, 2, 4])
    k = Gen(r, functions=False, special=False, only=['m'])

    def coeff():
        t = g.scalar(r.choice([0, 1]))
        for _ in range(r.choice([0, 1, 2])):
            t = ('mul', t, ('sym', r.choice(['k_x', 'k_y'])))
        return t
    t = None
    for _ in range(r.choice([1, 2, 3])):
        m = g.matrix(n, 0)
        if n == 4:
            m = ('kron', [('name', 'sigma_' + r.choice('0xyz'), 2), ('name', 'sigma_' + r.choice('0xyz'), 2)])
        u = ('mul', coeff(), m)
        t = u if t is None else ('add', t, u)
    want = ev(t, scalar=True)
    if not sane(want):
        return None
    s = text(t, r)
    M = P.ctx.call(qsymm.Model, s, momenta=['k_x', 'k_y'])
    tot = np.zeros((n, n), complex)
    for key, v in M.items():
        try:
            c = judge(key, scalar=NC)
        except BadSymbol as ex:
            P.ctx.check(False, 'wrong-symbol', f'Model({s!r}): {ex}')
        tot = tot + c[0, 0] * np.asarray(v)
    P.ctx.check(near(tot, want[..., 0, 0]), 'wrong-value', lambda: f'Model({s!r}): {M}')
    P.ctx.nontrivial = True
    return ('model', n, len(M))


def op_evict(P, r):
    (seams.clear_qsymm_caches if r.random() < .5 else seams.clear_sympy_cache)()
    P.ctx.fault('cache-eviction')
    return 'evict'


def run(plan, ctx):
    P = Run(plan, ctx)
    done = []
    for name, seed in plan['ops']:
        x = globals()['op_' + name](P, rng_of('op', name, seed))
        if x is not None:
            ctx.count('op-' + (x if isinstance(x, str) else x[0]))
            done.append(x)
            ctx.event(str(x))
    ctx.sig([str(x) for x in done])
