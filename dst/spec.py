"""Independent reference representation of Hamiltonian families and group
elements: plain numpy, no sympy, nothing shared with the library."""
import itertools as it

import numpy as np

TOL = 1e-7


def real_R(R):
    return np.array(R).astype(float)


class G:
    """Reference point-group element."""

    def __init__(self, R, c=False, a=False, U=None):
        self.R = np.array(R, float)
        self.c, self.a = bool(c), bool(a)
        self.U = None if U is None else np.array(U, complex)

    def __mul__(self, o):
        U = None
        if self.U is not None and o.U is not None:
            U = self.U @ (o.U.conj() if self.c else o.U)
        return G(self.R @ o.R, self.c ^ o.c, self.a ^ o.a, U)

    def inv(self):
        U = None
        if self.U is not None:
            U = self.U.T if self.c else self.U.conj().T
        return G(np.linalg.inv(self.R), self.c, self.a, U)

    def same_space(self, o, tol=1e-6):
        return (self.c, self.a) == (o.c, o.a) and self.R.shape == o.R.shape and \
            np.allclose(self.R, o.R, atol=tol)

    def same_ray(self, o, tol=1e-6):
        """Equal including U up to a phase."""
        if not self.same_space(o, tol):
            return False
        if self.U is None or o.U is None:
            return self.U is o.U
        return ray_equal(self.U, o.U, tol)

    @classmethod
    def of(cls, g):
        return cls(real_R(g.R), g.conjugate, g.antisymmetry, g.U)


def ray_equal(U, V, tol=1e-6):
    n = len(U)
    return abs(abs(np.trace(U.conj().T @ V)) - n) < tol * n


def find(lst, g, ray=False):
    for x in lst:
        if (x.same_ray(g) if ray else x.same_space(g)):
            return x
    return None


def _key(g, ray):
    # offsets keep exact values such as 0.5 away from rounding boundaries
    k = (g.c, g.a, tuple(np.round(g.R.ravel() * 1e4 + .237).astype(int)))
    if ray and g.U is not None:
        u = g.U.ravel()
        i = int(np.argmax(np.abs(u) > 1e-2 / len(g.U)))
        u = u * (abs(u[i]) / u[i])
        k += (tuple(np.round(u.real * 1e4 + .237).astype(int)),
              tuple(np.round(u.imag * 1e4 + .237).astype(int)))
    return k


def close(gens, ray=False, limit=2000):
    """Closure of a set of elements (by real-space part, or up to phase of U)."""
    out = {}
    for g in gens:
        out.setdefault(_key(g, ray), g)
    gens = list(out.values())
    frontier = list(gens)
    while frontier:
        new = []
        for x in frontier:
            for y in gens:
                z = x * y
                k = _key(z, ray)
                if k not in out:
                    out[k] = z
                    new.append(z)
                    if len(out) > limit:
                        raise OverflowError('group too large')
        frontier = new
    return list(out.values())


class Spec:
    """sum over terms: parameter * (monomial or exp(i k.hop)) * matrix.

    cont keys: (param, exponents), bloch keys: (param, hop rounded)."""

    def __init__(self, kind, d, N, terms=None):
        self.kind, self.d, self.N = kind, d, N
        self.terms = {}
        for k, m in (terms or {}).items():
            self.add(k, m)

    def add(self, key, m):
        p, x = key
        if self.kind == 'bloch':
            x = tuple(float(np.round(v, 9)) + 0.0 for v in x)
        else:
            x = tuple(int(v) for v in x)
        key = (p, x)
        if key in self.terms:
            self.terms[key] = self.terms[key] + np.array(m, complex)
        else:
            self.terms[key] = np.array(m, complex)

    def clean(self, tol=1e-9):
        self.terms = {k: v for k, v in self.terms.items() if np.max(np.abs(v), initial=0) > tol}
        return self

    def params(self):
        return sorted({p for p, _ in self.terms if p is not None})

    def __add__(self, o):
        r = Spec(self.kind, self.d, self.N, self.terms)
        for k, v in o.terms.items():
            r.add(k, v)
        return r

    def __mul__(self, c):
        return Spec(self.kind, self.d, self.N, {k: c * v for k, v in self.terms.items()})

    def substitute(self, A):
        """k -> A k."""
        r = Spec(self.kind, self.d, self.N)
        for (p, x), m in self.terms.items():
            if self.kind == 'bloch':
                r.add((p, A.T @ np.array(x)) if self.d else (p, x), m)
            else:
                for e, c in poly_sub(x, A).items():
                    r.add((p, e), c * m)
        return r

    def conj(self):
        r = Spec(self.kind, self.d, self.N)
        for (p, x), m in self.terms.items():
            if self.kind == 'bloch':
                x = tuple(-v for v in x)
            r.add((p, x), m.conj())
        return r

    def conjugate_by(self, U):
        return Spec(self.kind, self.d, self.N,
                    {k: U @ v @ U.conj().T for k, v in self.terms.items()})

    def apply(self, g):
        A = np.linalg.inv(g.R) if self.d else np.zeros((0, 0))
        r = self.substitute(-A if g.c else A)
        if g.c:
            r = r.conj()
        if g.a:
            r = r * -1
        if g.U is not None:
            r = r.conjugate_by(g.U)
        return r

    def average(self, group):
        r = Spec(self.kind, self.d, self.N)
        for g in group:
            r = r + self.apply(g)
        return (r * (1 / len(group))).clean()

    def eval(self, ks, pv):
        """ks: (n, d); pv: {param: (n,) values} -> (n, N, N)."""
        ks = np.asarray(ks, float)
        n = len(ks)
        out = np.zeros((n, self.N, self.N), complex)
        for (p, x), m in self.terms.items():
            out += (self._coef(x, ks) * (pv[p] if p is not None else 1))[:, None, None] * m
        return out

    def _coef(self, x, ks):
        if self.kind == 'bloch':
            return np.exp(1j * ks @ np.array(x, float)) if self.d else np.ones(len(ks), complex)
        c = np.ones(len(ks), complex)
        for i, e in enumerate(x):
            c = c * ks[:, i]**e
        return c

    def deriv(self, ks, pv, i):
        n = len(ks)
        out = np.zeros((n, self.N, self.N), complex)
        for (p, x), m in self.terms.items():
            if self.kind == 'bloch':
                c = 1j * x[i] * self._coef(x, ks)
            elif x[i] == 0:
                continue
            else:
                y = list(x)
                y[i] -= 1
                c = x[i] * self._coef(y, ks)
            out += (c * (pv[p] if p is not None else 1))[:, None, None] * m
        return out

    def max(self):
        return max([np.max(np.abs(v)) for v in self.terms.values()], default=0)


def poly_sub(exps, A):
    """Expand prod_i ((A k)_i)^e_i into {exponents: coefficient}."""
    d = len(exps)
    res = {(0,) * d: 1.0}
    for i, e in enumerate(exps):
        for _ in range(e):
            new = {}
            for x, c in res.items():
                for j in range(d):
                    if abs(A[i, j]) < 1e-14:
                        continue
                    y = list(x)
                    y[j] += 1
                    y = tuple(y)
                    new[y] = new.get(y, 0) + c * A[i, j]
            res = new
    return res


# ------------------------------------------------------- reading library objects

def eval_expr(expr, env):
    """Evaluate a sympy expression numerically; env: {name: array}."""
    import sympy
    if isinstance(expr, (int, float, complex)):
        return expr
    if expr.is_Symbol:
        return env[expr.name]
    if expr is sympy.I:
        return 1j
    if expr.is_Number or expr.is_NumberSymbol:
        return float(expr)
    if expr.is_Add:
        r = 0
        for a in expr.args:
            r = r + eval_expr(a, env)
        return r
    if expr.is_Mul:
        r = 1
        for a in expr.args:
            r = r * eval_expr(a, env)
        return r
    if expr.is_Pow:
        b, x = expr.args
        if x.is_Integer:
            return np.asarray(eval_expr(b, env), complex) ** int(x)
        return np.asarray(eval_expr(b, env), complex) ** np.asarray(eval_expr(x, env), complex)
    name = type(expr).__name__ if not hasattr(expr, 'func') else str(expr.func)
    if name in ('exp', 'cos', 'sin', 'sqrt', 'conjugate'):
        return getattr(np, name)(np.asarray(eval_expr(expr.args[0], env), complex))
    if expr.is_number:
        return complex(expr)
    raise ValueError(f'cannot evaluate {expr!r}')


def dense(v):
    if hasattr(v, 'toarray'):
        return v.toarray()
    if isinstance(v, np.ndarray) or np.isscalar(v) or isinstance(v, complex):
        return np.asarray(v)
    return v @ np.eye(v.shape[-1], dtype=complex)


def env_of(momenta, ks, pv):
    e = {'e': np.e}
    for i, m in enumerate(momenta):
        e[getattr(m, 'name', str(m))] = np.asarray(ks)[:, i]
    e.update(pv)
    return e


def eval_model(model, momenta, ks, pv, shape=None):
    """Numerical value of a library Model/BlochModel at sample points.

    `momenta` names which sample column each momentum symbol gets."""
    n = len(ks)
    env = env_of(momenta, ks, pv)
    out = None
    for key, val in model.data.items():
        if isinstance(key, tuple):          # BlochCoeff
            hop, coeff = key
            c = np.exp(1j * np.asarray(ks)[:, :len(hop)] @ np.asarray(hop, float)) * eval_expr(coeff, env)
        else:
            c = eval_expr(key, env)
        v = np.asarray(dense(val), complex)
        c = np.broadcast_to(np.asarray(c, complex), (n,)).reshape((n,) + (1,) * v.ndim)
        t = c * v
        out = t if out is None else out + t
    if out is None:
        sh = shape if shape is not None else (model.shape or ())
        out = np.zeros((n,) + tuple(sh), complex)
    return out


def sample(rs, n, d, params, lo=0.3, hi=1.5, kscale=1.0):
    ks = rs.uniform(lo, hi, (n, d)) * rs.choice([-1, 1], (n, d)) * kscale
    pv = {p: rs.uniform(0.5, 1.5, n) * rs.choice([-1, 1], n) for p in params}
    return ks, pv


# --------------------------------------------------------------- linear algebra

def rank_gap(s, scale=None, lo=1e-7, hi=1e-4):
    """Rank from singular values; None when ambiguous."""
    s = np.asarray(s, float)
    if len(s) == 0:
        return 0
    scale = scale or max(s[0], 1e-300)
    r = s / scale
    if np.any((r > lo) & (r < hi)):
        return None
    return int(np.sum(r >= hi))


def null_real(M):
    """Null space (rows) of a real matrix, plus ambiguity flag."""
    from .seams import orig
    if M.shape[0] == 0:
        return np.eye(M.shape[1]), False
    u, s, vh = orig['np.svd'](M, full_matrices=True)
    sc = s[0] if len(s) and s[0] > 1e-9 else 1.0
    r = rank_gap(s, sc)
    if r is None:
        return None, True
    return vh[r:].conj(), False


def row_basis(M, lo=1e-7, hi=1e-4):
    from .seams import orig
    M = np.atleast_2d(M)
    if M.size == 0 or np.max(np.abs(M)) < 1e-12:
        return np.zeros((0, M.shape[1])), False
    u, s, vh = orig['np.svd'](M, full_matrices=False)
    r = rank_gap(s, lo=lo, hi=hi)
    if r is None:
        return None, True
    return vh[:r], False


def in_span(B, v, tol=1e-5):
    """B: orthonormal rows; v rows. Largest relative distance from the span."""
    v = np.atleast_2d(v)
    if v.size == 0:
        return 0.0
    r = v - (v @ B.conj().T) @ B if len(B) else v
    nv = np.sqrt(np.sum(np.abs(v)**2, axis=1))
    nr = np.sqrt(np.sum(np.abs(r)**2, axis=1))
    return float(np.max(nr / np.maximum(nv, 1e-12)))


def ri(x):
    """Real vector of a complex array."""
    x = np.asarray(x, complex).ravel()
    return np.concatenate([x.real, x.imag])


def herm_basis(n):
    out = []
    for i in range(n):
        m = np.zeros((n, n), complex)
        m[i, i] = 1
        out.append(m)
    for i, j in it.combinations(range(n), 2):
        m = np.zeros((n, n), complex)
        m[i, j] = m[j, i] = 1
        out.append(m)
        m = np.zeros((n, n), complex)
        m[i, j], m[j, i] = 1j, -1j
        out.append(m)
    return out


def intertwiners(As, Bs):
    """Null space of X A_i = B_i X (complex), ambiguity flag."""
    from .seams import orig
    n = As[0].shape[0]
    I = np.eye(n)
    rows = [np.kron(I, A.T) - np.kron(B, I) for A, B in zip(As, Bs)]
    # accumulate the Gram matrix: n^2 x n^2
    Mx = np.vstack(rows)
    if Mx.shape[0] > Mx.shape[1]:
        Mx = orig['np.qr'](Mx, mode='r')
    u, s, vh = orig['np.svd'](Mx)
    sc = max(s[0], 1e-9) if len(s) else 1.0
    r = rank_gap(s, max(sc, 1e-6), lo=1e-8, hi=1e-4)
    if r is None:
        return None, True
    return [v.conj().reshape(n, n) for v in vh[r:]], False
