"""Seams between the code under test and everything nondeterministic below it.

Must be installed before qsymm is imported.  Off unless a run switches a fault
kind on, in which case every draw comes from the run's seed."""
import sys
import warnings
from functools import lru_cache, wraps
import threading

import numpy as np
import scipy
import scipy.linalg
import scipy.sparse
import scipy.sparse.linalg
import sympy
import sympy.core.cache
import sympy.core.random

from .core import subseed

orig = {}


class State:
    gauge = None        # seed or None: random legal basis in degenerate subspaces
    noise = None        # seed or None: rounding-level perturbation
    calls = 0
    fail_at = None      # index of the numerical call that fails
    fail_kind = None
    ctx = None
    active = False


S = State()


def _rs():
    return np.random.RandomState(subseed('gauge', S.gauge, S.calls) % 2**32)


def _unitary(rs, n, real):
    a = rs.standard_normal((n, n))
    if not real:
        a = a + 1j * rs.standard_normal((n, n))
    q, r = orig['np.qr'](a)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def _mix(x, rs, real):
    """Columns of x in another orthonormal basis of their span."""
    n = x.shape[1]
    if n <= 24:
        return x @ _unitary(rs, n, real)
    ph = rs.choice([-1.0, 1.0], n) if real else np.exp(2j * np.pi * rs.random_sample(n))
    x = x[:, rs.permutation(n)] * ph
    for _ in range(2):      # random reflections
        w = rs.standard_normal(n) + (0 if real else 1j * rs.standard_normal(n))
        w /= np.sqrt(np.sum(np.abs(w)**2))
        x = x - 2 * np.outer(x @ w, w.conj())
    return x


def _fault(name):
    if S.ctx is not None:
        S.ctx.fault(name)


def _enter(kind):
    """Count a call; raise the scheduled failure if it is due."""
    S.calls += 1
    if S.fail_at is not None and S.calls == S.fail_at:
        k = S.fail_kind
        _fault('backend-' + k)
        if k == 'MemoryError':
            raise MemoryError('injected')
        if k == 'Arpack':
            raise scipy.sparse.linalg.ArpackNoConvergence('injected', np.zeros(0), np.zeros((0, 0)))
        raise np.linalg.LinAlgError('injected: did not converge')


def _clusters(vals, tol):
    """Index groups of (nearly) equal consecutive values."""
    groups, cur = [], [0]
    for i in range(1, len(vals)):
        if abs(vals[i] - vals[i - 1]) <= tol:
            cur.append(i)
        else:
            groups.append(cur)
            cur = [i]
    if len(vals):
        groups.append(cur)
    return groups


def _jitter(x, rs):
    if S.noise is None or x.size == 0:
        return x
    scale = 4e-16 * max(1e-300, np.max(np.abs(x)))
    return x + scale * rs.standard_normal(x.shape)


def _mix_eigh(w, v):
    rs = _rs()
    v = np.array(v)
    real = not np.iscomplexobj(v)
    norm = max(1.0, np.max(np.abs(w))) if len(w) else 1.0
    for g in _clusters(w, 1e-12 * norm):
        v[:, g] = _mix(v[:, g], rs, real)
        if len(g) > 1:
            _fault('gauge-eigh-degenerate')
    _fault('gauge-eigh')
    if S.noise is not None:
        w, v = np.sort(_jitter(np.asarray(w), rs)), _jitter(v, rs)
    return w, v


def _wrap_eigh(f):
    @wraps(f)
    def eigh(a, *args, **kw):
        if not S.active:
            return f(a, *args, **kw)
        _enter('eigh')
        r = f(a, *args, **kw)
        if S.gauge is None or not (isinstance(r, tuple) and len(r) == 2) or kw.get('b') is not None:
            return r
        w, v = r
        if np.ndim(v) != 2 or np.asarray(v).size == 0:
            return r
        w, v = _mix_eigh(w, v)
        return type(r)(w, v) if hasattr(r, '_fields') else (w, v)
    return eigh


def _wrap_svd(f):
    @wraps(f)
    def svd(a, *args, **kw):
        if not S.active:
            return f(a, *args, **kw)
        _enter('svd')
        r = f(a, *args, **kw)
        if S.gauge is None or not (isinstance(r, tuple) and len(r) == 3):
            return r
        u, s, vh = (np.array(x) for x in r)
        if u.ndim != 2 or u.size == 0 or vh.size == 0:
            return r
        rs = _rs()
        real = not (np.iscomplexobj(u) or np.iscomplexobj(vh))
        norm = max(1.0, s[0]) if len(s) else 1.0
        tol = 1e-12 * norm
        nz = int(np.sum(s > tol))
        for g in _clusters(s[:nz], tol):
            w = _unitary(rs, len(g), real)
            u[:, g] = u[:, g] @ w
            vh[g] = w.conj().T @ vh[g]
            if len(g) > 1:
                _fault('gauge-svd-degenerate')
        # null spaces on either side are free
        if u.shape[1] > nz:
            u[:, nz:] = _mix(u[:, nz:], rs, real)
        if vh.shape[0] > nz:
            vh[nz:] = _mix(vh[nz:].T, rs, real).T
            _fault('gauge-svd-null')
        _fault('gauge-svd')
        if S.noise is not None:
            s = np.sort(np.abs(_jitter(s, rs)))[::-1]
            u, vh = _jitter(u, rs), _jitter(vh, rs)
        return type(r)(u, s, vh) if hasattr(r, '_fields') else (u, s, vh)
    return svd


def _wrap_qr(f):
    @wraps(f)
    def qr(a, *args, **kw):
        if not S.active:
            return f(a, *args, **kw)
        _enter('qr')
        r = f(a, *args, **kw)
        if S.gauge is None or not (isinstance(r, tuple) and len(r) == 2):
            return r
        q, t = (np.array(x) for x in r)
        if q.ndim != 2 or t.ndim != 2 or q.shape[1] != t.shape[0] or q.size == 0:
            return r
        rs = _rs()
        k = q.shape[1]
        if np.iscomplexobj(q) or np.iscomplexobj(t):
            ph = np.exp(2j * np.pi * rs.random_sample(k))
        else:
            ph = rs.choice([-1.0, 1.0], k)
        q = q * ph
        t = ph.conj()[:, None] * t
        _fault('gauge-qr')
        return type(r)(q, t) if hasattr(r, '_fields') else (q, t)
    return qr


def _wrap_eig(f):
    @wraps(f)
    def eig(a, *args, **kw):
        if not S.active:
            return f(a, *args, **kw)
        _enter('eig')
        r = f(a, *args, **kw)
        if S.gauge is None or not (isinstance(r, tuple) and len(r) == 2):
            return r
        w, v = (np.array(x) for x in r)
        if v.ndim != 2 or v.size == 0:
            return r
        rs = _rs()
        order = rs.permutation(len(w))
        w, v = w[order], v[:, order]
        ph = np.exp(2j * np.pi * rs.random_sample(len(w))) if np.iscomplexobj(v) \
            else rs.choice([-1.0, 1.0], len(w))
        _fault('gauge-eig')
        w, v = w, v * ph
        return type(r)(w, v) if hasattr(r, '_fields') else (w, v)
    return eig


def _wrap_eigsh(f):
    @wraps(f)
    def eigsh(A, k=6, *args, **kw):
        if not S.active:
            return f(A, k, *args, **kw)
        _enter('eigsh')
        rs = np.random.RandomState(subseed('v0', S.gauge, S.calls) % 2**32)
        if kw.get('v0') is None:
            kw['v0'] = rs.standard_normal(A.shape[0])
            _fault('arpack-start-vector')
        r = f(A, k, *args, **kw)
        if S.gauge is None or not isinstance(r, tuple):
            return r
        w, v = np.array(r[0]), np.array(r[1])
        order = np.argsort(w)
        w, v = _mix_eigh(w[order], v[:, order])
        perm = rs.permutation(len(w))
        return w[perm], v[:, perm]
    return eigsh


def _wrap_plain(f, name):
    @wraps(f)
    def g(*a, **kw):
        if S.active:
            _enter(name)
        return f(*a, **kw)
    return g


def install():
    if orig:
        return
    la, nla, sla = scipy.linalg, np.linalg, scipy.sparse.linalg
    for n in ('eigh', 'svd', 'qr', 'eig', 'eigvalsh', 'inv', 'det', 'expm', 'lstsq', 'norm', 'solve', 'pinv'):
        if hasattr(la, n):
            orig['sp.' + n] = getattr(la, n)
        if hasattr(nla, n):
            orig['np.' + n] = getattr(nla, n)
    orig['eigsh'] = sla.eigsh
    for mod, pre in ((la, 'sp.'), (nla, 'np.')):
        mod.eigh = _wrap_eigh(mod.eigh)
        mod.svd = _wrap_svd(mod.svd)
        mod.qr = _wrap_qr(mod.qr)
        mod.eig = _wrap_eig(mod.eig)
    for n in ('inv', 'lstsq', 'expm', 'eigvalsh'):
        setattr(la, n, _wrap_plain(getattr(la, n), n))
    sla.eigsh = _wrap_eigsh(sla.eigsh)
    from . import sched
    sched.patch_locks()
    sys.dont_write_bytecode = True
    import qsymm  # noqa: F401
    import qsymm.groups, qsymm.model, qsymm.linalg  # noqa
    sched.unpatch_locks()
    _snapshot_module_state()


# ---------------------------------------------------------------- qsymm state
_cached = {}


def qmodules():
    return [m for n, m in sorted(sys.modules.items())
            if (n == 'qsymm' or n.startswith('qsymm.')) and '.tests' not in n and m is not None]


def cached_functions():
    """All lru caches of the library: {id: (fn, [(module, name)...])}."""
    out = {}
    for m in qmodules():
        for n, v in list(vars(m).items()):
            if hasattr(v, 'cache_clear') and hasattr(v, '__wrapped__') and \
                    getattr(v, '__module__', '').startswith('qsymm'):
                out.setdefault(id(v), (v, []))[1].append((m, n))
    return out


def _snapshot_module_state():
    _cached['orig'] = [(v, places) for v, places in cached_functions().values()]
    import qsymm.groups as g
    import qsymm.model as mo
    _cached['pge_hash'] = g.PointGroupElement.__hash__
    _cached['bc_hash'] = mo.BlochCoeff.__hash__


def clear_qsymm_caches():
    for v, _ in cached_functions().values():
        v.cache_clear()


def clear_sympy_cache():
    sympy.core.cache.clear_cache()


class SteadyCache:
    """lru_cache with the types of the arguments hashed by name.  The hash of a type is its
    address; the number of comparisons of equal hashes, each a scheduling point, would follow it."""

    def __init__(self, fn, maxsize, typed):
        self.fn, self.maxsize, self.typed, self.d = fn, maxsize, typed, {}
        wraps(fn)(self)

    def __call__(self, *a, **kw):
        key = a + (('kw',) + tuple(x for p in kw.items() for x in p) if kw else ())
        if self.typed:
            key += tuple(f'{type(v).__module__}.{type(v).__qualname__}' for v in list(a) + list(kw.values()))
        missing = self
        val = self.d.get(key, missing)
        if val is missing:
            val = self.fn(*a, **kw)
        else:
            self.d.pop(key, None)
        self.d[key] = val
        while self.maxsize is not None and len(self.d) > self.maxsize:
            self.d.pop(next(iter(self.d)), None)
        return val

    def cache_info(self):
        return None

    def cache_clear(self):
        self.d.clear()

    def cache_parameters(self):
        return {'maxsize': self.maxsize, 'typed': self.typed}


def reset(seed):
    """Bring all process-wide state to a fixed starting point."""
    import qsymm.groups as g
    import qsymm.model as mo
    from . import sched
    sched.reset_locks()
    S.active = False
    S.gauge = S.noise = S.fail_at = S.fail_kind = None
    S.calls = 0
    S.ctx = None
    g.PointGroupElement.__hash__ = _cached['pge_hash']
    mo.BlochCoeff.__hash__ = _cached['bc_hash']
    for v, places in _cached['orig']:
        for m, n in places:
            setattr(m, n, v)
    clear_qsymm_caches()
    clear_sympy_cache()
    np.random.seed(seed % 2**32)
    sympy.core.random.seed(seed % 2**32)
    warnings.resetwarnings()
    warnings.simplefilter('ignore')


def apply_env(env, ctx, steady=False):
    """Switch on the fault kinds this run was given."""
    import qsymm.groups as g
    import qsymm.model as mo
    S.ctx = ctx
    S.gauge = env.get('gauge')
    S.noise = env.get('noise')
    salt = env.get('hash')
    if salt is not None:
        h, bh = _cached['pge_hash'], _cached['bc_hash']
        g.PointGroupElement.__hash__ = lambda self: hash((salt, h(self)))
        # a coefficient equal to 1 must keep the hash of 1
        mo.BlochCoeff.__hash__ = lambda self: bh(self) if self[1] == 1 else hash((salt, bh(self)))
        ctx.fault('hash-salt')
    size = env.get('cachesize')
    for v, places in _cached['orig']:
        par = v.cache_parameters()
        if steady and par['typed']:
            small = SteadyCache(v.__wrapped__, par['maxsize'] if size is None else size, True)
        elif size is not None:
            small = lru_cache(maxsize=size, typed=par['typed'])(v.__wrapped__)
        else:
            continue
        for m, n in places:
            setattr(m, n, small)
    if size is not None:
        ctx.fault('cache-size')
    S.active = True


class paused:
    """Oracle code runs with the seams out of the way."""

    def __enter__(self):
        self.a = S.active
        S.active = False

    def __exit__(self, *a):
        S.active = self.a


def global_state():
    """Fingerprint of process-wide state that calls must not change."""
    from sympy.core.sympify import converter
    st = np.random.get_state()
    return dict(
        converter=tuple(sorted((str(k), id(v)) for k, v in converter.items())),
        errstate=tuple(sorted(np.geterr().items())),
        nprandom=(st[0], st[1].tobytes(), st[2], st[3], st[4]),
        warn=tuple(str(f[:3]) for f in warnings.filters),
        printoptions=repr(sorted(np.get_printoptions().items(), key=str)),
        recursion=sys.getrecursionlimit(),
    )
