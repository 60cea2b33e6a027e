"""Workload and oracle of the random-matrix ensembles (C14)."""
import numpy as np

from . import gen
from .core import InjectedFault, Skip, Violation, np_rng

SYMS = ['A', 'AI', 'AII', 'AIII', 'BDI', 'CII', 'D', 'DIII', 'C', 'CI']
T2 = {'CI': 1, 'AI': 1, 'BDI': 1, 'CII': -1, 'AII': -1, 'DIII': -1}
P2 = {'D': 1, 'DIII': 1, 'BDI': 1, 'C': -1, 'CI': -1, 'CII': -1}
CHIRAL = {'AIII', 'BDI', 'CII', 'DIII', 'CI'}


class DrawFault(InjectedFault):
    pass


class SimRandom(np.random.RandomState):
    """A random source owned by the simulator: everything is derived from
    `normal draws` supplied by the run; counts, and may fail at, draws."""

    def __init__(self, seed, style='gauss', fail_at=None, script=None):
        super().__init__(seed % 2**32)
        self.style, self.fail_at, self.script = style, fail_at, script
        self.ndraws = 0

    def _tick(self, n):
        for _ in range(1):
            if self.fail_at is not None and self.ndraws + n > self.fail_at:
                self.fail_at = None
                raise DrawFault('injected failure of the random source')
        self.ndraws += n

    def standard_normal(self, size=None):
        n = int(np.prod(size)) if size is not None else 1
        self._tick(n)
        if self.script is not None:
            k = self.ndraws - n
            x = np.array([self.script.get(k + i, 0.) for i in range(n)])
        else:
            x = super().standard_normal(n)
            if self.style == 'big':
                x = x * 50
            elif self.style == 'small':
                x = x * 1e-3
            elif self.style == 'int':
                x = np.rint(2 * x) + (x > 0) - .5
            elif self.style == 'outlier':
                x = np.where(super().random_sample(n) < .1, x * 8, x)
            elif self.style == 'pos':
                x = np.abs(x)
            elif self.style == 'neg':
                x = -np.abs(x)
        return x[0] if size is None else x.reshape(size)

    def randn(self, *shape):
        return self.standard_normal(shape if shape else None)

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self.standard_normal(size)

    def randint(self, *a, **kw):
        self._tick(1)
        return super().randint(*a, **kw)

    def random_sample(self, size=None):
        self._tick(1)
        return super().random_sample(size)

    def choice(self, *a, **kw):
        self._tick(1)
        return super().choice(*a, **kw)


class Duck:
    """Not a RandomState, but offers the required interface."""

    def __init__(self, rs):
        self._rs = rs

    def random_sample(self, *a, **k):
        return self._rs.random_sample(*a, **k)

    def randn(self, *a, **k):
        return self._rs.randn(*a, **k)

    def randint(self, *a, **k):
        return self._rs.randint(*a, **k)

    def choice(self, *a, **k):
        return self._rs.choice(*a, **k)

    def standard_normal(self, *a, **k):
        return self._rs.standard_normal(*a, **k)

    def normal(self, *a, **k):
        return self._rs.normal(*a, **k)


def generate(rng):
    env = gen.gen_env(rng, noise=False)
    w = rng.random()
    if w < .55:
        return dict(what='sample', seed=rng.randrange(10**6), env=env,
                    ops=[[rng.choice(['gaussian', 'circular', 'circular']), rng.choice(SYMS), rng.randrange(10**6)]
                         for _ in range(rng.randrange(2, 9))])
    if w < .75:
        return dict(what='isotropy', sym=rng.choice(SYMS), n=rng.choice([1, 2, 2, 3, 4, 4]),
                    seed=rng.randrange(10**6), env=env)
    if w < .87:
        return dict(what='reject', seed=rng.randrange(10**6), env=env,
                    ops=[rng.randrange(10**6) for _ in range(8)])
    return dict(what='haar', sym=rng.choice(SYMS), n=rng.choice([1, 2, 2, 3, 4]), seed=rng.randrange(10**6),
                env={k: v for k, v in env.items() if k != 'gauge'})


# ------------------------------------------------------- reference equations

def paulis(n):
    k = n // 2
    I = np.eye(k)
    return dict(x=np.kron(I, [[0, 1], [1, 0]]), y=np.kron(I, [[0, -1j], [1j, 0]]), z=np.kron(I, [[1, 0], [0, -1]]))


def sigmas(n):
    k = n // 4
    I = np.eye(k)
    s2 = np.eye(2)
    f = lambda m: np.kron(np.kron(I, m), s2)
    return dict(y=f([[0, -1j], [1j, 0]]))


def ham_relations(sym, n):
    """List of (matrix, conjugate, sign): H = sign * M H^(*) M^-1."""
    out = []
    tau = paulis(n) if n % 2 == 0 else None
    if sym in CHIRAL:
        out.append((tau['z'], False, -1))
    if sym == 'AI':
        out.append((np.eye(n), True, 1))
    if sym == 'BDI':
        out += [(tau['z'], True, 1), (np.eye(n), True, -1)]
    if sym == 'CI':
        out += [(tau['x'], True, 1), (tau['y'], True, -1)]
    if sym == 'AII':
        out.append((tau['y'], True, 1))
    if sym == 'CII':
        sy = sigmas(n)['y']
        out += [(sy, True, 1), (tau['z'] @ sy, True, -1)]
    if sym == 'DIII':
        out += [(tau['y'], True, 1), (tau['x'], True, -1)]
    if sym == 'C':
        out.append((tau['y'], True, -1))
    if sym == 'D':
        out.append((np.eye(n), True, -1))
    return out


def ham_ok_size(sym, n):
    if sym == 'CII':
        return n % 4 == 0
    if sym in ('A', 'AI', 'D'):
        return True
    return n % 2 == 0


def circ_ok_size(sym, n):
    return n % 2 == 0 or sym not in ('C', 'CI', 'CII', 'AII', 'DIII')


def check_ham(ctx, h, n, sym, what):
    ctx.check(isinstance(h, np.ndarray) and h.shape == (n, n), 'shape', lambda: f'{what}: {np.shape(h)}')
    ctx.check(np.all(np.isfinite(h)), 'not-finite', what)
    sc = max(1e-300, np.abs(h).max()) if h.size else 1
    near = lambda a, b: np.abs(a - b).max(initial=0) < 1e-10 * sc
    ctx.check(near(h, h.conj().T), 'not-hermitian', what)
    for M, cj, sg in ham_relations(sym, n):
        r = sg * M @ (h.conj() if cj else h) @ M.conj().T
        ctx.check(near(h, r), 'symmetry', lambda: f'{what}: {"anti" if cj else ""}unitary relation with sign {sg} fails')


def pfaffian(a):
    """Recursive Pfaffian; small matrices."""
    n = len(a)
    if n == 0:
        return 1
    return sum((-1)**(j - 1) * a[0, j] * pfaffian(np.delete(np.delete(a, [0, j], 0), [0, j], 1))
               for j in range(1, n))


def check_circ(ctx, s, n, sym, charge, what):
    ctx.check(isinstance(s, np.ndarray) and s.shape == (n, n), 'shape', lambda: f'{what}: {np.shape(s)}')
    ctx.check(np.all(np.isfinite(s)), 'not-finite', what)
    near = lambda a, b: np.abs(np.asarray(a) - b).max(initial=0) < 1e-8
    ctx.check(near(s @ s.conj().T, np.eye(n)), 'not-unitary', what)
    sy = paulis(n)['y'] if n % 2 == 0 else None
    if sym in CHIRAL:
        ctx.check(near(s, s.conj().T), 'symmetry', f'{what}: chiral')
    if sym in ('AI', 'BDI'):
        ctx.check(near(s, s.T), 'symmetry', f'{what}: time reversal')
    if sym == 'CI':
        ctx.check(near(s, -sy @ s.T @ sy), 'symmetry', f'{what}: time reversal')
        ctx.check(near(s, -sy @ s.conj() @ sy), 'symmetry', f'{what}: particle-hole')
    if sym in ('AII', 'DIII'):
        ctx.check(near(s, -s.T), 'symmetry', f'{what}: time reversal')
    if sym == 'CII':
        ctx.check(near(s, sy @ s.T @ sy), 'symmetry', f'{what}: time reversal')
    if sym in ('C', 'CII'):
        ctx.check(near(s, sy @ s.conj() @ sy), 'symmetry', f'{what}: particle-hole')
    if sym in ('D', 'BDI'):
        ctx.check(near(s, s.conj()), 'symmetry', f'{what}: particle-hole')
    if sym == 'DIII':
        ctx.check(near(s, -s.conj()), 'symmetry', f'{what}: particle-hole')
    if charge is not None:
        if sym == 'D':
            ctx.check(np.sign(np.linalg.det(s).real) == charge, 'charge', f'{what}: determinant')
        if sym == 'DIII' and n <= 8:
            ctx.check(np.sign(pfaffian(1j * s).real) == charge, 'charge', f'{what}: Pfaffian')
        if sym in ('AIII', 'BDI', 'CII'):
            neg = int(np.rint(np.sum(np.linalg.eigvalsh((s + s.conj().T) / 2) < 0)))
            ctx.check(neg == charge * (2 if sym == 'CII' else 1), 'charge',
                      f'{what}: {neg} negative eigenvalues for charge {charge}')


# ------------------------------------------------------------------ sources

def source(rs, streams):
    """(rng argument, twin maker): the twin delivers the same stream."""
    k = rs.randint(8)
    seed = int(rs.randint(2**31))
    if k == 0:
        return seed, lambda: seed, 'int'
    if k == 1:
        return np.int64(seed), lambda: seed, 'np-int'
    if k == 2:
        return np.random.RandomState(seed), lambda: np.random.RandomState(seed), 'RandomState'
    if k == 3:
        return Duck(np.random.RandomState(seed)), lambda: np.random.RandomState(seed), 'duck'
    if k == 4:
        np.random.seed(seed)
        return None, lambda: np.random.RandomState(seed), 'global'
    if k == 5:
        np.random.seed(seed)
        return np.random, lambda: np.random.RandomState(seed), 'module'
    style = ['gauss', 'big', 'small', 'int', 'outlier', 'pos', 'neg'][rs.randint(7)]
    return SimRandom(seed, style), lambda: SimRandom(seed, style), 'sim-' + style


def gstate():
    st = np.random.get_state()
    return (st[0], st[1].tobytes(), st[2:])


def run_sample(plan, ctx):
    import qsymm.kwant_rmt as rmt
    rs = np_rng('rmt', plan['seed'])
    old = []
    for fn, sym, sd in plan['ops']:
        r = np.random.RandomState(sd)
        if fn == 'gaussian':
            n = [x for x in (1, 2, 3, 4, 5, 6, 7, 8, 12) if ham_ok_size(sym, x)]
        else:
            n = [x for x in (1, 2, 3, 4, 5, 6, 7, 8) if circ_ok_size(sym, x)]
        n = n[r.randint(len(n))]
        nn = [n, n, np.int64(n), np.intp(n)][r.randint(4)]
        kw = {}
        charge = None
        v = 1.
        if fn == 'gaussian':
            if r.rand() < .4:
                v = kw['v'] = [2., .5, 3, 1e-3, 100.][r.randint(5)]
        elif r.rand() < .6:
            top = {'D': [-1, 1], 'DIII': [-1, 1], 'AIII': list(range(n + 1)), 'BDI': list(range(n + 1)),
                   'CII': list(range(n // 2 + 1))}.get(sym, [None])
            charge = top[r.randint(len(top))]
            kw['charge'] = charge
            if charge is not None and r.rand() < .3:
                kw['charge'] = np.int64(charge)
        rng, twin, how = source(r, None)
        f = getattr(rmt, fn)
        what = f'{fn}({n}, {sym!r}, {kw}) from {how}'
        g0 = gstate()
        dup = ctx.call(f, nn, sym, rng=twin(), **kw)
        ctx.check(gstate() == g0, 'global-state', f'{what}: numpy global state changed')
        if how.startswith('sim') and r.rand() < .4:
            # the random source fails in the middle of the call
            bad = SimRandom(1, fail_at=int(r.randint(0, 2 * n * n)))
            try:
                f(n, sym, rng=bad, **kw)
                ctx.count('draw-fault-late')
            except DrawFault:
                ctx.fault('random-source-failure')
            except Exception as ex:
                raise Violation('fault-masked', f'{what}: {type(ex).__name__}: {ex}')
            ctx.check(gstate() == g0, 'global-state', f'{what}: numpy global state changed by failing call')
        res = ctx.call(f, nn, sym, rng=rng, **kw)
        if how not in ('global', 'module'):
            ctx.check(gstate() == g0, 'global-state', f'{what}: numpy global state changed')
        # (bit by bit unless the simulated QR chooses other phases)
        same = np.array_equal if fn == 'gaussian' or plan['env'].get('gauge') is None else \
            (lambda a, b: np.allclose(a, b, atol=1e-9))
        ctx.check(same(res, dup), 'not-reproducible', what)
        if fn == 'gaussian':
            check_ham(ctx, res, n, sym, what)
            if 'v' in kw:
                one = ctx.call(f, nn, sym, rng=twin())
                ctx.check(np.allclose(res, one * v, rtol=1e-10, atol=0), 'scale', what)
            ctx.check(np.abs(res).max() > 0, 'zero', what) if (n > 2 or sym in ('A', 'AI')) else None
        else:
            check_circ(ctx, res, n, sym, charge, what)
        # a generator that moves on delivers something new
        if how in ('RandomState', 'duck', 'global', 'module') and fn == 'gaussian' and n > 2:
            again = ctx.call(f, nn, sym, rng=rng, **kw)
            ctx.check(not np.allclose(again, res), 'stuck', f'{what}: second draw equals the first')
        elif how == 'int':
            again = ctx.call(f, nn, sym, rng=rng, **kw)
            ctx.check(same(again, res), 'not-reproducible', what)
        # results belong to the caller: later calls leave them alone
        for o, c in old:
            ctx.check(np.array_equal(o, c), 'result-changed', f'{what} changed an earlier result')
        old.append((res, res.copy()))
        ctx.count(f'{fn}:{sym}')
        ctx.sig(fn, sym, n, how, charge, v)
    ctx.nontrivial = True


def run_isotropy(plan, ctx):
    """gaussian is linear in its draws: unit draws reveal its exact covariance."""
    import qsymm.kwant_rmt as rmt
    sym, n = plan['sym'], plan['n']
    while not ham_ok_size(sym, n):
        n += 1
    probe = SimRandom(0, script={})
    ctx.call(rmt.gaussian, n, sym, rng=probe)
    nd = probe.ndraws
    cols = []
    for k in range(nd):
        h = ctx.call(rmt.gaussian, n, sym, rng=SimRandom(0, script={k: 1.}))
        cols.append(np.concatenate([h.real.ravel(), h.imag.ravel()]))
    L = np.array(cols).T if cols else np.zeros((2 * n * n, 0))
    rs = np.random.RandomState(plan['seed'])
    x = rs.standard_normal(nd)
    h = ctx.call(rmt.gaussian, n, sym, rng=SimRandom(0, script=dict(enumerate(x))))
    lin = L @ x
    if not np.allclose(lin, np.concatenate([h.real.ravel(), np.imag(h).ravel()]), atol=1e-9):
        raise Skip('draws are not used linearly')
    C = L @ L.T
    # projector on the space of Hermitian matrices of the class
    basis = np.eye(2 * n * n)
    P = np.eye(2 * n * n)
    D = n * n

    def op(f):
        out = np.zeros((2 * D, 2 * D))
        for i in range(2 * D):
            m = (basis[i][:D] + 1j * basis[i][D:]).reshape(n, n)
            r = f(m)
            out[:, i] = np.concatenate([r.real.ravel(), r.imag.ravel()])
        return out
    ops = [op(lambda m: m.conj().T)]
    for M, cj, sg in ham_relations(sym, n):
        ops.append(op(lambda m: sg * M @ (m.conj() if cj else m) @ M.conj().T))
    for _ in range(3):
        for o in ops:
            P = (np.eye(2 * D) + o) / 2 @ P
    ctx.check(np.allclose(P @ P, P, atol=1e-9), 'oracle', 'projector')
    kappa = 4 if T2.get(sym) == -1 or P2.get(sym) == -1 else 2
    if sym in ('CI', 'DIII'):
        kappa = 4
    ctx.check(np.allclose(C, kappa * P, atol=1e-9), 'distribution',
              lambda: f'gaussian({n}, {sym!r}): covariance is not {kappa} times the projector on the class: '
              f'spectrum {np.unique(np.linalg.eigvalsh(C).round(6)).tolist()}, distance {np.abs(C - kappa * P).max():.3g}')
    ctx.count('isotropy:' + sym)
    ctx.nontrivial = True
    ctx.sig('iso', sym, n)


def run_reject(plan, ctx):
    import qsymm.kwant_rmt as rmt
    for sd in plan['ops']:
        r = np.random.RandomState(sd)
        k = r.randint(7)
        g0 = gstate()
        if k == 0:
            sym = [s for s in SYMS if s not in ('A', 'AI', 'D')][r.randint(7)]
            n = [1, 3, 5][r.randint(3)] if sym != 'CII' else [1, 2, 3, 5, 6][r.randint(5)]
            bad = lambda: rmt.gaussian(n, sym, rng=3)
            what = f'gaussian({n}, {sym})'
        elif k == 1:
            sym = ['C', 'CI', 'CII', 'AII', 'DIII'][r.randint(5)]
            n = [1, 3, 5][r.randint(3)]
            bad = lambda: rmt.circular(n, sym, rng=3)
            what = f'circular({n}, {sym})'
        elif k == 2:
            name = ['B', 'a', '', 'AIV', 'DII', None, 'BDI ', 'I'][r.randint(8)]
            f = [rmt.gaussian, rmt.circular][r.randint(2)]
            bad = lambda: f(4, name, rng=3)
            what = f'class {name!r}'
        elif k == 3:
            sym = ['D', 'DIII'][r.randint(2)]
            q = [0, 2, -2, .5, 3][r.randint(5)]
            bad = lambda: rmt.circular(4, sym, charge=q, rng=3)
            what = f'circular(4, {sym}, charge={q})'
        elif k == 4:
            sym = ['AIII', 'BDI', 'CII'][r.randint(3)]
            top = 2 if sym == 'CII' else 4
            q = [-1, top + 1, top + 3, .5, 1.5][r.randint(5)]
            bad = lambda: rmt.circular(4, sym, charge=q, rng=3)
            what = f'circular(4, {sym}, charge={q})'
        elif k == 5:
            f = [rmt.gaussian, rmt.circular][r.randint(2)]
            q = ['seed', 1.5, object(), [1], np.random.default_rng(1)][r.randint(5)]
            bad = lambda: f(4, 'A', rng=q)
            what = f'rng={q!r}'
        else:
            f = [rmt.t, rmt.p, rmt.c][r.randint(2)]
            bad = lambda: f('XX')
            what = 'class XX'
        try:
            res = bad()
        except ValueError:
            ctx.count('rejected')
        except Exception as ex:
            raise Violation('wrong-exception', f'{what}: {type(ex).__name__}: {ex}')
        else:
            raise Violation('accepted', f'{what} returned {np.shape(res)}')
        ctx.check(gstate() == g0, 'global-state', what)
        for s in SYMS:
            want = (T2.get(s, 0), P2.get(s, 0), int(s in CHIRAL))
            ctx.check((rmt.t(s), rmt.p(s), rmt.c(s)) == want, 'class-table', s)
        ctx.sig('reject', k, what.split(' at 0x')[0].split(' at 0X')[0])
    ctx.have_result = ctx.nontrivial = True


def run_haar(plan, ctx):
    """Moments of the circular ensembles; judged at 7 standard deviations."""
    import qsymm.kwant_rmt as rmt
    sym, n = plan['sym'], plan['n']
    while not circ_ok_size(sym, n):
        n += 1
    rng = np.random.RandomState(plan['seed'])
    K = 600
    smp = [ctx.call(rmt.circular, n, sym, rng=rng) for _ in range(K)]
    for s in smp[:5]:
        check_circ(ctx, s, n, sym, None, f'circular({n}, {sym!r})')
    # conjugation of s by a fixed element of the group leaves the measure of
    # each class invariant; traces and entries must agree in distribution
    tr = np.array([np.trace(s) for s in smp])

    def mean_is(x, mu, what, lo=1e-3):
        x = np.asarray(x)
        se = max(np.std(x) / np.sqrt(len(x)), lo)
        ctx.check(abs(np.mean(x) - mu) < 7 * se, 'distribution',
                  lambda: f'circular({n}, {sym!r}): mean of {what} is {np.mean(x):.3f} +- {se:.3f}, expected {mu}')
    if sym in ('A', 'D', 'C'):
        mean_is(tr.real, 0, 'the trace')
        mean_is(np.abs(tr)**2, 1, '|trace|^2')
        if sym == 'A':
            mean_is(tr.imag, 0, 'the trace')
        # every entry has mean zero and second moment 1/n
        i, j = rng.randint(n), rng.randint(n)
        mean_is([abs(s[i, j])**2 for s in smp], 1 / n, f'|s_{i}{j}|^2')
        mean_is([s[i, j].real for s in smp], 0, f's_{i}{j}')
        if sym == 'D':
            mean_is([np.sign(np.linalg.det(s)) for s in smp], 0, 'the charge')
    elif sym in ('AI',):
        i, j = rng.randint(n), rng.randint(n)
        mean_is([abs(s[i, j])**2 for s in smp], (2 if i == j else 1) / (n + 1), f'|s_{i}{j}|^2')
        mean_is(tr.real, 0, 'the trace')
        mean_is(tr.imag, 0, 'the trace')
    elif sym in ('AIII', 'BDI', 'CII'):
        m = n // 2 if sym == 'CII' else n
        q = np.array([(n - t.real) / 2 / (2 if sym == 'CII' else 1) for t in tr])
        mean_is(q, m / 2, 'the charge')
        mean_is((q - m / 2)**2, m / 4, 'the variance of the charge')
    elif sym == 'DIII':
        mean_is([np.sign(pfaffian(1j * s).real) for s in smp], 0, 'the charge')
    elif sym == 'AII':
        i, j = (0, 1)
        mean_is([s[i, j].real for s in smp], 0, 's_01')
        mean_is([abs(s[i, j])**2 for s in smp], 1 / (n - 1), '|s_01|^2')
    elif sym == 'CI':
        mean_is(tr.real, 0, 'the trace')
    ctx.count('haar:' + sym)
    ctx.nontrivial = True
    ctx.sig('haar', sym, n, plan['seed'])


def run(plan, ctx):
    {'sample': run_sample, 'isotropy': run_isotropy, 'reject': run_reject, 'haar': run_haar}[plan['what']](plan, ctx)


def shrink(plan):
    if plan.get('env'):
        yield {**plan, 'env': {}}
    if plan.get('n', 0) > 1:
        yield {**plan, 'n': plan['n'] - 1}
