"""Workload and oracles of the Hamiltonian-family properties C05-C08."""
import itertools as it

import numpy as np

from . import gen
from .core import Skip, Violation, np_rng
from .spec import (G, Spec, close, env_of, eval_expr, eval_model, herm_basis, in_span, null_real, poly_sub,
                   rank_gap, ri, row_basis)

MATS = {}


def hbasis(n):
    """Orthonormal Hermitian basis as columns of a (n*n, n*n) matrix."""
    if n not in MATS:
        b = np.array([m / np.linalg.norm(m) for m in herm_basis(n)])
        MATS[n] = b
    return MATS[n]


def cbasis(n):
    key = ('c', n)
    if key not in MATS:
        b = np.eye(n * n).reshape(n * n, n, n)
        MATS[key] = np.concatenate([b, 1j * b])
    return MATS[key]


# ------------------------------------------------------------------ generation

def gen_group_desc(rng, d, maxN, lat=None, spatial=None):
    names = [s for s in gen.SPATIAL_BY_DIM[d] if lat is None or gen.SPATIAL[s][1] == lat]
    cands = [b for b in ([[0, 1]], [[1, 1]], [[0, 2]], [[2, 1]], [[1, 2]], [[3, 1]], [[0, 3]], [[0, 1], [1, 1]],
                         [[0, 1], [0, 1]], [[1, 1], [1, 1]], [[2, 1], [0, 1]], [[0, 4]])
             if sum((x[0] + 1) * x[1] for x in b) <= maxN]
    return dict(spatial=spatial or rng.choice(names), blocks=rng.choice(cands), gseed=rng.randrange(10**6),
                internal=''.join(x for x in 'TPC' if rng.random() < .3),
                **({'magnetic': rng.choice(['m', 'a', 'ma'])} if rng.random() < .2 else {}))


def dim_of(desc):
    return sum((b[0] + 1) * b[1] for b in desc['blocks'])


def pick_elements(desc, pick, n, phases=False, onsite=True):
    """A few elements of the planted group."""
    els = gen.group_of(desc)
    rs = np_rng('pick', pick)
    if not onsite:
        els = [g for g in els if g.c or g.a or not np.allclose(g.R, np.eye(len(g.R)))]
    if not els:
        return []
    out = [els[i] for i in rs.permutation(len(els))[:n]]
    if phases:
        out = [G(g.R, g.c, g.a, g.U * np.exp(2j * np.pi * rs.rand())) for g in out]
    return out


def cont_gens(desc, spec, N):
    """[(A or None, L)] with R = i A."""
    d = gen.SPATIAL[desc['spatial']][0]
    rs = np_rng('cgg', spec['seed'])
    out = []
    for kind in spec['kinds']:
        if kind == 'rot' and d >= 2:
            if d == 2:
                A, ax = np.array([[0., 1], [-1, 0]]), np.array([0, 0, 1.])
            else:
                ax = rs.standard_normal(3) if rs.rand() < .5 else np.eye(3)[rs.randint(3)]
                ax = ax / np.linalg.norm(ax)
                A = np.array([[0, ax[2], -ax[1]], [-ax[2], 0, ax[0]], [ax[1], -ax[0], 0]])
            L = gen.block_diag([np.kron(sum(x * s for x, s in zip(ax, gen.spin_ops(b[0] / 2))), np.eye(b[1]))
                                for b in desc['blocks']])
            if spec.get('flip'):
                A = -A
            out.append((A, L))
        elif kind == 'q':
            V = gen.rand_unitary(rs, N) if rs.rand() < .5 else np.eye(N)
            out.append((None, (V * rs.choice([0., 1., 2.], N)) @ V.conj().T))
    return out


def lib_cgg(c, d):
    import qsymm
    A, L = c
    return qsymm.ContinuousGroupGenerator(None if A is None else 1j * A, L)


def gen_powers(rng, d):
    top = 3 if d <= 2 else 2
    tp = rng.choice([rng.randrange(top + 1), [rng.randrange(top + 1)], sorted(rng.sample(range(top + 1), 2))])
    ap = None
    r = rng.random()
    if d and r < .2:
        ap = [rng.randrange(3) for _ in range(d + rng.choice([0, 0, 1]))]
    elif d and r < .4:
        ap = [sorted(rng.sample(range(4), rng.choice([1, 2, 3]))) for _ in range(d)]
    return tp, ap


def degrees(tp):
    return list(range(tp + 1)) if isinstance(tp, int) else list(tp)


def allowed(d, deg, ap):
    out = []
    for e in it.product(range(deg + 1), repeat=d):
        if sum(e) != deg:
            continue
        if ap is not None and not all((x <= p) if isinstance(p, int) else (x in p) for x, p in zip(e, ap)):
            continue
        out.append(e)
    return out


def gen_continuum(rng, pairing=False):
    d = rng.choice([0, 1, 2, 2, 3, 3])
    maxN = rng.choice([1, 2, 2, 3, 4] if not pairing else [1, 2, 2, 3])
    if d == 3:
        maxN = min(maxN, 3)
    desc = gen_group_desc(rng, d, maxN)
    if pairing:
        desc['internal'] = desc['internal'].replace('P', '') if rng.random() < .7 else desc['internal']
    plan = dict(group=desc, pick=rng.randrange(10**6), n=rng.choice([1, 1, 2, 2, 3]), phases=rng.random() < .3,
                env=gen.gen_env(rng))
    plan['total_power'], plan['all_powers'] = gen_powers(rng, d)
    if rng.random() < .35:
        plan['cont'] = dict(kinds=rng.choice([['rot'], ['q'], ['rot', 'q'], ['rot', 'rot']]),
                            seed=rng.randrange(10**6), flip=rng.random() < .2)
        if rng.random() < .3:
            plan['n'] = 0
    plan['order'] = rng.randrange(10**6)
    plan['container'] = rng.choice(['list', 'tuple', 'list', 'iter'])
    plan['names'] = rng.choice([None, None, ['q', 'p', 'w'], ['k_y', 'k_z', 'k_x'], ['a_1', 'b', 'k_x']])
    plan['names_as'] = rng.choice(['str', 'sym', 'nc'])
    plan['prettify'] = rng.random() < .35
    plan['num_digits'] = rng.choice([10, 10, 8, 6])
    plan['sparse_linalg'] = rng.random() < .2
    plan['exact'] = rng.random() < .5
    return plan


def names_arg(plan, d):
    import sympy
    if not plan.get('names'):
        return {}
    n = plan['names']
    if plan['names_as'] == 'sym':
        n = [sympy.Symbol(x, commutative=True) for x in n]
    elif plan['names_as'] == 'nc':
        n = [sympy.Symbol(x, commutative=False) for x in n]
    return dict(momenta=n)


def container(kind, lst, rs=None):
    if kind == 'iter':
        return iter(lst)
    return {'list': list, 'tuple': tuple, 'set': set}[kind](lst)


# ------------------------------------------------------------ reference spaces

def act(basis, M):
    """Matrix (in coordinates of an orthonormal real basis) of a real-linear map."""
    im = np.array([M(b) for b in basis])
    n = len(basis)
    Bv = np.concatenate([basis.reshape(n, -1).real, basis.reshape(n, -1).imag], axis=1)
    Iv = np.concatenate([im.reshape(n, -1).real, im.reshape(n, -1).imag], axis=1)
    return Bv @ Iv.T       # [i, j] = <b_i, M b_j>


def subst_matrix(mons, out, A):
    idx = {e: i for i, e in enumerate(out)}
    P = np.zeros((len(out), len(mons)))
    for j, e in enumerate(mons):
        for y, c in poly_sub(e, A).items():
            P[idx[y], j] += c
    return P


def deriv_matrix(mons, out, A):
    """k^e -> sum_i d_i(k^e) (A k)_i"""
    idx = {e: i for i, e in enumerate(out)}
    P = np.zeros((len(out), len(mons)))
    d = len(A)
    for j, e in enumerate(mons):
        for i in range(d):
            if e[i] == 0:
                continue
            for l in range(d):
                if A[i, l] == 0:
                    continue
                y = list(e)
                y[i] -= 1
                y[l] += 1
                P[idx[tuple(y)], j] += e[i] * A[i, l]
    return P


def invariant_space(d, deg, ap, basis, els, conts, extra=()):
    """Rows: coordinates (monomial x basis) of invariant functions.
    els: [(R, conj, sign, matrix map)], conts: [(A, matrix map)]."""
    mons = allowed(d, deg, ap)
    full = allowed(d, deg, None)
    idx = {e: i for i, e in enumerate(full)}
    nb = len(basis)
    if not mons:
        return mons, np.zeros((0, 0))
    E = np.zeros((len(full), len(mons)))
    for j, e in enumerate(mons):
        E[idx[e], j] = 1
    rows = []
    for R, c, sign, mp in els:
        A = np.linalg.inv(R) if d else np.zeros((0, 0))
        P = subst_matrix(mons, full, -A if c else A)
        rows.append(sign * np.kron(P, act(basis, mp)) - np.kron(E, np.eye(nb)))
    for A, mp in conts:
        r = np.kron(E, act(basis, mp))
        if A is not None:
            r = r - np.kron(deriv_matrix(mons, full, A), np.eye(nb))
        rows.append(r)
    M = np.vstack(rows) if rows else np.zeros((0, len(mons) * nb))
    if M.shape[0] > M.shape[1] > 0:
        from .seams import orig
        M = orig['np.qr'](M, mode='r')
    ns, amb = null_real(M)
    if amb:
        raise Skip('numerically ambiguous constraint')
    return mons, ns


def space_vectors(mons, ns, basis, ks):
    """Values at sample points of every reference function: (n, points*N*N)."""
    out = []
    vals = np.array([np.prod(ks**np.array(e), axis=1) if len(e) else np.ones(len(ks)) for e in mons])
    for v in ns:
        c = v.reshape(len(mons), len(basis))
        mats = np.einsum('mb,bij->mij', c, basis)
        out.append(np.einsum('mp,mij->pij', vals, mats).ravel())
    n = basis.shape[1]
    return np.array(out).reshape(len(ns), len(ks) * n * n)


def judge_family(ctx, vecs, want, what, tol=1e-5):
    """vecs: real rows of the result, want: real rows spanning the truth."""
    B, amb = row_basis(want) if len(want) else (np.zeros((0, vecs.shape[1] if len(vecs) else 0)), False)
    if amb:
        raise Skip('numerically ambiguous reference span')
    for i, v in enumerate(vecs):
        ctx.check(np.all(np.isfinite(v)), 'malformed-result', f'{what}: member {i} is not finite')
        ctx.check(np.linalg.norm(v) > 1e-6, 'dependent', f'{what}: member {i} vanishes')
        r = in_span(B, v)
        ctx.check(r < tol, 'outside-span', lambda: f'{what}: member {i} of {len(vecs)} has a component {r:.2e} '
                  f'outside the {len(B)}-dimensional allowed space')
    ctx.check(len(vecs) == len(B), 'wrong-number',
              lambda: f'{what}: {len(vecs)} members, the allowed space has dimension {len(B)}')
    if len(vecs):
        nv = vecs / np.linalg.norm(vecs, axis=1)[:, None]
        s = np.linalg.svd(nv, compute_uv=False)
        ctx.check(s[-1] > 1e-6 * s[0], 'dependent', lambda: f'{what}: singular values {s[-3:]}')
    return len(B)


def eval_family(fam, names, ks, N):
    if not fam:
        return np.zeros((0, 2 * len(ks) * N * N))
    return np.array([ri(eval_model(m, names, ks, {}, shape=(N, N))) for m in fam])


def sparse_must_work(n, nullity):
    """Whether the ARPACK iteration can succeed."""
    return n >= 4


def setup_continuum(plan):
    import qsymm
    desc = plan['group']
    N = dim_of(desc)
    d = gen.SPATIAL[desc['spatial']][0]
    els = pick_elements(desc, plan['pick'], plan['n'], plan['phases']) if plan['n'] else []
    conts = cont_gens(desc, plan['cont'], N) if plan.get('cont') else []
    if not els and not conts:
        els = [G(np.eye(d), U=np.eye(N))]
    lib = [gen.lib_element(g, U=True, exactR=plan['exact']) for g in els] + [lib_cgg(c, d) for c in conts]
    return desc, N, d, els, conts, lib


def sample_points(plan, d, n):
    return np_rng('sample', plan['run_seed']).uniform(-1.3, 1.3, (n, d))


def is_arpack(ex):
    """ARPACK itself gave up (depends on its start vector), loudly."""
    from scipy.sparse.linalg import ArpackError
    return isinstance(ex, ArpackError)


def call_sparse(ctx, plan, feasible, fn, *a, **kw):
    if not plan['sparse_linalg']:
        return ctx.call(fn, *a, **kw)
    try:
        return ctx.call(fn, *a, sparse_linalg=True, **kw)
    except Violation as v:
        if feasible and not is_arpack(v.__cause__):
            raise
        ctx.count('sparse-solver-refused')
        return None


def run_continuum(plan, ctx):
    import qsymm
    desc, N, d, els, conts, lib = setup_continuum(plan)
    perm = np_rng('order', plan['order']).permutation(len(lib))
    syms = container(plan['container'], [lib[i] for i in perm])
    basis = hbasis(N)

    def map_of(g):
        return lambda b: g.U @ (b.conj() if g.c else b) @ g.U.conj().T
    rel = [(g.R, g.c, -1 if g.a else 1, map_of(g)) for g in els]
    rcont = [(A, (lambda L: lambda b: 1j * (b @ L - L @ b))(L)) for A, L in conts]
    degs = degrees(plan['total_power'])
    spaces = [invariant_space(d, g, plan['all_powers'], basis, rel, rcont) for g in degs]
    feasible = all(sparse_must_work(len(m) * len(basis), len(ns)) for m, ns in spaces)
    kw = dict(prettify=plan['prettify'], num_digits=plan['num_digits'], **names_arg(plan, d))
    if plan['all_powers'] is not None:
        kw['all_powers'] = plan['all_powers']
    fam = call_sparse(ctx, plan, feasible, qsymm.continuum_hamiltonian, syms, d, plan['total_power'], **kw)
    if fam is None:
        raise Skip('sparse solver refused a small or weakly constrained problem')
    fam = list(fam)
    names = gen.momenta_for(d, plan['names'])
    for m in fam:
        ctx.check(tuple(getattr(x, 'name', str(x)) for x in m.momenta) == tuple(names), 'wrong-momenta', lambda: str(m.momenta))
        ctx.check(m.shape == (N, N), 'wrong-shape', lambda: str(m.shape))
    ks = sample_points(plan, d, 2 + max([len(allowed(d, g, None)) for g in degs]) + sum(len(allowed(d, g, None)) for g in degs))
    want = np.concatenate([space_vectors(m, ns, basis, ks) for m, ns in spaces if len(ns)] or
                          [np.zeros((0, len(ks) * N * N), complex)])
    want = np.array([ri(w) for w in want]).reshape(len(want), 2 * len(ks) * N * N)
    vecs = eval_family(fam, names, ks, N)
    tol = 1e-5 if not plan['prettify'] else max(1e-5, 10.0**(3 - plan['num_digits']))
    n = judge_family(ctx, vecs, want, 'continuum_hamiltonian', tol)
    tot = sum(len(m) for m, _ in spaces) * len(basis)
    ctx.event('family', n, tot)
    ctx.sig(desc['spatial'], N, len(els), len(conts), str(plan['total_power']), str(plan['all_powers']), n, plan['prettify'], plan['sparse_linalg'])
    ctx.nontrivial = 0 < n < tot
    ctx.count('family-members', n)
    if len(conts):
        ctx.count('with-continuous-symmetry')


# --------------------------------------------------------------------- pairing

def gen_pairing(rng):
    plan = gen_continuum(rng, pairing=True)
    plan['ph_square'] = rng.choice([1, -1])
    plan['container'] = rng.choice(['list', 'tuple'])
    plan['phs'] = rng.choice([None, None, 'sign', 'phase'])
    plan['phs_seed'] = rng.randrange(10**6)
    return plan


def run_pairing(plan, ctx):
    import qsymm
    desc, N, d, els, conts, lib = setup_continuum(plan)
    rs = np_rng('phases', plan['phs_seed'])
    if plan['phs'] is None:
        ph = [1.0] * len(lib)
    elif plan['phs'] == 'sign':
        ph = [float(x) for x in rs.choice([-1, 1], len(lib))]
    else:
        ph = [complex(np.exp(2j * np.pi * rs.randint(8) / 8)) if i < len(els) else float(rs.randint(-1, 2))
              for i in range(len(lib))]
    allrel = []
    basis = cbasis(N)
    for g, p in zip(els, ph):
        allrel.append((g.R, g.c, -1 if g.a else 1, (lambda g, p: lambda b: np.conj(p) * g.U @ (b.conj() if g.c else b) @ g.U.T)(g, p)))
    s = plan['ph_square']
    allrel.append((np.eye(d), True, -1, lambda b: s * b.T))     # conj of the BdG matrix transposes the block
    rcont = []
    for (A, L), p in zip(conts, ph[len(els):]):
        rcont.append((A, (lambda L, p: lambda b: 1j * (b @ (-L.conj() + p * np.eye(N)) - L @ b))(L, p)))
    perm = np_rng('order', plan['order']).permutation(len(lib))
    syms = container(plan['container'], [lib[i] for i in perm])
    phases = [ph[i] for i in perm]
    degs = degrees(plan['total_power'])
    spaces = [invariant_space(d, g, plan['all_powers'], basis, allrel, rcont) for g in degs]
    feasible = all(sparse_must_work(len(m) * len(basis), len(ns)) for m, ns in spaces)
    kw = dict(prettify=plan['prettify'], num_digits=plan['num_digits'], ph_square=s, **names_arg(plan, d))
    if plan['phs'] is not None:
        kw['phases'] = phases
    if plan['all_powers'] is not None:
        kw['all_powers'] = plan['all_powers']
    before = [np.array(g.U) for g in syms]
    fam = call_sparse(ctx, plan, feasible, qsymm.continuum_pairing, syms, d, plan['total_power'], **kw)
    for g, U in zip(syms, before):
        ctx.check(np.array_equal(g.U, U), 'argument-changed', lambda: repr(g))
    if fam is None:
        raise Skip('sparse solver refused a small or weakly constrained problem')
    fam = list(fam)
    names = gen.momenta_for(d, plan['names'])
    for m in fam:
        got = tuple(getattr(x, 'name', str(x)) for x in m.momenta)
        if got != tuple(names):
            if got == gen.MOM:
                if 'pairing-default-momenta' not in getattr(ctx, 'known', []):
                    ctx.known = getattr(ctx, 'known', []) + ['pairing-default-momenta']
            else:
                raise Violation('wrong-momenta', str(m.momenta))
        ctx.check(m.shape == (N, N), 'wrong-shape', lambda: str(m.shape))
    ks = sample_points(plan, d, 2 + sum(len(allowed(d, g, None)) for g in degs))
    want = np.concatenate([space_vectors(m, ns, basis, ks) for m, ns in spaces if len(ns)] or
                          [np.zeros((0, len(ks) * N * N), complex)])
    want = np.array([ri(w) for w in want]).reshape(len(want), 2 * len(ks) * N * N)
    vecs = eval_family(fam, names, ks, N)
    tol = 1e-5 if not plan['prettify'] else max(1e-5, 10.0**(3 - plan['num_digits']))
    n = judge_family(ctx, vecs, want, 'continuum_pairing', tol)
    tot = sum(len(m) for m, _ in spaces) * len(basis)
    ctx.event('family', n, tot)
    ctx.sig(desc['spatial'], N, len(els), len(conts), s, str(plan['phs']), str(plan['total_power']), str(plan['all_powers']), n)
    ctx.nontrivial = 0 < n < tot / 2
    ctx.count('family-members', n)


# ----------------------------------------------------------------- tight binding

def gen_bloch(rng):
    d = rng.choice([1, 2, 2, 2, 3])
    maxN = rng.choice([1, 2, 2, 3, 4])
    spatial = rng.choice([s for s in gen.SPATIAL_BY_DIM[d] if s not in ('3.oh', '3.o', '3.td', '3.d3d')])
    desc = gen_group_desc(rng, d, maxN, spatial=spatial)
    plan = dict(group=desc, pick=rng.randrange(10**6), n=rng.choice([1, 1, 2, 2, 3]), env=gen.gen_env(rng),
                symmetrize=rng.random() < .6, bloch_model=rng.random() < .5, onsites=rng.random() < .6,
                prettify=rng.random() < .5, num_digits=rng.choice([10, 8, 6]), order=rng.randrange(10**6),
                nhop=rng.choice([1, 1, 2, 3]), hseed=rng.randrange(10**6), split=rng.randrange(10**6),
                norbs_as=rng.choice(['tuple', 'odict', 'list']), vec_as=rng.choice(['exact', 'exact', 'float']),
                cont=rng.random() < .25, cseed=rng.randrange(10**6),
                names=rng.choice([None, None, ['q', 'p', 'w'], ['k_y', 'k_z', 'k_x']]),
                names_as=rng.choice(['str', 'sym', 'nc']), closed=rng.random() < .5, exact=rng.random() < .6)
    if rng.random() < .1:
        plan['n'] = 0
    if not plan['bloch_model']:
        plan['exact'], plan['vec_as'] = True, 'exact'
    return plan


def run_bloch(plan, ctx):
    import collections
    import qsymm
    desc = plan['group']
    d, lat, _ = gen.SPATIAL[desc['spatial']]
    N = dim_of(desc)
    els = pick_elements(desc, plan['pick'], plan['n'], onsite=False) if plan['n'] else []
    group = None
    if plan['symmetrize'] and els:
        # exact closure including the unitary part (double groups stay double)
        while els:
            group = exact_closure(els, 130 if plan['bloch_model'] else 48)
            if group is not None:
                break
            els = els[:-1]
    if not els:
        group = [G(np.eye(d), U=np.eye(N))]
    rs = np_rng('sites', plan['split'])
    # orbitals -> sites
    sites, left = [], N
    while left:
        n = int(rs.randint(1, left + 1)) if len(sites) < 2 else left
        sites.append((['A', 'B', 'C'][len(sites)], n))
        left -= n
    sl, o = {}, 0
    for s, n in sites:
        sl[s] = slice(o, o + n)
        o += n
    names_s = [s for s, _ in sites]
    # conserved quantities, block diagonal and compatible with the group
    conts = []
    if plan['cont']:
        crs = np_rng('cons', plan['cseed'])
        Q = np.zeros((N, N), complex)
        for s in names_s:
            n = sl[s].stop - sl[s].start
            V = gen.rand_unitary(crs, n) if crs.rand() < .5 else np.eye(n)
            Q[sl[s], sl[s]] = (V * crs.choice([0., 1.], n)) @ V.conj().T
        full = exact_closure(els, 400) if els else [G(np.eye(d), U=np.eye(N))]
        if full is not None:
            sg = 1 if crs.rand() < .5 else -1
            Q = sum((sg if g.c else 1) * g.U @ (Q.conj() if g.c else Q) @ g.U.conj().T for g in full) / len(full)
            off = Q.copy()
            for s in names_s:
                off[sl[s], sl[s]] = 0
            if np.max(np.abs(off)) > 1e-9:
                # the documented assumption: one block per site
                sites = [('A', N)]
                sl, names_s = {'A': slice(0, N)}, ['A']
            if np.max(np.abs(Q)) > 1e-6:
                conts = [Q]
    hrs = np_rng('hops', plan['hseed'])
    lh = gen.lattice_hops(d, lat)
    hops = []
    for _ in range(plan['nhop']):
        a, b = (names_s[hrs.randint(len(names_s))] for _ in range(2))
        v = np.array(lh[hrs.randint(len(lh))], float) * hrs.choice([1, -1])
        hops.append((a, b, v))
        if plan['closed'] and els and not plan['symmetrize']:
            for g in close([G(x.R) for x in els])[:12]:
                for p in names_s[:2]:
                    for q in names_s[:2]:
                        w = g.R @ v
                        if all(not (p == x and q == y and np.allclose(w, z)) for x, y, z in hops):
                            hops.append((p, q, w))
    hops = hops[:8 if not plan['symmetrize'] else 3]
    onsites = plan['onsites']
    size = dict(sites)

    def cost():
        n = sum(2 * size[a] * size[b] for a, b, _ in hops) + (sum(2 * size[s]**2 for s in names_s) if onsites else 0)
        keys = len({tuple(np.round(x * v, 6) + 0.) for _, _, v in hops for x in (1, -1)}) + 1
        m = len(group) if plan['symmetrize'] and els else 12
        if plan['bloch_model']:
            # keys of BlochModels are compared one by one
            return max(n * m, n * n * keys * keys / 20)
        return 3 * n * m
    while cost() > 700 and len(hops) > 1:
        hops.pop()
    if cost() > 700:
        onsites = False

    def vec(v):
        if plan['vec_as'] == 'float':
            return [float(x) for x in v] if hrs.rand() < .5 else tuple(float(x) for x in v)
        return [gen.exact(x) for x in v]
    lib_hops = [(a, b, vec(v)) for a, b, v in hops]
    lib_syms = [gen.lib_element(g, U=True, exactR=plan['exact']) for g in els] + \
        [qsymm.ContinuousGroupGenerator(None if i % 2 else np.zeros((d, d)), Q) for i, Q in enumerate(conts)]
    perm = np_rng('order', plan['order']).permutation(len(lib_syms))
    lib_syms = [lib_syms[i] for i in perm]
    norbs = {'tuple': tuple, 'list': list, 'odict': collections.OrderedDict}[plan['norbs_as']](sites)
    ctx.event('input', len(hops), len(els), None if group is None else len(group))
    fam = ctx.call(qsymm.bloch_family, lib_hops, lib_syms, norbs, onsites=onsites, symmetrize=plan['symmetrize'],
                   prettify=plan['prettify'], num_digits=plan['num_digits'], bloch_model=plan['bloch_model'],
                   **names_arg(plan, d))
    fam = list(fam)
    names = gen.momenta_for(d, plan['names'])
    cls = qsymm.BlochModel if plan['bloch_model'] else qsymm.Model
    for m in fam:
        ctx.check(type(m) is cls, 'wrong-format', lambda: str(type(m)))
        ctx.check(tuple(getattr(x, 'name', str(x)) for x in m.momenta) == tuple(names), 'wrong-momenta', lambda: str(m.momenta))
    # reference
    terms = []
    allhops = hops + ([(s, s, np.zeros(d)) for s in names_s] if onsites else [])
    for a, b, v in allhops:
        n, m = sl[a].stop - sl[a].start, sl[b].stop - sl[b].start
        for i in range(n):
            for j in range(m):
                for c in (1, 1j):
                    M = np.zeros((N, N), complex)
                    M[sl[a].start + i, sl[b].start + j] = c
                    s = Spec('bloch', d, N)
                    s.add(((None), tuple(v)), M)
                    s.add(((None), tuple(-v)), M.conj().T)
                    terms.append(s.clean())
    terms = [s for s in terms if s.terms]

    def vectors(specs, keys=None):
        keys = keys or sorted({k for s in specs for k in s.terms}, key=str)
        z = np.zeros((N, N), complex)
        return keys, np.array([np.concatenate([ri(s.terms.get(k, z)) for k in keys]) for s in specs]).reshape(len(specs), -1)
    keys, V = vectors(terms)
    B, amb = row_basis(V)
    if amb:
        raise Skip('numerically ambiguous reference span')
    base = unvector(B, keys, N, d)
    if conts:
        base = combine(base, [[Spec('bloch', d, N, {k: 1j * (m @ Q - Q @ m) for k, m in s.terms.items()}) for s in base]
                              for Q in conts], vectors)
    if plan['symmetrize']:
        base = [s.average(group) for s in base]
        base = [s for s in base if s.terms]
    elif els and base:
        base = combine(base, [[s.apply(g) + s * -1 for s in base] for g in els], vectors)
    nk = max(6, 2 * len({k for s in base for k in s.terms}) + 4)
    ks = sample_points(plan, d, nk) * 3
    W = np.array([ri(s.eval(ks, {})) for s in base]).reshape(len(base), 2 * nk * N * N)
    vecs = np.array([ri(eval_model(m, names, ks, {}, shape=(N, N))) for m in fam]).reshape(len(fam), 2 * nk * N * N)
    tol = max(1e-5, 10.0**(3 - plan['num_digits'])) if plan['prettify'] or plan['symmetrize'] else 1e-5
    n = judge_family(ctx, vecs, W, 'bloch_family', tol)
    ctx.event('family', n, len(B))
    ctx.sig(desc['spatial'], N, len(sites), len(els), len(conts), plan['symmetrize'], plan['bloch_model'], onsites, n, len(B))
    ctx.nontrivial = 0 < n and bool(els or conts)
    ctx.count('family-members', n)
    ctx.count('symmetrized' if plan['symmetrize'] else 'constrained')
    if conts:
        ctx.count('with-conserved-quantity')


def exact_closure(els, limit):
    """Closure including the exact unitary part; None if too large."""
    out, seen = [], set()

    def key(g):
        return (g.c, g.a, tuple(np.round(g.R.ravel() * 1e4 + .237).astype(int)),
                tuple(np.round(g.U.real.ravel() * 1e4 + .237).astype(int)),
                tuple(np.round(g.U.imag.ravel() * 1e4 + .237).astype(int)))
    frontier = []
    for g in els:
        if key(g) not in seen:
            seen.add(key(g))
            out.append(g)
            frontier.append(g)
    gens = list(out)
    while frontier:
        new = []
        for x in frontier:
            for y in gens:
                z = x * y
                k = key(z)
                if k not in seen:
                    seen.add(k)
                    out.append(z)
                    new.append(z)
                    if len(out) > limit:
                        return None
        frontier = new
    return out


def unvector(B, keys, N, d, kind='bloch'):
    out = []
    for v in B:
        s = Spec(kind, d, N)
        for k, w in zip(keys, v.reshape(len(keys), 2, N * N)):
            s.add(k, (w[0] + 1j * w[1]).reshape(N, N))
        out.append(s.clean())
    return out


def combine(base, images, vectors):
    """Members of span(base) on which all the given image maps vanish."""
    if not base:
        return base
    keys = sorted({k for im in images for s in im for k in s.terms}, key=str)
    if not keys:
        return base
    M = np.concatenate([vectors(im, keys)[1].T for im in images])
    if M.shape[0] > M.shape[1]:
        from .seams import orig
        M = orig['np.qr'](M, mode='r')
    ns, amb = null_real(M)
    if amb:
        raise Skip('numerically ambiguous constraint')
    out = []
    for v in ns:
        s = Spec(base[0].kind, base[0].d, base[0].N)
        for c, b in zip(v, base):
            if abs(c) > 1e-14:
                s = s + b * c
        out.append(s.clean())
    return out


# ----------------------------------------------------------------- family tools

TOOLS = ['constrain', 'constrain', 'duplicates', 'duplicates', 'subtract', 'subtract', 'subtract-bad', 'pretty', 'check', 'check-bad', 'chain',
         'combine', 'combine', 'average', 'average', 'round', 'tolerance']


def gen_tools(rng):
    kind = rng.choice(['cont', 'cont', 'bloch'])
    d = rng.choice([0, 1, 2, 2, 3] if kind == 'cont' else [1, 2, 2, 3])
    desc = gen_group_desc(rng, d, rng.choice([1, 2, 2, 3, 4]))
    plan = dict(kind=kind, group=desc, tool=rng.choice(TOOLS), seed=rng.randrange(10**6), env=gen.gen_env(rng),
                powers=rng.choice([[0, 1], [0, 1, 2], [1], [2], [1, 2]]), bloch=kind == 'bloch' and rng.random() < .6,
                nmem=rng.choice([1, 2, 3, 5, 8]), extra=rng.choice([0, 0, 1, 2, 4]), pick=rng.randrange(10**6),
                n=rng.choice([1, 2, 3]), style=rng.choice(['gauss', 'int', 'real', 'sparse']),
                params=rng.choice([[None], [None], ['m'], [None, 'm']]), sparse=rng.random() < .15,
                num_digits=rng.choice([4, 6, 8, 10]), sparse_linalg=False, pretty=rng.random() < .3,
                names=rng.choice([None, None, ['q', 'p', 'w'], ['k_y', 'k_z', 'k_x']]), cont=rng.random() < .2, order=rng.randrange(10**6))
    if rng.random() < .15:
        plan['sparse_linalg'] = True
    return plan


def random_member(rs, plan, d, lat, N):
    s = Spec(plan['kind'], d, N)
    for _ in range(rs.randint(1, 4)):
        p = plan['params'][rs.randint(len(plan['params']))]
        if plan['kind'] == 'cont':
            ms = gen.monomials(d, plan['powers'][rs.randint(len(plan['powers']))])
            if not ms:
                ms = [(0,) * d]
            s.add((p, ms[rs.randint(len(ms))]), gen.rand_herm(rs, N, plan['style']))
        else:
            hs = gen.lattice_hops(d, lat)
            h = hs[rs.randint(len(hs))]
            m = gen.rand_herm(rs, N, plan['style'])
            if any(abs(x) > 1e-9 for x in h):
                m = m + 1j * gen.rand_herm(rs, N, plan['style'])
                s.add((p, h), m)
                s.add((p, tuple(-x for x in h)), m.conj().T)
            else:
                s.add((p, h), m)
    return s.clean()


def lincomb(specs, c):
    out = Spec(specs[0].kind, specs[0].d, specs[0].N)
    for x, s in zip(c, specs):
        if abs(x) > 1e-14:
            out = out + s * x
    return out.clean()


def vec_of(specs, keys, N):
    z = np.zeros((N, N), complex)
    return np.array([np.concatenate([ri(s.terms.get(k, z)) for k in keys]) if keys else np.zeros(0) for s in specs]).reshape(len(specs), 2 * N * N * len(keys))


def independent(specs, N):
    keys = sorted({k for s in specs for k in s.terms}, key=str)
    V = vec_of(specs, keys, N)
    if not len(V):
        return True
    n = np.linalg.norm(V, axis=1)
    if np.any(n < 1e-9):
        return False
    s = np.linalg.svd(V / n[:, None], compute_uv=False)
    return len(s) >= len(V) and s[-1] > 1e-2


def run_tools(plan, ctx):
    import qsymm
    hg = qsymm.hamiltonian_generator
    desc = plan['group']
    d, lat, _ = gen.SPATIAL[desc['spatial']]
    N = dim_of(desc)
    rs = np_rng('tools', plan['seed'])
    els = pick_elements(desc, plan['pick'], plan['n']) or [G(np.eye(d), U=np.eye(N))]
    group = None
    base = []
    tool = plan['tool']
    charge = None
    if tool in ('check', 'check-bad') and plan['cont']:
        # members that conserve an onsite charge instead
        els = [G(np.eye(d), U=np.eye(N))]
        V = gen.rand_unitary(rs, N) if rs.rand() < .7 else np.eye(N)
        charge = V, rs.choice([-1., 0., 1.], N)
    for i in range(plan['nmem'] * 2):
        if len(base) >= plan['nmem']:
            break
        s = random_member(rs, plan, d, lat, N)
        if not s.terms:
            continue
        if tool in ('check', 'check-bad', 'constrain', 'chain') and (tool != 'constrain' or rs.rand() < .5):
            # symmetric member, possibly hidden in a combination below
            group = group or close(els, ray=True, limit=400)
            t = s.average(group)
            if charge:
                V, q = charge
                same = q[:, None] == q
                t = Spec(t.kind, d, N, {k: V @ ((V.conj().T @ m @ V) * same) @ V.conj().T for k, m in t.terms.items()})
                t = Spec(t.kind, d, N, {k: m for k, m in t.terms.items() if np.abs(m).max() > 1e-9})
            if t.terms:
                s = t
            elif tool in ('check', 'check-bad'):
                continue
        if independent(base + [s], N):
            base.append(s)
    if not base:
        raise Skip('empty family')
    if tool in ('constrain', 'chain') and len(base) > 1:
        # hide the symmetric directions
        Q = gen.rand_unitary(rs, len(base)).real + np.eye(len(base))
        if abs(np.linalg.det(Q)) > .05:
            base = [lincomb(base, q) for q in Q]
            base = [s for s in base if s.terms]
            if not independent(base, N):
                raise Skip('dependent family')
    names = gen.momenta_for(d, plan['names'])

    def lib(s):
        return gen.to_model(s, sparse=False, bloch=plan['bloch'], names=plan['names'], order=plan['order'])
    lib_els = [gen.lib_element(g, U=True, exactR=plan['kind'] == 'bloch' and not plan['bloch'] or rs.rand() < .5) for g in els]
    fam = list(base)
    for _ in range(plan['extra']):
        if tool in ('duplicates', 'subtract'):
            fam.append(lincomb(base, rs.choice([-1, 0, 1, 2], len(base)).astype(float) if rs.rand() < .5 else rs.standard_normal(len(base))))
            if not fam[-1].terms:
                fam.pop()
    fam = [fam[i] for i in np_rng('order', plan['order']).permutation(len(fam))]
    pnames = sorted({p for s in fam for p in s.params()})
    nk = 2 * len({k for s in fam for k in s.terms}) + 6
    kp = np_rng('sample', plan['run_seed'])
    ks = kp.uniform(-1.3, 1.3, (nk, d)) * (3 if plan['kind'] == 'bloch' else 1)
    pv = {p: kp.uniform(.5, 1.5, nk) * kp.choice([-1, 1], nk) for p in pnames + ['zz']}

    def rv(specs):
        return np.array([ri(s.eval(ks, pv)) for s in specs]).reshape(len(specs), 2 * nk * N * N)

    def lv(models):
        return np.array([ri(eval_model(m, names, ks, pv, shape=(N, N))) for m in models]).reshape(len(models), 2 * nk * N * N)
    libfam = [lib(s) for s in fam]
    keys = sorted({k for s in fam for k in s.terms}, key=str)
    if plan['bloch'] and tool in ('constrain', 'chain') and len(keys) * len(els) > 60:
        # every lookup compares all keys of the same coefficient
        raise Skip('many hoppings')
    ctx.sig(tool, plan['kind'], plan['bloch'], desc['spatial'], N, len(base), len(fam), len(els))
    ctx.count('tool: ' + tool)

    def vecs(specs, kk=None):
        kk = kk or sorted({k for s in specs for k in s.terms}, key=str)
        return kk, vec_of(specs, kk, N)
    if tool in ('constrain', 'chain'):
        images = [[s.apply(g) + s * -1 for s in fam] for g in els]
        libs = list(lib_els)
        if plan['cont']:
            L = gen.rand_unitary(rs, N)
            L = (L * rs.choice([0., 1.], N)) @ L.conj().T
            images.append([Spec(s.kind, d, N, {k: 1j * (m @ L - L @ m) for k, m in s.terms.items()}) for s in fam])
            libs.append(qsymm.ContinuousGroupGenerator(None, L))
        want = combine(fam, images, vecs)
        if tool == 'chain':
            # any order of constraints, one at a time, gives the same space
            res = libfam
            for i in np_rng('perm', plan['order']).permutation(len(libs)):
                res = ctx.call(hg.constrain_family, [libs[i]], res)
        else:
            res = call_sparse(ctx, plan, sparse_must_work(len(fam), len(want)), hg.constrain_family, iter(libs) if rs.rand() < .2 else libs, libfam)
            if res is None:
                raise Skip('sparse solver refused a small or weakly constrained problem')
        n = judge_family(ctx, lv(list(res)), rv(want), 'constrain_family')
        ctx.nontrivial = 0 < n < len(fam)
    elif tool == 'duplicates':
        res = ctx.call(hg.remove_duplicates, libfam)
        n = judge_family(ctx, lv(res), rv(fam), 'remove_duplicates')
        ctx.nontrivial = len(fam) > len(base)
    elif tool == 'tolerance':
        # members with known singular values, on either side of the tolerance
        E = np.linalg.qr(vec_of(base, keys, N).T)
        co = np.linalg.inv(E[1].T)
        E = [lincomb(base, c) for c in co]
        tol = [1e-8, 1e-8, 1e-6, 1e-4, 1e-2, .3][rs.randint(6)]
        sv = np.array([[1., .5, 2., .03, 1e-3, 2e-5, 3e-7, 0.][rs.randint(8)] for _ in E])
        if np.any((sv > tol / 5) & (sv < tol * 5)):
            raise Skip('singular values near the tolerance')
        Q = np.linalg.qr(rs.standard_normal((len(E) + plan['extra'],) * 2))[0][:, :len(E)]
        mixed = [lincomb(E, q * sv) for q in Q]
        if not all(s.terms for s in mixed):
            raise Skip('vanishing member')
        res = ctx.call(hg.remove_duplicates, [lib(s) for s in mixed], **({} if tol == 1e-8 and rs.rand() < .7 else dict(tol=tol)))
        kept = np.sort(sv[sv > tol])
        ctx.check(len(res) == len(kept), 'wrong-dimension', lambda: f'remove_duplicates with tol={tol}: {len(res)} members of singular values {sv.tolist()}')
        if len(kept):
            T, R = rv([e for e, x in zip(E, sv) if x > tol]), lv(res)
            C = np.linalg.lstsq(T.T, R.T, rcond=None)[0]
            ctx.check(np.allclose(C.T @ T, R, rtol=0, atol=1e-8) and np.allclose(np.sort(np.linalg.svd(C, compute_uv=False)), kept, rtol=1e-3, atol=1e-8),
                      'wrong-span', lambda: f'remove_duplicates with tol={tol}: singular values {sv.tolist()}')
        ctx.nontrivial = 0 < len(kept) < len(sv)
    elif tool in ('subtract', 'subtract-bad'):
        V = vec_of(fam, keys, N)
        k = int(rs.randint(1, len(base) + 1))
        f2 = [lincomb(base, rs.standard_normal(len(base))) for _ in range(k)]
        # optional orthogonal part: another parameter
        if rs.rand() < .4:
            f2.append(Spec(fam[0].kind, d, N, {('zz', k0[1]): m for k0, m in base[0].terms.items()}))
        if tool == 'subtract-bad':
            # not inside, not orthogonal
            extra = random_member(rs, plan, d, lat, N)
            f2[0] = f2[0] + extra
        f2 = [s for s in f2 if s.terms]
        if not f2:
            raise Skip('empty family')
        allk = sorted({k for s in fam + f2 for k in s.terms}, key=str)
        A, B2 = vec_of(fam, allk, N), vec_of(f2, allk, N)
        b1, a1 = row_basis(A)
        b2, a2 = row_basis(B2, lo=1e-6, hi=1e-2)
        if a1 or a2:
            raise Skip('numerically ambiguous span')
        proj = b1 - (b1 @ b2.T) @ b2
        out = proj - (proj @ b1.T) @ b1
        bad = np.max(np.abs(out), initial=0)
        if 1e-9 < bad < 1e-3:
            raise Skip('numerically ambiguous subfamily')
        lib2 = [lib(s) for s in f2]
        if bad > 1e-3:
            # the promise is an error
            try:
                r = hg.subtract_family(libfam, lib2, prettify=plan['pretty'])
            except ValueError:
                ctx.have_result = True
                ctx.count('refused as promised')
                ctx.nontrivial = True
                ctx.event('refused')
                return
            except Exception as ex:
                raise Violation('call-failed', f'subtract_family raised {type(ex).__name__}: {ex}')
            raise Violation('error-expected', f'subtract_family returned {len(r)} members although family2 is not a subfamily')
        res = ctx.call(hg.subtract_family, libfam, lib2, prettify=plan['pretty'])
        pb, amb = row_basis(proj) if len(proj) else (proj, False)
        if amb:
            raise Skip('numerically ambiguous remainder')
        # remainder = projection of span(fam)
        rem = unvector(pb, allk, N, d, plan['kind'])
        judge_family(ctx, lv(res), rv(rem), 'subtract_family', 1e-4)
        ctx.nontrivial = 0 < len(rem) < len(base)
    elif tool == 'round':
        nd = int(rs.choice([0, 1, 2, 3, 5]))
        if rs.rand() < .4:       # entries about as large as the last digit
            big = [max(np.abs(np.array(v)).max() for v in m.values()) for m in libfam]
            libfam = [m * (rs.uniform(.55, 1.4) * 10.0**-nd / x) if x > 0 else m for m, x in zip(libfam, big)]
        res = ctx.call(hg.round_family, libfam, nd)
        ctx.check(len(res) == len(libfam), 'lost-member', f'round_family returned {len(res)} of {len(libfam)} members')
        for a, b in zip(res, libfam):
            for k in set(a.keys()) | set(b.keys()):
                x, y = np.array(a[k]), np.array(b[k])
                e = x - y
                bad = max(np.abs(e.real).max(), np.abs(e.imag).max())
                ctx.check(bad <= .5 * 10.0**-nd + 1e-8, 'wrong-rounding', lambda: f'{k}: off by {bad:.2e} after rounding to {nd} digits')
                left = np.abs(x - np.around(x, nd)).max()
                ctx.check(left < 1e-12 * max(1, np.abs(x).max()), 'wrong-rounding', lambda: f'{k}: not rounded to {nd} digits')
        ctx.nontrivial = True
    elif tool == 'combine':
        run_combine(plan, ctx, rs, libfam, fam, names, ks, pv, pnames, N)
    elif tool == 'average':
        grp = close(els, ray=True, limit=200)
        libg = [gen.lib_element(g, U=True, exactR=plan['kind'] == 'bloch' and not plan['bloch']) for g in grp]
        i = int(rs.randint(len(fam)))
        box = rs.choice(['list', 'tuple'])
        res = ctx.call(hg.symmetrize_monomial, libfam[i], libg if box == 'list' else tuple(libg))
        want = fam[i].average(grp)
        bad = np.abs(lv([res]) - rv([want])).max()
        ctx.check(bad < 1e-6 * max(1, np.abs(rv([fam[i]])).max()), 'wrong-average', lambda: f'symmetrize_monomial over {len(grp)} elements off by {bad:.2e}')
        ctx.nontrivial = len(grp) > 1
    elif tool == 'pretty':
        nd = plan['num_digits']
        res = ctx.call(hg.make_basis_pretty, libfam, num_digits=nd)
        tol = max(1e-6, 10.0**(-nd) * 1e2)
        judge_family(ctx, lv(res), rv(fam), 'make_basis_pretty', tol)
        ctx.nontrivial = len(fam) > 1
    else:
        tgt = None
        bad = []
        fam2 = list(fam)
        if tool == 'check-bad':
            i = int(rs.randint(len(fam2)))
            e = random_member(rs, plan, d, lat, N)
            if e.max() < 1e-6:
                raise Skip('empty perturbation')
            fam2[i] = fam2[i] + e * (float(rs.choice([1, .1, .01])) / e.max())
        viol = max((x.apply(g) + x * -1).max() for g in els for x in fam2)
        libs = list(lib_els)
        if charge:
            V, q = charge
            L = (V * q) @ V.conj().T
            viol = max([viol] + [np.abs(m @ L - L @ m).max() for x in fam2 for m in x.terms.values()])
            libs = libs[:rs.randint(2)] + [qsymm.ContinuousGroupGenerator(None if rs.rand() < .5 else np.zeros((d, d)), L)]
        if 1e-10 < viol < 3e-3:
            raise Skip('numerically ambiguous symmetry')
        ok = viol < 1e-9
        # rounding, but not to the size of the violation
        nd = rs.choice([None, 3, 4, 6, 8]) if ok else rs.choice([None, 5, 6, 8])
        libf = [lib(s) for s in fam2]
        if nd:
            libf = ctx.call(hg.round_family, libf, int(nd))
        try:
            hg.check_symmetry(libf, libs, num_digits=nd and int(nd))
            ctx.have_result = True
            got = True
        except ValueError as ex:
            got = False
            ctx.have_result = True
        except Exception as ex:
            raise Violation('call-failed', f'check_symmetry raised {type(ex).__name__}: {ex}')
        ctx.event('check', got, ok)
        ctx.check(got == ok, 'wrong-verdict', lambda: f'check_symmetry {"accepted" if got else "rejected"} a family whose largest violation is {viol:.2e}')
        ctx.nontrivial = len(els) > 1 or charge is not None or not ok
        if nd:
            ctx.count('rounded first')
        if charge:
            ctx.count('with-continuous-symmetry')
        ctx.count('accepted' if got else 'rejected')
    ctx.event('done')


def run_combine(plan, ctx, rs, libfam, fam, names, ks, pv, pnames, N):
    """hamiltonian_from_family is the sum of coefficient times member, whatever the coefficients."""
    import sympy
    from qsymm.hamiltonian_generator import hamiltonian_from_family
    kind = rs.choice(['default', 'symbols', 'repeated', 'numbers', 'mixed', 'params', 'short'])
    n = len(libfam)
    sym = [sympy.Symbol(f'{x}{i}', real=bool(rs.randint(2))) for i, x in enumerate(rs.choice(['c', 'alpha', 'E_'], n))]
    if kind == 'default':
        coeffs, sym = None, list(sympy.symbols(f'c0:{n}'))
    elif kind == 'symbols':
        coeffs = [sym[i] for i in rs.permutation(n)]
    elif kind == 'repeated':
        coeffs = [sym[i] for i in rs.randint(max(1, n // 2), size=n)]
    elif kind == 'numbers':
        coeffs = [sympy.Rational(int(a), int(b)) for a, b in rs.randint(1, 6, (n, 2))]
    elif kind == 'mixed':
        coeffs = [[s, s**2, -s, 2 * s, s * sym[0], sympy.Integer(0), sympy.I * s][rs.randint(7)] for s in sym]
    elif kind == 'params':
        # the very parameters the members contain
        coeffs = [sympy.Symbol(rs.choice(pnames)) if pnames else s for s in sym]
    else:
        try:
            hamiltonian_from_family(libfam, coeffs=sym + sym[:1])
        except Exception:
            ctx.have_result = ctx.nontrivial = True
            ctx.event('refused')
            return
        raise Violation('error-expected', 'hamiltonian_from_family accepted more coefficients than members')
    tosympy = bool(rs.rand() < .6) and plan['kind'] == 'cont' or bool(rs.rand() < .3) and not plan['bloch']
    ns = bool(rs.rand() < .5) and sum(m.size for x in fam for m in x.terms.values()) < 150
    kw = {} if coeffs is None else dict(coeffs=coeffs if rs.rand() < .7 else tuple(coeffs))
    res = ctx.call(hamiltonian_from_family, libfam if rs.rand() < .7 else tuple(libfam), tosympy=tosympy, nsimplify=ns, **kw)
    nk = len(ks)
    env = env_of(names, ks, pv)
    env.update({s.name: rs.uniform(.5, 1.5, nk) for s in sym})
    cs = [np.broadcast_to(np.asarray(eval_expr(c, env), complex), (nk,)) for c in (coeffs or sym)]
    want = sum(c[:, None, None] * s.eval(ks, pv) for c, s in zip(cs, fam))
    if tosympy:
        ctx.check(isinstance(res, sympy.MatrixBase) and res.shape == (N, N) or not np.abs(want).max() > 1e-9, 'wrong-type',
                  lambda: f'hamiltonian_from_family returned {type(res).__name__} {getattr(res, "shape", "")}')
        if not isinstance(res, sympy.MatrixBase):
            got = np.zeros_like(want)
        else:
            got = np.array([[np.broadcast_to(np.asarray(eval_expr(res[i, j], env), complex), (nk,)) for j in range(N)] for i in range(N)])
            got = np.moveaxis(got, 2, 0)
    else:
        got = eval_model(res, names, ks, {k: v for k, v in env.items()}, shape=(N, N))
    bad = np.abs(got - want).max()
    ctx.check(bad < 1e-6 * max(1, np.abs(want).max()), 'wrong-sum', lambda: f'hamiltonian_from_family with {kind} coefficients off by {bad:.2e}')
    ctx.nontrivial = n > 1
    ctx.count('coefficients: ' + kind)


def shrink(plan):
    g = plan['group']
    for ch in g.get('internal', ''):
        yield {**plan, 'group': {**g, 'internal': g['internal'].replace(ch, '')}}
    if 'magnetic' in g:
        yield {**plan, 'group': {k: v for k, v in g.items() if k != 'magnetic'}}
    if plan.get('n', 0) > 1:
        yield {**plan, 'n': plan['n'] - 1}
    for k in ('sparse_linalg', 'prettify', 'phases', 'cont', 'bloch_model', 'closed', 'onsites', 'bloch', 'sparse', 'pretty'):
        if plan.get(k):
            yield {**plan, k: False}
    for k in ('names', 'all_powers', 'phs'):
        if plan.get(k) is not None:
            yield {**plan, k: None}
    for k in ('nhop', 'nmem'):
        if plan.get(k, 1) > 1:
            yield {**plan, k: plan[k] - 1}
    if plan.get('extra'):
        yield {**plan, 'extra': plan['extra'] - 1}
