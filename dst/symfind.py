"""Workload and oracles shared by the symmetry-finder properties C01-C04."""
import math

import numpy as np

from . import gen, seams
from .core import Skip, Violation, np_rng
from .spec import (G, Spec, close, dense, find, herm_basis, intertwiners, null_real,
                   poly_sub, rank_gap, real_R, ri, sample)


# ------------------------------------------------------------------ generation

def gen_candidates(rng, spatial, kind, group=True):
    """Description of a candidate set."""
    d, lat, _ = gen.SPATIAL[spatial]
    r = rng.random()
    if r < .12:
        return {'mode': 'none'}
    tr, ph = rng.random() < .6, rng.random() < .5
    names = [n for n in gen.SPATIAL_BY_DIM[d] if gen.SPATIAL[n][1] == lat or n.endswith('.1')]
    big = {(2, 'int'): '2.c4v', (2, 'hex'): '2.c6v', (3, 'int'): '3.oh', (3, 'hex'): '3.d3d',
           (1, 'int'): '1i', (0, 'any'): '0'}[(d, lat)]
    name = rng.choice([big, big, spatial] + names)
    if name == '3.oh' and rng.random() < .6:
        name = rng.choice(['3.td', '3.o', '3.d2', '3.t'])
    c = dict(mode='own', spatial=name, tr=tr, ph=ph, order=rng.randrange(10**6),
             container=rng.choice(['list', 'set', 'tuple', 'frozenset']),
             exact=rng.random() < .6)
    if d in (2, 3) and rng.random() < .3:
        if lat == 'int':
            c.update(mode='lib', fn='square' if d == 2 else 'cubic')
            if d == 3:
                c['ph'] = False
                c['tr'] = rng.random() < .3
        else:
            c.update(mode='lib', fn='hexagonal', sympy_R=rng.random() < .6)
    if not group:
        c['keep'] = rng.choice([.2, .4, .6])
    elif rng.random() < .15:
        # group in which operators only occur combined with another flag
        c['twist'] = rng.choice(['c', 'a', 'ca'])
    return c


def build_candidates(desc, d):
    """Library candidates and their reference counterparts."""
    import qsymm
    if desc['mode'] == 'none':
        ref = close([G(np.eye(d), True, False), G(np.eye(d), True, True)])
        return None, ref
    if desc['mode'] == 'lib':
        fn = getattr(qsymm.groups, desc['fn'])
        kw = dict(tr=desc['tr'], ph=desc['ph'])
        if desc['fn'] == 'hexagonal':
            kw.update(dim=d, sympy_R=desc['sympy_R'])
        els = sorted(fn(**kw))
        ref = [G.of(g) for g in els]
        for g in ref:
            g.U = None
    else:
        gens = [G(R) for R in gen.SPATIAL[desc['spatial']][2]]
        one = np.eye(d)
        if desc.get('twist') and gens:
            gens[0] = G(gens[0].R, 'c' in desc['twist'], 'a' in desc['twist'])
        if desc['tr']:
            gens.append(G(one, True, False))
        if desc['ph']:
            gens.append(G(one, True, True))
        ref = close(gens or [G(one)])
        els = [gen.lib_element(g, exactR=desc['exact']) for g in ref]
    perm = np_rng('order', desc['order']).permutation(len(els))
    els, ref = [els[i] for i in perm], [ref[i] for i in perm]
    if desc.get('keep'):
        n = max(1, int(len(els) * desc['keep']))
        els, ref = els[:n], ref[:n]
    cont = {'list': list, 'set': set, 'tuple': tuple, 'frozenset': frozenset}[desc['container']]
    return cont(els), ref


def gen_plan(rng, which):
    kind = 'cont' if which == 'C04' else rng.choice(['cont', 'cont', 'bloch'])
    maxN = rng.choice([2, 3, 4, 4, 6, 6, 6] if kind == 'cont' else [2, 3, 4, 4, 6])
    if which == 'C03':
        maxN = rng.choice([3, 4, 6, 6, 8])
    sysd = gen.gen_system(rng, kind=kind, maxN=maxN)
    if which in ('C04',) or (which == 'C03' and rng.random() < .2):
        if rng.random() < .8:
            sysd = gen_rot_system(rng, maxN)
    d, lat, _ = gen.SPATIAL[sysd['spatial']] if 'spatial' in sysd else (sysd['d'], 'any', [])
    plan = dict(sys=sysd, env=gen.gen_env(rng))
    plan['sparse'] = rng.random() < .2
    plan['sparse_linalg'] = rng.random() < .15
    plan['bloch'] = kind == 'bloch' and rng.random() < .6
    plan['order'] = rng.randrange(10**6)
    plan['names'] = rng.choice([None, None, None, ['q', 'p', 'w'], ['k_y', 'k_z', 'k_x'], ['a_1', 'b', 'k_x']])
    if which in ('C01', 'C02'):
        plan['cand'] = gen_candidates(rng, sysd.get('spatial', '2.1'), kind, group=which == 'C02' or rng.random() < .5)
        if kind == 'bloch' and not plan['bloch']:
            # exact arithmetic is documented as required here
            plan['cand']['exact'] = True
            if plan['cand'].get('fn') == 'hexagonal':
                plan['cand']['sympy_R'] = True
        plan['generators'] = rng.random() < .4
        plan['entry'] = rng.choice(['symmetries', 'symmetries', 'discrete_symmetries'])
        if plan['cand']['mode'] == 'none':
            plan['entry'] = 'symmetries'
        plan['rot'] = rng.random() < .1 and kind == 'cont'
    plan['prettify'] = rng.random() < .4
    return plan


def gen_rot_system(rng, maxN):
    d = rng.choice([2, 3, 3])
    comps, left = [], maxN
    kinds = {2: ['k2', 'soc', 'soc', 'dirac', 'aniso', 'const'], 3: ['k2', 'dot', 'dot', 'dot2', 'axial', 'aniso', 'const', 'cubic']}[d]
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        tw = rng.choice([0, 1, 1, 2, 3])
        n = tw + 1
        if n > left:
            continue
        c = dict(terms=[rng.choice(kinds) for _ in range(rng.choice([1, 2]))], tj=tw,
                 split=rng.random() < .7)
        if rng.random() < .3 and 2 * n <= left:
            c['mult'] = 2
            n *= 2
        if rng.random() < .3:
            c['axis'] = rng.randrange(10**6)
        comps.append(c)
        left -= n
    if not comps:
        comps = [dict(terms=['k2'], tj=0, split=False)]
    if rng.random() < .15:
        # several blocks, some of the same dimension, in any order of dimensions
        tws = rng.choice([[1, 1, 1], [1, 1, 1], [1, 1, 0], [2, 1, 1], [1, 2, 1], [1, 1, 1, 1], [2, 2, 0], [1, 0, 1, 0]])
        tws = rng.sample(tws, len(tws))
        comps = [dict(terms=[rng.choice(kinds[:-2] if rng.random() < .9 else kinds)] + ([rng.choice(kinds)] if rng.random() < .2 else []), tj=t, split=True) for t in tws]
    desc = dict(rot=True, d=d, comps=comps)
    if rng.random() < .5:
        desc['krot'] = rng.randrange(10**6)
    if rng.random() < .6:
        desc['scramble'] = rng.randrange(10**6)
    return desc


def build_rot(desc):
    d = desc['d']
    specs = []
    cnt = 0
    for c in desc['comps']:
        S = gen.spin_ops(c['tj'] / 2)
        n = c['tj'] + 1
        ax = np.array([0, 0, 1.])
        if c.get('axis') is not None and d == 3:
            ax = np_rng('axis', c['axis']).standard_normal(3)
            ax /= np.linalg.norm(ax)
        s = Spec('cont', d, n)
        one = np.eye(n)

        def e(*idx):
            x = [0] * d
            for i in idx:
                x[i] += 1
            return tuple(x)
        for t in c['terms']:
            p = f'p{cnt}' if c['split'] else 'p0'
            cnt += 1
            if t == 'const':
                s.add((p, e()), S[2] if d == 2 else one)
            elif t == 'k2':
                for i in range(d):
                    s.add((p, e(i, i)), one)
            elif t == 'soc':
                s.add((p, e(0)), S[1])
                s.add((p, e(1)), -S[0])
            elif t in ('dot', 'dirac'):
                for i in range(d):
                    s.add((p, e(i)), S[i])
            elif t == 'dot2':
                for i in range(d):
                    for j in range(d):
                        s.add((p, e(i, j)), (S[i] @ S[j] + S[j] @ S[i]) / 2)
            elif t == 'axial':
                for i in range(3):
                    for j in range(3):
                        s.add((p, e(i, j)), ax[i] * ax[j] * one)
            elif t == 'aniso':
                s.add((p, e(0, 0)), one)
                if n > 1:
                    s.add((p, e(1)), S[0])
            elif t == 'cubic':
                for i in range(3):
                    s.add((p, e(i, i)), S[i] @ S[i] + one * .3)
        specs.append(gen.with_mult(s, c.get('mult', 1)))
    H = gen.direct_sum(specs)
    if desc.get('krot') is not None:
        Q = gen.rand_unitary(np_rng('k', desc['krot']), d).real
        Q, _ = np.linalg.qr(np_rng('krot', desc['krot']).standard_normal((d, d)))
        H = H.substitute(Q)
    if desc.get('scramble') is not None:
        H = H.conjugate_by(gen.rand_unitary(np_rng('scramble', desc['scramble']), H.N))
    return H.clean()


def build(plan):
    s = plan['sys']
    if s.get('rot'):
        return build_rot(s)
    H = gen.build_system(s)
    while len(H.terms) * H.N**2 > 1800:
        # keep the linear systems of one run small
        if len(s['params']) > 1:
            s = {**s, 'params': s['params'][:-1]}
        elif s.get('nhops', 1) > 1:
            s = {**s, 'nhops': s['nhops'] - 1}
        elif len(s['comps']) > 1:
            s = {**s, 'comps': s['comps'][:-1]}
        else:
            break
        H = gen.build_system(s)
    return H


def model_of(plan, H):
    return gen.to_model(H, sparse=plan['sparse'], bloch=plan['bloch'], names=plan['names'],
                        order=plan['order'])


# --------------------------------------------------------------------- oracles

def all_terms(A, B):
    ks = sorted(set(A.terms) | set(B.terms), key=str)
    z = np.zeros((A.N, A.N), complex)
    return [A.terms.get(k, z) for k in ks], [B.terms.get(k, z) for k in ks]


def symmetric_exists(H, g):
    """Is there a unitary U such that (g, U) leaves H invariant? None: unclear."""
    T = H.apply(G(g.R, g.c, g.a)).clean()
    A, B = all_terms(T, H)
    # cheap necessary condition
    X, amb = intertwiners(A, B)
    if amb:
        return None
    if not X:
        return False
    rs = np_rng('inv', len(X))
    best = 0
    for _ in range(3):
        c = rs.standard_normal(len(X)) + 1j * rs.standard_normal(len(X))
        s = np.linalg.svd(sum(a * x for a, x in zip(c, X)), compute_uv=False)
        best = max(best, s[-1] / s[0])
    if best > 1e-4:
        return True
    return False if best < 1e-8 else None


def residual(H, g, ks, pv):
    """Relative violation of U H(+-R^-1 k)^(*) U^dag = +-H(k)."""
    k2 = ks @ np.linalg.inv(g.R).T if H.d else ks
    if g.c:
        k2 = -k2
    L = H.eval(k2, pv)
    if g.c:
        L = L.conj()
    if g.U is not None:
        L = g.U @ L @ g.U.conj().T
    if g.a:
        L = -L
    Rr = H.eval(ks, pv)
    return np.max(np.abs(L - Rr)) / max(1.0, np.max(np.abs(Rr)))


def commutant_dim(H):
    A, B = all_terms(H, H)
    X, amb = intertwiners(A, B)
    return None if amb else len(X)


def is_arpack(ex):
    from .families import is_arpack as f
    return f(ex)


def symfind_call(plan, ctx, model, H, fn, *a, **kw):
    """Run a finder; sparse algebra may legitimately refuse reducible or tiny
    problems (documented limits of ARPACK), in which case the dense call counts."""
    if not kw.get('sparse_linalg'):
        return ctx.call(fn, *a, **kw)
    try:
        return ctx.call(fn, *a, **kw)
    except Violation as v:
        if commutant_dim(H) == 1 and H.N >= 3 and not is_arpack(v.__cause__):
            raise
        ctx.count('sparse-solver-refused')
        kw['sparse_linalg'] = False
        return ctx.call(fn, *a, **kw)


def samples(H, seed, n=5):
    return sample(np_rng('sample', seed), n, H.d, H.params())


# ------------------------------------------------------------------- execution

def run_discrete(plan, ctx, want):
    """want: 'sound' or 'complete'."""
    import qsymm
    H = build(plan)
    if not H.terms:
        raise Skip('empty Hamiltonian')
    model = model_of(plan, H)
    cand, ref = build_candidates(plan['cand'], H.d)
    kw = dict(generators=plan['generators'], sparse_linalg=plan['sparse_linalg'])
    if plan['entry'] == 'symmetries':
        res = symfind_call(plan, ctx, model, H, qsymm.symmetries, model, cand,
                           continuous_rotations=plan['rot'], prettify=plan['prettify'], **kw)
        found = list(res[0])
    else:
        res = symfind_call(plan, ctx, model, H, qsymm.symmetry_finder.discrete_symmetries,
                           model, set(cand), **kw)
        found = list(res[0])
    found_ref = [G.of(g) for g in found]
    ctx.event('found', len(found), sorted((round(float(np.trace(g.R)), 3), g.c, g.a) for g in found_ref))
    ctx.sig(plan['sys'].get('spatial'), plan['sys'].get('kind', 'rot'), H.N, len(H.terms), len(ref), len(found))
    ctx.nontrivial = len(found) > (0 if plan['generators'] else 1) and H.N > 1
    ctx.count('symmetries-found', len(found))
    if want == 'sound':
        closure = close(ref)
        ks, pv = samples(H, plan['run_seed'])
        for g, l in zip(found_ref, found):
            ctx.check(g.U is not None and g.U.shape == (H.N, H.N), 'no-unitary',
                      lambda: f'{l!r} has no {H.N}x{H.N} unitary part')
            ctx.check(np.allclose(g.U @ g.U.conj().T, np.eye(H.N), atol=1e-5), 'not-unitary',
                      lambda: f'U of {l!r}')
            ctx.check(find(closure, g) is not None, 'not-a-candidate', lambda: repr(l))
            r = residual(H, g, ks, pv)
            ctx.check(r < 1e-4, 'not-a-symmetry', lambda: f'residual {r:.2e} for {l!r}')
        ctx.count('elements-judged', len(found))
        return
    truth, unclear = [], []
    for g in ref:
        ex = symmetric_exists(H, g)
        (truth.append(g) if ex else unclear.append(g) if ex is None else None)
    if unclear:
        raise Skip('numerically ambiguous symmetry')
    ctx.count('candidates-judged', len(ref))
    full = close(found_ref + [G(np.eye(H.d), U=np.eye(H.N))]) if found_ref else [G(np.eye(H.d))]
    got = full if plan['generators'] else found_ref
    for g in truth:
        ctx.check(find(got, g) is not None, 'symmetry-missed',
                  lambda: f'R={g.R.tolist()} conj={g.c} anti={g.a} is a symmetry but was not returned'
                          f' ({len(got)} of {len(truth)})')
    for g in got:
        ctx.check(find(truth, g) is not None, 'not-a-symmetry',
                  lambda: f'R={g.R.tolist()} conj={g.c} anti={g.a} returned but no unitary exists')
    if not plan['generators']:
        ctx.check(len(got) == len(truth), 'duplicates', lambda: f'{len(got)} elements for a group of {len(truth)}')
    if 1 < len(truth) < len(ref):
        ctx.count('proper-subgroup')


def conserved_of(ctx, plan, H, model):
    import qsymm
    if plan.get('direct'):
        sf = qsymm.symmetry_finder
        Ps = ctx.call(sf._reduce_hamiltonian, list(model.values()), sparse=plan['sparse_linalg'])
        return ctx.call(sf.conserved_quantities, Ps, prettify=plan['prettify'], num_digits=8)
    res = symfind_call(plan, ctx, model, H, qsymm.symmetries, model, set(),
                       prettify=plan['prettify'], sparse_linalg=plan['sparse_linalg'])
    return res[1]


def run_conserved(plan, ctx):
    H = build(plan)
    if not H.terms:
        raise Skip('empty Hamiltonian')
    want = commutant_dim(H)
    if want is None:
        raise Skip('numerically ambiguous commutant')
    model = model_of(plan, H)
    cons = list(conserved_of(ctx, plan, H, model))
    ctx.event('conserved', len(cons), want - 1)
    ctx.sig(H.N, len(H.terms), want, plan['prettify'], plan['sparse_linalg'])
    ctx.nontrivial = want > 1
    ctx.count('conserved-quantities', len(cons))
    Ls = []
    for c in cons:
        ctx.check(c.R is None or not np.any(np.abs(np.asarray(c.R, complex)) > 1e-9), 'conserved-rotates', repr(c))
        L = np.asarray(c.U, complex)
        ctx.check(L.shape == (H.N, H.N), 'malformed-result', repr(c))
        sc = max(1e-3, np.max(np.abs(L)))
        ctx.check(np.max(np.abs(L - L.conj().T)) < 1e-5 * sc, 'not-hermitian', repr(c))
        ctx.check(abs(np.trace(L)) < 1e-5 * sc * H.N, 'not-traceless', lambda: f'trace {np.trace(L):.3e}: {c!r}')
        for k, m in H.terms.items():
            r = np.max(np.abs(L @ m - m @ L)) / (sc * max(1, np.max(np.abs(m))))
            ctx.check(r < 1e-5, 'not-conserved', lambda: f'commutator {r:.2e} with term {k}: {c!r}')
        Ls.append(ri(L) / np.linalg.norm(ri(L)) if sc > 1e-3 or np.linalg.norm(L) > 1e-6 else ri(L))
    if Ls:
        s = np.linalg.svd(np.array(Ls), compute_uv=False)
        ctx.check(s[-1] > 1e-6 * s[0] and len(Ls) <= Ls[0].size, 'dependent',
                  lambda: f'{len(Ls)} conserved quantities of rank {np.sum(s > 1e-6 * s[0])}')
    ctx.check(len(Ls) == want - 1, 'wrong-number',
              lambda: f'{len(Ls)} conserved quantities, the traceless commutant has dimension {want - 1}')


def rotation_solutions(H):
    """Basis (rows) of antisymmetric parts that some onsite operator compensates,
    and the gap flag.  Condition: 1j*R dH + i[H, L] = 0 with R = 1j*A."""
    d, N = H.d, H.N
    gens = []
    for i in range(d):
        for j in range(i + 1, d):
            A = np.zeros((d, d))
            A[i, j], A[j, i] = 1, -1
            gens.append(A)
    cols = []
    specs = []
    for A in gens:
        s = Spec('cont', d, N)
        for (p, x), m in H.terms.items():
            for i in range(d):
                if x[i] == 0:
                    continue
                for j in range(d):
                    if A[i, j] == 0:
                        continue
                    y = list(x)
                    y[i] -= 1
                    y[j] += 1
                    s.add((p, tuple(y)), x[i] * A[i, j] * m)
        specs.append(s)
    hb = herm_basis(N)
    for L in hb:
        specs.append(Spec('cont', d, N, {k: 1j * (m @ L - L @ m) for k, m in H.terms.items()}))
    keys = sorted({k for s in specs for k in s.terms}, key=str)
    z = np.zeros((N, N), complex)
    M = np.array([np.concatenate([ri(s.terms.get(k, z)) for k in keys]) for s in specs]).T
    ns, amb = null_real(np.linalg.qr(M, mode='r') if M.shape[0] > M.shape[1] else M)
    if amb:
        return None, gens
    Rp = ns[:, :len(gens)]
    if Rp.size == 0:
        return np.zeros((0, len(gens))), gens
    s = np.linalg.svd(Rp, full_matrices=False)
    r = rank_gap(s[1], 1.0)
    if r is None:
        return None, gens
    return s[2][:r], gens


def run_rotations(plan, ctx):
    import qsymm
    H = build(plan)
    if not H.terms:
        raise Skip('empty Hamiltonian')
    model = model_of(plan, H)
    if H.kind == 'bloch' or H.d <= 1:
        basis, gens = np.zeros((0, 0)), []
        if H.kind == 'bloch' and not plan['bloch']:
            raise Skip('Bloch Hamiltonian as Model')
    else:
        basis, gens = rotation_solutions(H)
        if basis is None:
            raise Skip('numerically ambiguous rotation')
    sf = qsymm.symmetry_finder
    if plan['entry'] == 'direct':
        found = symfind_call(plan, ctx, model, H, sf.continuous_symmetries, model,
                             prettify=plan['prettify'], sparse_linalg=plan['sparse_linalg'])
    else:
        res = symfind_call(plan, ctx, model, H, qsymm.symmetries, model, set(), continuous_rotations=True,
                           prettify=plan['prettify'], sparse_linalg=plan['sparse_linalg'])
        found = res[1]
        ncons = commutant_dim(H)
        if ncons is None:
            raise Skip('numerically ambiguous commutant')
        ctx.check(len(found) >= ncons - 1, 'wrong-number', 'fewer generators than conserved quantities')
        cons, found = found[:ncons - 1], found[ncons - 1:]
        for c in cons:
            ctx.check(c.R is None or np.max(np.abs(np.asarray(c.R, complex))) < 1e-6, 'order', repr(c))
    found = list(found)
    ctx.event('rotations', len(found), len(basis))
    ctx.sig(H.kind, H.d, H.N, len(H.terms), len(basis), plan['prettify'], plan['sparse_linalg'])
    ctx.nontrivial = len(basis) > 0
    ctx.count('rotation-generators', len(found))
    ks, pv = samples(H, plan['run_seed']) if H.d else (None, None)
    Rv = []
    for g in found:
        R = np.asarray(g.R, complex)
        ctx.check(R.shape == (H.d, H.d), 'malformed-result', repr(g))
        sc = max(1e-6, np.max(np.abs(R)))
        ctx.check(np.max(np.abs(R.real)) < 1e-6 * sc and np.allclose(R, -R.T, atol=1e-6 * sc), 'not-a-rotation', repr(g))
        A = R.imag          # R = iA
        L = np.asarray(g.U, complex) if g.U is not None else np.zeros((H.N, H.N))
        ctx.check(np.allclose(L, L.conj().T, atol=1e-6 * max(1, np.max(np.abs(L)))), 'not-hermitian', repr(g))
        Hk = H.eval(ks, pv)
        d1 = 1j * (Hk @ L - L @ Hk)
        for i in range(H.d):
            d1 = d1 - (ks @ A[i])[:, None, None] * H.deriv(ks, pv, i)
        tot = max(sc, np.max(np.abs(L)), 1.0)
        r = np.max(np.abs(d1)) / (tot * max(1, np.max(np.abs(Hk))))
        ctx.check(r < 1e-4, 'not-a-symmetry', lambda: f'first-order change {r:.2e} under {g!r}')
        Rv.append([A[i, j] for i in range(H.d) for j in range(i + 1, H.d)])
    ctx.check(len(found) == len(basis), 'wrong-number',
              lambda: f'{len(found)} rotation generators, expected {len(basis)}')
    if Rv:
        Rv = np.array(Rv)
        Rv /= np.linalg.norm(Rv, axis=1)[:, None]
        s = np.linalg.svd(Rv, compute_uv=False)
        ctx.check(s[-1] > 1e-6, 'dependent', lambda: str(Rv))
        out = Rv - (Rv @ basis.T) @ basis
        ctx.check(np.max(np.abs(out)) < 1e-4, 'wrong-rotation', lambda: str(Rv))


def shrink(plan):
    s = plan['sys']
    if len(s['comps']) > 1:
        for i in range(len(s['comps'])):
            yield {**plan, 'sys': {**s, 'comps': s['comps'][:i] + s['comps'][i + 1:]}}
    if 'scramble' in s:
        yield {**plan, 'sys': {k: v for k, v in s.items() if k != 'scramble'}}
    for i, c in enumerate(s['comps']):
        for k in ('mult', 'ncopy', 'copy', 'magnetic', 'axis'):
            if k in c:
                n = {a: b for a, b in c.items() if a != k}
                yield {**plan, 'sys': {**s, 'comps': s['comps'][:i] + [n] + s['comps'][i + 1:]}}
        for ch in c.get('internal', ''):
            n = {**c, 'internal': c['internal'].replace(ch, '')}
            yield {**plan, 'sys': {**s, 'comps': s['comps'][:i] + [n] + s['comps'][i + 1:]}}
    if len(s.get('params', [])) > 1:
        for i in range(len(s['params'])):
            yield {**plan, 'sys': {**s, 'params': s['params'][:i] + s['params'][i + 1:]}}
    if len(s.get('powers', [])) > 1:
        for i in range(len(s['powers'])):
            yield {**plan, 'sys': {**s, 'powers': s['powers'][:i] + s['powers'][i + 1:]}}
    for k in ('sparse', 'sparse_linalg', 'prettify', 'generators', 'rot', 'bloch'):
        if plan.get(k):
            yield {**plan, k: False}
    if plan.get('names'):
        yield {**plan, 'names': None}
    c = plan.get('cand')
    if c and c['mode'] != 'none':
        for k in ('tr', 'ph'):
            if c.get(k):
                yield {**plan, 'cand': {**c, k: False}}
