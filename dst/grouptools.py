"""Workload and oracle of group generation, predefined groups and the
constructors of symmetry operators (C12)."""
import itertools as it
import math

import numpy as np

from . import gen, seams
from .core import Skip, np_rng
from .elements import Pool
from .gen import SPATIAL
from .spec import G, Spec, close, find, ray_equal

WHAT = ['closure', 'closure', 'closure', 'subgroups', 'subgroups', 'named', 'named', 'named', 'construct', 'construct',
        'construct', 'permutation', 'permutation', 'multiply', 'invariance']


def generate(rng):
    what = rng.choice(WHAT)
    plan = dict(what=what, seed=rng.randrange(10**6), env=gen.gen_env(rng, noise=False))
    if what in ('closure', 'subgroups', 'multiply'):
        d = rng.choice([0, 1, 2, 2, 2, 3, 3])
        plan.update(d=d, exact=rng.random() < .7,
                    spatial=rng.choice([s for s, v in SPATIAL.items() if v[0] == d]),
                    internal=''.join(x for x in 'TPC' if rng.random() < .35),
                    U=rng.choice([None, None, 'spin', 'perm', 'spin']), j=rng.choice([.5, 1, 1.5]),
                    strict=rng.random() < .35, container=rng.choice(['set', 'list', 'tuple', 'frozenset', 'iter']),
                    extra=rng.randrange(0, 4))
        if what == 'subgroups':
            plan['strict'] = False
    if what == 'named':
        plan.update(name=rng.choice(['square', 'cubic', 'hex2', 'hex2', 'hex3', 'hex3']), tr=rng.random() < .6,
                    ph=rng.random() < .4, spin=rng.choice([None, None, .5, 1, 1.5, 0, 'L1', 'L2', 'kron', 'rot']),
                    sympy_R=rng.random() < .5)
        if plan['name'] == 'cubic' and rng.random() < .5:
            plan['tr'] = False
    return plan


# --------------------------------------------------------------------- spin

def axial(x):
    x = np.asarray(x, float)
    return x


def spin_set(kind, rs):
    """(argument for the library, reference S matrices)."""
    if kind is None:
        return None, None
    if isinstance(kind, (int, float)):
        S = gen.spin_ops(kind)
        # plain numbers of several types
        a = [kind, float(kind), np.float64(kind)][rs.randint(3)]
        return a, S
    L1 = np.array([[[0, 0, 0], [0, 0, -1j], [0, 1j, 0]], [[0, 0, 1j], [0, 0, 0], [-1j, 0, 0]],
                   [[0, -1j, 0], [1j, 0, 0], [0, 0, 0]]])
    S = {'L1': L1, 'L2': None, 'kron': [np.kron(s, np.eye(2)) for s in gen.spin_ops(.5)],
         'rot': None}[kind]
    if kind == 'L2':
        S = [np.kron(s, np.eye(3)) + np.kron(np.eye(2), l) for s, l in zip(gen.spin_ops(.5), L1)]
    if kind == 'rot':
        V = gen.rand_unitary(rs, 2)
        S = [V @ s @ V.conj().T for s in gen.spin_ops(.5)]
        # time reversal exp(-i pi S_y) needs the standard basis
        S = gen.spin_ops(.5)
    S = [np.array(s, complex) for s in S]
    return (S if rs.rand() < .5 else np.array(S)), S


def rep(S, n, t):
    return gen.expi(n[0] * S[0] + n[1] * S[1] + n[2] * S[2], t)


def rep_of(S, R):
    R3 = gen.embed3(R)
    if np.linalg.det(R3) < 0:
        R3 = -R3
    n, t = gen.axis_angle(R3)
    return rep(S, n, t)


# ------------------------------------------------------------------ closures

def generators(plan, rs):
    """Reference generators with a finite unitary part."""
    d, U = plan['d'], plan['U']
    S = gen.spin_ops(plan['j'])
    n = {None: 0, 'spin': len(S[0]), 'perm': 2 + rs.randint(2)}[U]

    def make(R, c=False, a=False):
        if U is None:
            M = None
        elif U == 'spin':
            M = rep_of(S, R)
            if c:
                M = M @ rep(S, [0, 1, 0], math.pi)
            if rs.rand() < .3:
                M = M * np.exp(1j * rs.uniform(0, 6))
        else:
            M = gen.signed_perm(rs, n) * [1, 1j, -1][rs.randint(3)]
        return G(R, c, a, M)
    gs = [make(R) for R in SPATIAL[plan['spatial']][2]]
    for x in plan['internal']:
        gs.append(make(np.eye(d), x in 'TP', x in 'PC'))
    if not gs:
        gs = [make(np.eye(d))]
    if rs.rand() < .4 and len(gs) > 1:
        # combined generators
        i, j = rs.randint(len(gs)), rs.randint(len(gs))
        if i != j:
            gs[i] = gs[i] * gs[j]
    for _ in range(plan['extra']):
        i, j = rs.randint(len(gs)), rs.randint(len(gs))
        gs.append(gs[i] * gs[j])
    return [gs[i] for i in rs.permutation(len(gs))]


def lib(g, exact, strict=False):
    import qsymm
    R = gen.exact_R(g.R) if exact else np.array(g.R)
    return qsymm.PointGroupElement(R, g.c, g.a, None if g.U is None else np.array(g.U), strict)


def pack(kind, lst):
    return {'set': set, 'list': list, 'tuple': tuple, 'frozenset': frozenset, 'iter': iter}[kind](lst)


def R_of(g, d):
    return np.array(g.R).astype(float).reshape(d, d)


def ref_of(g, d):
    return G(R_of(g, d), g.conjugate, g.antisymmetry, g.U)


def limit_for(what):
    return {'closure': 200, 'subgroups': 24, 'multiply': 60}[what]


def match(ctx, got, want, d, ray, what):
    """Every wanted element once and nothing else."""
    ctx.check(len(got) == len(want), 'wrong-group', lambda: f'{what}: {len(got)} elements, expected {len(want)}')
    used = set()
    for g in got:
        x = ref_of(g, d)
        hit = [i for i, w in enumerate(want) if (w.same_ray(x) if ray else w.same_space(x))]
        ctx.check(len(hit) == 1, 'wrong-group', lambda: f'{what}: {len(hit)} matches of {g!r}')
        ctx.check(hit[0] not in used, 'wrong-group', lambda: f'{what}: {g!r} twice')
        used.add(hit[0])
    ctx.nontrivial = True


def run_closure(plan, ctx):
    import qsymm
    rs = np_rng('closure', plan['seed'])
    d = plan['d']
    refs = generators(plan, rs)
    try:
        rays = close(refs, ray=True, limit=limit_for('closure'))
    except OverflowError:
        raise Skip('group too large')
    space = close(refs)
    strict = plan['strict']
    gens = [lib(g, plan['exact'], strict) for g in refs]
    before = [(id(g), repr(g.R), g.U is None) for g in gens]
    arg = pack(plan['container'], gens)
    grp = ctx.call(qsymm.groups.generate_group, arg)
    ctx.check(type(grp) is set, 'wrong-type', str(type(grp)))
    match(ctx, grp, rays if strict else space, d, strict, 'generate_group')
    for g in grp:
        x = ref_of(g, d)
        ctx.check((g.U is None) == (plan['U'] is None), 'wrong-unitary', 'unitary part lost')
        if g.U is not None:
            ctx.check(any(w.same_ray(x) for w in rays), 'wrong-unitary',
                      lambda: f'unitary part of {g!r} is not that of any product of the generators')
    # closed under the library's own operations
    lst = sorted(grp) if plan['exact'] else list(grp)
    for _ in range(6):
        a, b = lst[rs.randint(len(lst))], lst[rs.randint(len(lst))]
        ctx.check(ctx.call(lambda: a * b in grp) and ctx.call(lambda: a.inv() in grp), 'not-closed', f'{a!r} {b!r}')
    if plan['container'] in ('set', 'list'):
        ctx.check(len(arg) <= len(gens), 'argument-changed', 'generators were added to the argument')
    again = ctx.call(qsymm.groups.generate_group, grp)
    ctx.check(len(again) == len(grp), 'wrong-group', 'closure of a group is larger than the group')
    ctx.check(before == [(id(g), repr(g.R), g.U is None) for g in gens], 'argument-changed', 'a generator changed')
    ctx.event('closure', len(grp))
    ctx.sig('closure', plan['spatial'], plan['internal'], plan['U'], strict, plan['exact'], plan['container'], len(grp),
            len(rays), plan['extra'])


def run_subgroups(plan, ctx):
    import qsymm
    rs = np_rng('closure', plan['seed'])
    d = plan['d']
    try:
        group = close(generators(plan, rs), limit=limit_for('subgroups'))
    except OverflowError:
        raise Skip('group too large')
    n = len(group)
    keys = {}

    def index(x):
        for i, g in enumerate(group):
            if g.same_space(x):
                return i
        raise KeyError
    table = [[index(a * b) for b in group] for a in group]

    def span(s):
        s = set(s)
        while True:
            new = {table[a][b] for a in s for b in s} - s
            if not new:
                return frozenset(s)
            s |= new
    cyc = {span({i}) for i in range(n)}
    subs = set(cyc)
    front = set(cyc)
    while front:
        front = {span(a | c) for a in front for c in cyc} - subs
        subs |= front
    els = [lib(group[i], plan['exact']) for i in rs.permutation(n)]
    # a partly generated unitary part is irrelevant here
    res = ctx.call(qsymm.groups.generate_subgroups, set(els))
    got = {}
    for key, gens in res.items():
        ctx.check(isinstance(key, frozenset) and isinstance(gens, (set, frozenset)), 'wrong-type', f'{type(key)} {type(gens)}')
        k = frozenset(index(ref_of(g, d)) for g in key)
        ctx.check(len(k) == len(key), 'wrong-group', 'repeated element in a subgroup')
        ctx.check(k not in got, 'wrong-group', 'repeated subgroup')
        g = {index(ref_of(x, d)) for x in gens}
        ctx.check(span(g) == k, 'wrong-generators', lambda: f'{len(g)} generators generate {len(span(g))} instead of {len(k)} elements')
        got[k] = g
    missing, extra = subs - set(got), set(got) - subs
    ctx.check(not missing and not extra, 'wrong-subgroups',
              lambda: f'{len(got)} subgroups, expected {len(subs)}; missing orders {sorted(map(len, missing))}, '
                      f'not subgroups: {sorted(map(len, extra))}')
    ctx.nontrivial = True
    ctx.event('subgroups', n, len(subs))
    ctx.sig('subgroups', plan['spatial'], plan['internal'], plan['U'], plan['exact'], n, len(subs))


def run_multiply(plan, ctx):
    import qsymm
    rs = np_rng('closure', plan['seed'])
    d = plan['d']
    try:
        group = close(generators(plan, rs), limit=limit_for('multiply'))
    except OverflowError:
        raise Skip('group too large')
    pick = lambda: [group[i] for i in rs.permutation(len(group))[:rs.randint(0, min(6, len(group)) + 1)]]
    A, B = pick(), pick()
    want = []
    for a, b in it.product(A, B):
        if find(want, a * b) is None:
            want.append(a * b)
    got = ctx.call(qsymm.groups.set_multiply, {lib(g, plan['exact']) for g in A}, {lib(g, plan['exact']) for g in B})
    match(ctx, got, want, d, False, 'set_multiply')
    ctx.sig('multiply', plan['spatial'], plan['internal'], plan['exact'], len(A), len(B), len(want))


# -------------------------------------------------------------- named groups

def run_named(plan, ctx):
    import qsymm
    from qsymm import groups
    rs = np_rng('named', plan['seed'])
    name, tr, ph = plan['name'], plan['tr'], plan['ph']
    spin = plan['spin']
    if tr and spin in ('L1', 'L2'):
        spin = 'kron'       # time reversal is exp(-i pi S_y) in the standard basis only
    arg, S = spin_set(spin, rs)
    d = 3 if name in ('cubic', 'hex3') else 2
    kw = dict(tr=tr, ph=ph)
    if arg is not None:
        kw['spin'] = arg
    if name[:3] == 'hex':
        f = groups.hexagonal
        kw.update(dim=d, sympy_R=plan['sympy_R'])
        base = [G(gen.embed3(gen.C6)[:d, :d]), G(np.diag([-1.] + [1.] * (d - 1)))]
        if d == 3:
            base.append(G(-np.eye(3)))
    else:
        f = getattr(groups, name)
        base = [G(np.eye(d)[list(p)] * np.array(s)[:, None]) for p in it.permutations(range(d))
                for s in it.product([1, -1], repeat=d)]
    if ph and S is not None:
        try:
            f(**kw)
        except ValueError:
            ctx.have_result = ctx.nontrivial = True
            ctx.sig('named-refused', name, str(plan['spin']))
            return
        ctx.check(False, 'not-rejected', f'{name} accepts spin together with ph')
    if name[:3] == 'hex' and rs.rand() < .05:
        try:
            f(dim=[0, 1, 4][rs.randint(3)])
        except ValueError:
            pass
        else:
            ctx.check(False, 'not-rejected', 'hexagonal of other dimension')
    if tr:
        base.append(G(np.eye(d), True, False))
    if ph:
        base.append(G(np.eye(d), True, True))
    want = close(base)
    grp = ctx.call(f, **kw)
    match(ctx, grp, want, d, False, name)
    kw['generators'] = True
    gens = ctx.call(f, **kw)
    match(ctx, ctx.call(groups.generate_group, gens), want, d, False, name + ' from generators')
    ctx.check({(g.conjugate, g.antisymmetry) for g in grp} ==
              {(g.conjugate, g.antisymmetry) for g in ctx.call(groups.generate_group, gens)}, 'wrong-group', 'flags')
    match(ctx, gens, [find(want, ref_of(g, d)) for g in gens], d, False, 'generators')
    T = None if S is None else rep(S, [0, 1, 0], math.pi)
    for g in list(grp) + list(gens):
        if S is None:
            ctx.check(g.U is None, 'wrong-unitary', 'unitary part without spin')
            continue
        ctx.check(g.U is not None and g.U.shape == S[0].shape, 'wrong-unitary', f'{name}: {g.U!r}')
        U = rep_of(S, R_of(g, d))
        if g.conjugate:
            U = U @ T
        ctx.check(reps_equal(g.U, U), 'wrong-unitary',
                  lambda: f'{name}: unitary of {g!r} is not the representation of its rotation')
    if name[:3] == 'hex':
        import sympy
        import tinyarray as ta
        for g in grp:
            exactR = not isinstance(g.R, ta.ndarray_float)
            ctx.check(exactR or not plan['sympy_R'], 'wrong-type', f'rotation is not exact: {g.R!r}')
    ctx.event('named', name, len(grp))
    ctx.sig('named', name, tr, ph, str(plan['spin']), plan['sympy_R'])


def reps_equal(U, V):
    """Equal up to a sign."""
    return np.allclose(U, V, atol=1e-6) or np.allclose(U, -V, atol=1e-6) or \
        (ray_equal(U, V) and np.allclose(U @ V.conj().T, (U @ V.conj().T)[0, 0] * np.eye(len(U)), atol=1e-6)
         and np.isclose(abs(((U @ V.conj().T)[0, 0])**2), 1) and np.isclose((U @ V.conj().T)[0, 0].imag, 0, atol=1e-6))


# -------------------------------------------------------------- constructors

def must_reject(ctx, f, *a, exc=ValueError, **kw):
    try:
        r = f(*a, **kw)
    except exc:
        ctx.have_result = True
        return
    ctx.check(False, 'not-rejected', f'{f.__name__}{a}{kw} gives {r!r}')


def equal_to(ctx, g, ref, what):
    d = len(ref.R)
    R = R_of(g, d) if np.shape(np.array(g.R))[:1] == (d,) or d == 0 else None
    ctx.check(R is not None and np.allclose(R, ref.R, atol=1e-7), 'wrong-rotation', lambda: f'{what}: {g!r}')
    ctx.check((bool(g.conjugate), bool(g.antisymmetry)) == (ref.c, ref.a), 'wrong-flags', lambda: f'{what}: {g!r}')
    if ref.U is None:
        ctx.check(g.U is None, 'wrong-unitary', lambda: f'{what}: {g!r}')
    else:
        ctx.check(g.U is not None and g.U.shape == ref.U.shape and np.allclose(g.U, ref.U, atol=1e-7), 'wrong-unitary',
                  lambda: f'{what}: {g!r}, expected U={np.round(ref.U, 4).tolist()}')
    ctx.check(not g._strict_eq, 'wrong-strict', what)
    ctx.nontrivial = True


def run_construct(plan, ctx):
    from qsymm import groups
    rs = np_rng('construct', plan['seed'])
    done = []
    for _ in range(4):
        what = ['rotation2', 'rotation3', 'rotation3', 'mirror', 'mirror', 'time_reversal', 'particle_hole', 'chiral',
                'inversion', 'identity'][rs.randint(10)]
        spin, S = spin_set([None, None, .5, 1, 1.5, 0, 2, 'L1', 'L2', 'kron'][rs.randint(10)], rs)
        n = 1 + rs.randint(4)
        U = gen.rand_unitary(rs, n) if rs.rand() < .5 else None
        if U is not None:
            spin = S = None
        both = dict(U=np.eye(2), spin=.5)
        done.append((what, S is not None, U is not None))
        if what == 'rotation2':
            t = [1 / 4, 1 / 3, 1 / 6, 1 / 2, -1 / 4, .3, 0, 1, 7 / 12][rs.randint(9)]
            R = gen.rot2(2 * math.pi * t)
            M = U if S is None else rep(S, [0, 0, 1], 2 * math.pi * t)
            g = ctx.call(groups.rotation, t, U=U, spin=spin)
            equal_to(ctx, g, G(R, U=M), f'rotation({t})')
            must_reject(ctx, groups.rotation, t, **both)
        elif what == 'rotation3':
            t = [1 / 4, 1 / 3, 1 / 6, 1 / 2, -1 / 4, .3, 0, 1][rs.randint(8)]
            ax = [np.array([0, 0, 1]), np.array([1, 1, 1]), np.array([1, -1, 0]), rs.standard_normal(3),
                  np.array([0, 2, 0])][rs.randint(5)]
            inv = bool(rs.rand() < .3)
            nv = ax / np.sqrt(np.sum(ax**2))
            R = gen.rot3(2 * math.pi * t, ax) * (-1 if inv else 1)
            M = U if S is None else rep(S, nv, 2 * math.pi * t)
            a = [ax, list(ax), tuple(ax)][rs.randint(3)]
            g = ctx.call(groups.rotation, t, a, inversion=inv, U=U, spin=spin)
            equal_to(ctx, g, G(R, U=M), f'rotation({t}, {a}, inversion={inv})')
            must_reject(ctx, groups.rotation, t, [1, 0])
        elif what == 'mirror':
            d = 1 + rs.randint(3)
            ax = rs.standard_normal(d) if rs.rand() < .4 else np.eye(d)[rs.randint(d)] * [1, -2, 3][rs.randint(3)]
            if rs.rand() < .2:
                ax = np.ones(d, int)
            nv = ax / np.sqrt(np.sum(ax**2))
            if d == 1:
                S = spin = None
            R = np.eye(d) - 2 * np.outer(nv, nv)
            M = U if S is None else rep(S, list(nv) + [0] * (3 - d), math.pi)
            keep = ax.copy()
            g = ctx.call(groups.mirror, ax if rs.rand() < .5 else list(ax), U=U, spin=spin)
            equal_to(ctx, g, G(R, U=M), f'mirror({ax})')
            ctx.check(np.array_equal(keep, ax), 'argument-changed', 'mirror axis')
            must_reject(ctx, groups.mirror, ax, **both)
        elif what == 'time_reversal':
            d = rs.randint(4)
            M = U if S is None else rep(S, [0, 1, 0], math.pi)
            equal_to(ctx, ctx.call(groups.time_reversal, d, U=U, spin=spin), G(np.eye(d), True, False, M), what)
            must_reject(ctx, groups.time_reversal, d, **both)
        elif what == 'identity':
            d = rs.randint(4)
            equal_to(ctx, ctx.call(groups.identity, d, *([n] if U is not None else [])),
                     G(np.eye(d), U=None if U is None else np.eye(n)), what)
        else:
            d = rs.randint(1, 4) if what == 'inversion' else rs.randint(4)
            f = getattr(groups, what)
            c, a = {'particle_hole': (True, True), 'chiral': (False, True), 'inversion': (False, False)}[what]
            R = np.eye(d) * (-1 if what == 'inversion' else 1)
            equal_to(ctx, ctx.call(f, d, U=U) if rs.rand() < .5 else ctx.call(f, d, U), G(R, c, a, U), what)
    ctx.sig('construct', done)


def run_invariance(plan, ctx):
    """The constructed operators leave k.S (and its relatives) invariant."""
    from qsymm import groups
    import qsymm
    rs = np_rng('inv', plan['seed'])
    j = [.5, 1, 1.5][rs.randint(3)]
    S = gen.spin_ops(j)
    d = 2 + rs.randint(2)
    N = len(S[0])
    spec = Spec('cont', d, N)
    axes = np.eye(3)
    polar = rs.rand() < .5           # k x S in 2D/3D is even under mirrors containing the normal
    for i in range(d):
        x = tuple(int(v) for v in np.eye(d, dtype=int)[i])
        if d == 3:
            spec.add(('a', x), S[i])
        else:
            # Rashba: k_x S_y - k_y S_x
            spec.add(('a', x), S[1] if i == 0 else -S[0])
    k2 = [tuple(int(v) for v in 2 * np.eye(d, dtype=int)[i]) for i in range(d)]
    for x in k2:
        spec.add(('b', x), np.eye(N))
    m = gen.to_model(spec, sparse=rs.rand() < .3)
    els = [groups.time_reversal(d, spin=j)]
    for _ in range(3):
        t = rs.choice([1 / 3, 1 / 4, .21, 1 / 2])
        if d == 3:
            els.append(groups.rotation(t, rs.standard_normal(3), spin=j))
        else:
            els.append(groups.rotation(t, spin=j))
            ax = rs.standard_normal(2)
            els.append(groups.mirror(ax, spin=j))
    x = els[0]
    for g in els[1:]:
        x = x * g
        els.append(x) if len(els) < 12 else None
    for g in els:
        q = ctx.call(g.apply, m)
        ctx.check(bool(ctx.call(lambda: q.allclose(m, atol=1e-6))), 'not-invariant', lambda: f'{g!r} does not leave the spin-orbit term invariant')
    # inversion and broken rotations do not
    for g in [groups.inversion(d, U=np.eye(N)), groups.particle_hole(d, U=np.eye(N)), groups.chiral(d, U=np.eye(N))]:
        q = ctx.call(g.apply, m)
        ctx.check(not ctx.call(lambda: q == m), 'wrong-invariance', repr(g))
    ctx.nontrivial = True
    ctx.sig('invariance', d, j)


# --------------------------------------------------------------- permutations

def run_permutation(plan, ctx):
    from collections import OrderedDict
    from qsymm import groups
    rs = np_rng('perm', plan['seed'])
    d = 1 + rs.randint(3)
    spatial = [s for s, v in SPATIAL.items() if v[0] == d]
    gens = SPATIAL[spatial[rs.randint(len(spatial))]][2]
    R = np.eye(d)
    for _ in range(rs.randint(0, 3)):
        if gens:
            R = R @ gens[rs.randint(len(gens))]
    names = [['A', 'B', 'C', 'D'], [3, 1, 2, 0], [(0, 1), (1, 0), 'x', None]][rs.randint(3)]
    ns = 1 + rs.randint(4)
    sites = [names[i] for i in rs.permutation(4)[:ns]]
    n0 = 1 + rs.randint(3)
    same = rs.rand() < .5
    norb = {s: n0 if same else 1 + rs.randint(2) for s in sites}
    # permute within classes of equal size
    perm = {}
    for n in set(norb.values()):
        cl = [s for s in sites if norb[s] == n]
        for s, i in zip(cl, rs.permutation(len(cl))):
            perm[s] = cl[i]
    form = rs.randint(3)
    act = {s: gen.rand_unitary(rs, norb[s]) for s in sites}
    if form == 0:
        onsite, act = None, {s: np.eye(norb[s]) for s in sites}
    elif form == 1 and len(set(norb.values())) == 1:
        M = gen.rand_unitary(rs, norb[sites[0]])
        onsite, act = M, {s: M for s in sites}
    else:
        onsite = dict(act)
    c, a = bool(rs.rand() < .4), bool(rs.rand() < .3)
    N = sum(norb.values())
    off, k = {}, 0
    for s in sites:
        off[s] = slice(k, k + norb[s])
        k += norb[s]
    U = np.zeros((N, N), complex)
    for s in sites:
        U[off[perm[s]], off[s]] = act[s]
    norbs = OrderedDict((s, norb[s]) for s in sites)
    norbs = [norbs, tuple(norbs.items()), list(norbs.items())][rs.randint(3)]
    Rin = gen.exact_R(R) if rs.rand() < .5 else np.array(R)
    items = [(s, perm[s]) for s in sites]
    pd = {items[i][0]: items[i][1] for i in rs.permutation(len(items))}
    f = groups.symmetry_from_permutation
    g = ctx.call(f, Rin, pd, norbs, onsite, antiunitary=c, antisymmetry=a)
    equal_to(ctx, g, G(R, c, a, U), 'symmetry_from_permutation')
    # a state on site s must go to site perm[s]
    for s in sites:
        v = np.zeros(N, complex)
        v[off[s]] = 1
        w = g.U @ (v.conj() if c else v)
        out = np.ones(N, bool)
        out[off[perm[s]]] = False
        ctx.check(np.allclose(w[out], 0) and np.allclose(w[off[perm[s]]], act[s] @ np.ones(norb[s])), 'wrong-unitary',
                  lambda: f'site {s} is not mapped to {perm[s]}')
    if len(sites) > 1:
        bad = dict(pd)
        s = sites[rs.randint(len(sites))]
        c_ = rs.randint(3)
        if c_ == 0:
            bad.pop(s)
        elif c_ == 1:
            bad[s] = 'nowhere'
        else:
            bad[s] = next(t for t in perm.values() if t != bad[s])
        must_reject(ctx, f, Rin, bad, norbs, None)
        if len(set(norb.values())) > 1:
            x = next(s for s in sites if norb[s] == 1)
            y = next(s for s in sites if norb[s] == 2)
            bad = {s: s for s in sites}
            bad[x], bad[y] = y, x
            must_reject(ctx, f, Rin, bad, norbs, None)
    ctx.sig('perm', d, ns, sorted(norb.values()), form, c, a, len([s for s in sites if perm[s] != s]))


def run(plan, ctx):
    ctx.count(plan['what'])
    globals()['run_' + plan['what']](plan, ctx)


def shrink(plan):
    for k in ('extra',):
        if plan.get(k):
            yield {**plan, k: plan[k] - 1}
    if plan.get('internal'):
        for i in range(len(plan['internal'])):
            yield {**plan, 'internal': plan['internal'][:i] + plan['internal'][i + 1:]}
    if plan.get('U'):
        yield {**plan, 'U': None}
    if plan.get('strict'):
        yield {**plan, 'strict': False}
    if plan.get('tr'):
        yield {**plan, 'tr': False}
