"""Workload and oracle of Bravais-lattice point groups (C13)."""
import itertools as it
import math

import numpy as np

from . import gen
from .core import Skip, Violation, np_rng
from .spec import G, close

KINDS3 = ['cP', 'cI', 'cF', 'tP', 'tI', 'oP', 'oC', 'oI', 'oF', 'hP', 'hR', 'mP', 'mC', 'aP']
KINDS2 = ['sq', 'hex', 'rect', 'crect', 'obl']
ORDER = {'cP': 48, 'cI': 48, 'cF': 48, 'tP': 16, 'tI': 16, 'oP': 8, 'oC': 8, 'oI': 8, 'oF': 8, 'hP': 24, 'hR': 12,
         'mP': 4, 'mC': 4, 'aP': 2, 'sq': 8, 'hex': 12, 'rect': 4, 'crect': 4, 'obl': 2, 'chain': 2}


def generate(rng):
    d = rng.choice([1, 2, 2, 3, 3, 3, 3, 3])
    kind = {1: ['chain'], 2: KINDS2 + ['intgram', 'intbasis'],
            3: KINDS3 + ['intgram', 'intgram', 'intbasis', 'intbasis']}[d]
    plan = dict(d=d, kind=rng.choice(kind), special=rng.random() < .45, seed=rng.randrange(10**6),
                orient=rng.choice(['std', 'rand', 'rand', 'perm', 'reflect']),
                basis=rng.choice(['std', 'uni', 'uni', 'uni']), nuni=rng.randrange(1, 7),
                embed=rng.choice([0, 0, 0, 1, 2]), scale=rng.choice([1, 1, 2, .1, 10, .37, 1e-3, 1e3, 1e-10, 1e6]),
                tr=rng.random() < .35, ph=rng.random() < .3, generators=rng.random() < .4,
                verbose=rng.random() < .1, aslist=rng.random() < .4, asint=rng.random() < .3,
                twice=rng.random() < .3, env=gen.gen_env(rng, noise=False))
    if rng.random() < .03:
        plan['kind'] = 'toobig'
    return plan


def conventional(kind, special, rs):
    """Primitive basis of a lattice of the given kind."""
    def par(lo=.55, hi=1.9):
        if special:
            return [1, 2, .5, math.sqrt(2), 1 / math.sqrt(2), math.sqrt(3), 1 / math.sqrt(3), math.sqrt(1.5),
                    math.sqrt(2 / 3), math.sqrt(3 / 8), math.sqrt(8 / 3), 2 / math.sqrt(3), 3][rs.randint(13)]
        return rs.uniform(lo, hi)
    a, b, c = 1., par(), par()
    I = np.eye(3)
    cI = np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) / 2
    cF = np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2
    cC = np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]])
    hx = np.array([[1, 0, 0], [-.5, math.sqrt(3) / 2, 0], [0, 0, 1]])
    if kind == 'chain':
        return np.array([[1.]])
    if kind in KINDS2:
        return {'sq': np.eye(2), 'hex': hx[:2, :2], 'rect': np.diag([1, b]), 'crect': cC[:2, :2] @ np.diag([1, b]),
                'obl': np.array([[1, 0], [[0, .5, .25, 1 / 3][rs.randint(4)] if special else rs.uniform(-.5, .5), b]])
                }[kind]
    if kind[0] == 'c':
        return {'P': I, 'I': cI, 'F': cF}[kind[1]]
    if kind[0] == 't':
        return {'P': I, 'I': cI}[kind[1]] @ np.diag([1, 1, b])
    if kind[0] == 'o':
        return {'P': I, 'I': cI, 'F': cF, 'C': cC}[kind[1]] @ np.diag([a, b, c])
    if kind == 'hP':
        return hx @ np.diag([1, 1, c])
    if kind == 'hR':
        t = 2 * math.pi / 3
        return np.array([[math.cos(i * t), math.sin(i * t), c] for i in range(3)])
    sh = [0, .5, 1 / 3, .25, -.5][rs.randint(5)] if special else rs.uniform(-.6, .6)
    mono = np.array([[1, 0, 0], [0, b, 0], [sh, 0, c]])
    if kind == 'mP':
        return mono
    if kind == 'mC':
        return cC[:, [0, 1, 2]] @ mono
    if kind == 'aP':
        s2, s3 = ([0, .5, 1 / 3, .25, -.5][rs.randint(5)] if special else rs.uniform(-.6, .6) for _ in range(2))
        return np.array([[1, 0, 0], [s2, b, 0], [sh, s3, c]])
    raise ValueError(kind)


def base(plan, rs):
    d, kind = plan['d'], plan['kind']
    if kind == 'intbasis':
        for _ in range(50):
            B = rs.randint(-2, 3, size=(d, d)).astype(float)
            if abs(np.linalg.det(B)) > .5:
                return B
        return np.eye(d)
    if kind == 'intgram':
        for _ in range(100):
            A = rs.randint(-2, 3, size=(d, d))
            g = np.triu(A, 1)
            g = g + g.T + np.diag(rs.randint(2, 6, size=d))
            if np.linalg.eigvalsh(g)[0] > .3:
                return np.linalg.cholesky(g)
        return np.eye(d)
    return conventional(kind, plan['special'], rs)


def reduce(B):
    B = np.array(B, float)
    d = len(B)
    for _ in range(500):
        done = True
        for i in range(d):
            others = [j for j in range(d) if j != i]
            for c in it.product([-1, 0, 1], repeat=len(others)):
                w = B[i] + sum((x * B[j] for x, j in zip(c, others)), np.zeros(B.shape[1]))
                if w @ w < (B[i] @ B[i]) * (1 - 1e-9):
                    B[i] = w
                    done = False
        if done:
            return B
    raise Skip('reduction')


def automorphisms(B):
    """All orthogonal maps of the lattice with (square) basis B; Skip if
    the lattice is within tolerance of a more symmetric one."""
    d = len(B)
    # pairwise size reduction first: the basis may be strongly skewed
    for _ in range(200):
        ch = False
        for i in range(d):
            for j in range(d):
                if i != j:
                    q = np.rint(B[i] @ B[j] / (B[j] @ B[j]))
                    if q and ((B[i] - q * B[j]) @ (B[i] - q * B[j])) < (B[i] @ B[i]) * (1 - 1e-9):
                        B = B.copy()
                        B[i] = B[i] - q * B[j]
                        ch = True
        if not ch:
            break
    B = reduce(B)
    gram = B @ B.T
    scale = np.trace(gram) / d
    vs = np.array([np.array(c) @ B for c in it.product(range(-3, 4), repeat=d) if any(c)])
    ln = np.einsum('ij,ij->i', vs, vs)
    vs, ln = vs[ln < gram.diagonal().max() * 1.6], ln[ln < gram.diagonal().max() * 1.6]
    # distances between inequivalent shapes must be clear
    short = vs[ln < gram.diagonal().max() * 1.6]
    ov = np.abs(short @ short.T).ravel() / scale
    u = np.sort(np.concatenate([[0.], ov]))
    gaps = np.diff(u)
    if np.any((gaps > 1e-8) & (gaps < 2e-4)):
        raise Skip('nearly symmetric lattice')
    # angles, too (the library compares normalised overlaps)
    nrm = np.sqrt(np.einsum('ij,ij->i', short, short))
    u = np.sort(np.concatenate([[0., .5, 1.], (np.abs(short @ short.T) / np.outer(nrm, nrm)).ravel()]))
    gaps = np.diff(u)
    if np.any((gaps > 1e-8) & (gaps < 1e-4)):
        raise Skip('nearly symmetric lattice')
    cand = [[v for v in vs if abs(v @ v - gram[i, i]) < 1e-6 * scale] for i in range(d)]
    out = []

    def rec(rows):
        i = len(rows)
        if i == d:
            R = np.linalg.solve(B, np.array(rows)).T
            out.append(R)
            return
        for v in cand[i]:
            if all(abs(v @ rows[j] - gram[i, j]) < 1e-6 * scale for j in range(i)):
                rec(rows + [v])
    rec([])
    for R in out:
        if not np.allclose(R @ R.T, np.eye(d), atol=1e-6):
            raise Skip('reference not orthogonal')
    return out


def run(plan, ctx):
    import qsymm
    from qsymm.symmetry_finder import bravais_point_group
    rs = np_rng('lat', plan['seed'])
    d, kind = plan['d'], plan['kind']
    if kind == 'toobig':
        B = np.eye(4 + rs.randint(2))
        try:
            bravais_point_group(B)
        except NotImplementedError:
            ctx.have_result = True
            ctx.count('rejected')
            return
        except Exception as ex:
            raise Violation('wrong-exception', f'4D lattice: {type(ex).__name__}: {ex}')
        raise Violation('accepted', '4D lattice accepted')
    B = base(plan, rs)
    o = plan['orient']
    if o == 'rand':
        Q = np.linalg.qr(rs.randn(d, d))[0]
    elif o in ('perm', 'reflect'):
        Q = np.eye(d)[rs.permutation(d)]
        if o == 'reflect':
            Q = Q * np.array([[-1, 1][rs.randint(2)] for _ in range(d)])
    else:
        Q = np.eye(d)
    B = B @ Q * plan['scale']
    if plan['basis'] == 'uni' and d > 1:
        M = np.eye(d, dtype=int)
        for _ in range(plan['nuni']):
            i, j = rs.permutation(d)[:2]
            M[i] += rs.randint(-2, 3) * M[j]
        M = M[rs.permutation(d)] * np.array([[-1], [1]])[rs.randint(0, 2, size=d)]
        B = M @ B
    periods = B
    if plan['embed'] and d < 3:
        e = min(plan['embed'], 3 - d) if d + plan['embed'] > 4 else plan['embed']
        E = np.linalg.qr(rs.randn(d + e, d + e))[0][:d]
        if rs.rand() < .4:
            E = np.eye(d + e)[rs.permutation(d + e)[:d]]
        periods = B @ E
        # frame: Gram-Schmidt of the periods in the given order
        F = []
        for v in periods:
            w = v - sum((v @ f) * f for f in F) if F else np.array(v)
            for f in F:
                w = w - (w @ f) * f
            F.append(w / np.linalg.norm(w))
        B = periods @ np.array(F).T
        if np.linalg.cond(B / plan['scale']) > 1e5:
            raise Skip('skewed')
    ref = automorphisms(B / plan['scale'])
    if not plan['special'] and kind in ORDER and len(ref) != ORDER[kind]:
        # generic parameters that happen to be special are fine, but fewer is impossible
        if len(ref) < ORDER[kind]:
            raise Skip('reference incomplete')
    arg = periods
    if plan['asint'] and np.array_equal(periods, np.rint(periods)):
        arg = periods.astype(int)
    if plan['aslist']:
        arg = arg.tolist()
    kw = {k: True for k in ('tr', 'ph', 'generators', 'verbose') if plan[k]}
    n = 2 if plan['twice'] else 1
    for rep in range(n):
        if rep:
            from . import seams
            seams.clear_qsymm_caches()
        got = ctx.call(bravais_point_group, arg, **kw)
        judge(plan, ctx, got, ref, B)
    ctx.count('lattice:' + kind)
    ctx.count(f'order:{len(ref)}')
    ctx.nontrivial = True
    ctx.sig('lat', kind, d, len(ref), plan['special'], plan['embed'], plan['scale'], plan['tr'], plan['ph'],
            plan['generators'], plan['seed'] % 50)
    ctx.event('bpg', kind, len(ref), len(got))


def judge(plan, ctx, got, ref, B):
    import qsymm
    d = plan['d']
    ctx.check(isinstance(got, (set, frozenset)), 'type', lambda: str(type(got)))
    for g in got:
        ctx.check(isinstance(g, qsymm.PointGroupElement), 'type', lambda: str(type(g)))
        ctx.check(np.shape(g.R) == (d, d), 'shape', lambda: str(np.shape(g.R)))
        R = np.array(g.R).astype(float)
        ctx.check(np.allclose(R @ R.T, np.eye(d), atol=1e-6), 'not-orthogonal', lambda: R.round(6).tolist())
    els = [G(np.array(g.R).astype(float).reshape(d, d), g.conjugate, g.antisymmetry, None) for g in got]
    internal = [(False, False)]
    if plan['tr']:
        internal.append((True, False))
    if plan['ph']:
        internal.append((True, True))
    if plan['tr'] and plan['ph']:
        internal.append((False, True))
    want = [(R, c, a) for R in ref for c, a in internal]

    def has(lst, R, c, a):
        return any(g.c == c and g.a == a and np.allclose(g.R, R, atol=1e-5) for g in lst)
    refG = [G(R, c, a, None) for R, c, a in want]
    for g in els:
        ctx.check(has(refG, g.R, g.c, g.a), 'not-a-symmetry',
                  lambda: f'{g.R.round(5).tolist()} c={g.c} a={g.a} for basis {B.tolist()}')
    if plan['generators']:
        full = close(els, limit=400)
    else:
        full = els
        ctx.check(len(els) == len(want), 'wrong-order', lambda: f'{len(els)} elements, the group has {len(want)};'
                  f' basis {B.tolist()}')
    for R, c, a in want:
        ctx.check(has(full, R, c, a), 'missing',
                  lambda: f'{R.round(5).tolist()} c={c} a={a} missing ({len(full)} of {len(want)}) for {B.tolist()}')
    ctx.check(len(full) == len(want), 'wrong-order', lambda: f'{len(full)} vs {len(want)}')


def shrink(plan):
    for k, v in (('scale', 1), ('embed', 0), ('basis', 'std'), ('orient', 'std'), ('verbose', False), ('ph', False),
                 ('tr', False), ('generators', False), ('aslist', False), ('asint', False), ('twice', False),
                 ('special', False)):
        if plan.get(k) != v:
            yield {**plan, k: v}
    if plan.get('env'):
        yield {**plan, 'env': {}}
    if plan['nuni'] > 1:
        yield {**plan, 'nuni': plan['nuni'] - 1}
