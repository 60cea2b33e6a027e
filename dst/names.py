"""Workload and oracle of the names of symmetry elements (C21): read the printed
name back and compare with the element."""
import math
import re

import numpy as np

from . import gen, seams
from .core import np_rng

INT = [v for v in __import__('itertools').product((-1, 0, 1), repeat=3) if any(v)]
ANGLES = [(1, 2), (1, 3), (1, 4), (1, 6), (2, 3), (3, 4), (5, 6), (1, 5), (2, 5), (1, 8), (3, 8), (1, 12), (5, 12), (7, 50)]


def generate(rng):
    return dict(d=rng.choice([0, 1, 2, 2, 3, 3, 3, 3]), useed=rng.randrange(10**6), env=gen.gen_env(rng, noise=True),
                ops=[[rng.choice(['new', 'new', 'new', 'mul', 'inv', 'group', 'cgg', 'list', 'evict']), rng.randrange(10**6)]
                     for _ in range(rng.randrange(3, 14))])


def rotation(rs, d):
    """(matrix, exact name: angle and axis are representable)."""
    if d < 2:
        return np.eye(d), True
    if rs.rand() < .75:
        n, m = ANGLES[rs.randint(len(ANGLES))]
        t, exact = 2 * math.pi * n / m * rs.choice([1, -1]), True
    else:
        t, exact = rs.uniform(-math.pi, math.pi), False
    if d == 2:
        return gen.rot2(t), exact
    k = rs.randint(4)
    if k < 2:
        ax = np.array(INT[rs.randint(len(INT))], float)
    elif k == 2:
        ax = np.array([[1, 1, -2], [1, 2, -3], [2, -1, -1], [3, -1, -2], [1, 2, 3], [0, 2, 1], [2, 0, -1]][rs.randint(7)], float)
        exact = False
    else:
        ax, exact = rs.standard_normal(3), False
    return gen.rot3(t, ax / np.linalg.norm(ax)), exact


class Pool:
    def __init__(self, plan, ctx):
        self.plan, self.ctx, self.d = plan, ctx, plan['d']
        self.slots = []

    def new(self, rs):
        import qsymm
        d = self.d
        R, exact = rotation(rs, d)
        kind = rs.randint(4)
        if kind == 1 and d:
            R = -R
        elif kind == 2 and d > 1:
            if d == 3 and rs.rand() < .6:
                n = np.array(INT[rs.randint(len(INT))], float)
            else:
                n, exact = rs.standard_normal(d), False
            n /= np.linalg.norm(n)
            R = np.eye(d) - 2 * np.outer(n, n)
        elif kind == 3:
            R = np.eye(d) * (rs.choice([1, -1]) if d else 1)
            exact = True
        c, a = bool(rs.randint(2)), bool(rs.randint(2))
        U = [None, None, gen.rand_unitary(rs, 2), np.array([[0, 1], [1, 0]], complex)][rs.randint(4)]
        Ri = np.round(R).astype(int)
        lib = Ri if np.allclose(R, Ri) and rs.rand() < .7 else R
        g = self.ctx.call(qsymm.PointGroupElement, lib.copy(), c, a, None if U is None else U.copy())
        return self.push(g, R, c, a, U, exact)

    def push(self, g, R, c, a, U, exact):
        self.judge(g, R, c, a, U, exact)
        self.slots.append((g, R, c, a, U, exact))
        if len(self.slots) > 10:
            del self.slots[1]

    # ---------------------------------------------------------------- judging
    def judge(self, g, R, c, a, U, exact):
        from qsymm.groups import pretty_print_pge
        ctx = self.ctx

        class PP:
            def text(self, s):
                self.s = s
        p = PP()
        ctx.call(g._repr_pretty_, p, False)
        short = ctx.call(pretty_print_pge, g)
        for name, latex in ((p.s, False), (short, False), (ctx.call(g._repr_latex_), True), (ctx.call(pretty_print_pge, g, latex=True), True)):
            rot, az = split(name, latex)
            ctx.check(az == {(0, 0): '', (1, 0): 'T', (1, 1): 'P', (0, 1): 'C'}[int(c), int(a)], 'wrong-type', lambda: f'{name!r}: conjugate {c} antisymmetry {a}')
            self.spatial(rot if rot else '1', R, exact, name, latex)
        for name, latex in ((ctx.call(str, g), False), (ctx.call(pretty_print_pge, g, full=True, latex=True), True)):
            self.full(name, latex, R, c, a, U, exact)
        ctx.nontrivial = True

    def spatial(self, rot, R, exact, name, latex):
        d, ctx = self.d, self.ctx
        try:
            got, letter, sure = read(rot, d, latex)
        except (ValueError, IndexError) as ex:
            ctx.check(False, 'not-readable', f'{name!r}: {type(ex).__name__} {ex}')
        want = kind(R)
        ctx.check(letter == want, 'wrong-letter', lambda: f'{name!r}: should be {want}: R = {R.tolist()}')
        tol = 1e-6 if exact and sure else .03
        ctx.check(not exact or sure, 'rounded-name', lambda: f'{name!r} for R = {R.tolist()}')
        err = np.max(np.abs(got - R), initial=0)
        ctx.check(err < tol, 'wrong-name', lambda: f'{name!r} describes {got.tolist()}, the element is {R.tolist()}')

    def full(self, s, latex, R, c, a, U, exact):
        ctx = self.ctx
        if latex:
            m = re.match(r'^\$U H\(\\mathbf\{k\}\)(\^\*)? U\^\{-1\} = (-)?H\((-)?R\\mathbf\{k\}\) \\\\R = (.*?)\\\\(U = (.*))?\$$', s, re.S)
        else:
            m = re.match(r'^\nU⋅H\(k\)(\*)?⋅U\^-1 = (-)?H\((-)?R⋅k\)\nR = (.*?)\n(U = (.*)\n\n)?$', s, re.S)
        ctx.check(m is not None, 'not-readable', lambda: f'{s!r}')
        ctx.check((bool(m[1]), bool(m[2]), bool(m[3])) == (bool(c), bool(a), bool(c)), 'wrong-action', lambda: f'{s!r}: conjugate {c}, antisymmetry {a}')
        self.spatial(m[4], R, exact, s, latex)
        ctx.check((m[6] is not None) == (U is not None), 'wrong-unitary', lambda: f'{s!r} for U = {U}')
        if U is not None:
            ctx.check(np.allclose(matrix(m[6], latex), U, atol=2e-2 if latex else 2e-3), 'wrong-unitary', lambda: f'{s!r} for U = {U.tolist()}')


def matrix(s, latex):
    if latex:
        s = s.replace(r'\begin{bmatrix}', '').replace(r'\end{bmatrix}', '')
        rows = [r for r in s.split(r'\\') if r.strip()]
        return np.array([[num(x) for x in r.split('&')] for r in rows])
    return np.array([[num(x) for x in re.sub(r'(?<=[0-9.])\s*([+-])\s*(?=[0-9.]+j)', r'\1', r).split()]
                     for r in re.findall(r'\[([^\[\]]+)\]', s)])


def num(s):
    s = re.sub(r'\s', '', s)
    s = re.sub(r'\.(?=[+\-j]|$)', '.0', s)
    return complex(s)


def split(name, latex):
    if latex:
        name = name.strip('$')
        m = re.match(r'^(.*?) ?(?: \\mathcal\{([TPC])\})?$', name, re.S)
        return m[1].strip(), m[2] or ''
    m = re.match(r'^(.*?) ?([TPC])?$', name, re.S)
    return m[1], m[2] or ''


def angle(s, latex):
    s = s.strip()
    if latex:
        m = re.match(r'^(-)?\\frac\{(\d*)\\pi\}\{(\d+)\}$', s) or re.match(r'^(-)?(\d*)\\pi()$', s)
    else:
        m = re.match(r'^(-)?(\d*)π(?:/(\d+))?$', s)
    if not m:
        raise ValueError(s)
    return (-1 if m[1] else 1) * int(m[2] or 1) * math.pi / int(m[3] or 1)


def axis(s):
    """(normalised vector, whether its components are integers)."""
    t = s.strip()[1:-1].split()
    v = np.array([float(x) for x in t])
    return v / np.linalg.norm(v), all('.' not in x for x in t)


def kind(R):
    d = len(R)
    if np.allclose(R, np.eye(d)):
        return '1'
    if d == 1 or d == 3 and np.allclose(R, -np.eye(d)):
        return 'I'
    if np.linalg.det(R) > 0:
        return 'R'
    if d == 2 or abs(np.trace(R) - 1) < 1e-8:
        return 'M'
    return 'S'


def read(rot, d, latex):
    """(matrix, letter, whether nothing was rounded) of a printed name."""
    if rot == '1':
        return np.eye(d), '1', True
    if rot == 'I':
        return -np.eye(d), 'I', True
    m = re.match(r'^([RMS])\\left\((.*)\\right\)$' if latex else r'^([RMS])\((.*)\)$', rot, re.S)
    if not m:
        raise ValueError(rot)
    letter, arg = m[1], m[2]
    if letter == 'M':
        n, sure = axis(arg)
        return np.eye(d) - 2 * np.outer(n, n), letter, sure
    if d == 2:
        return gen.rot2(angle(arg, latex)), letter, True
    ang, ax = arg.split(',', 1)
    n, sure = axis(ax)
    return (1 if letter == 'R' else -1) * gen.rot3(angle(ang, latex), n), letter, sure


# ------------------------------------------------------------------ operations
def op_new(P, r):
    P.new(r)
    return 'new'


def op_mul(P, r):
    s, t = (P.slots[r.randint(len(P.slots))] for _ in '12')
    if type(s[0].R) is not type(t[0].R) or (s[4] is None) != (t[4] is None):
        return None
    g = P.ctx.call(lambda: s[0] * t[0])
    U = None
    if s[4] is not None:
        U = s[4] @ (t[4].conj() if s[2] else t[4])
    P.push(g, s[1] @ t[1], s[2] ^ t[2], s[3] ^ t[3], U, False)
    return 'mul'


def op_inv(P, r):
    s = P.slots[r.randint(len(P.slots))]
    g = P.ctx.call(s[0].inv)
    U = None if s[4] is None else (s[4].T if s[2] else s[4].conj().T)
    P.push(g, s[1].T, s[2], s[3], U, s[5])
    return 'inv'


def op_group(P, r):
    """Named groups, all elements of which print exactly."""
    from qsymm import groups
    if P.d < 2:
        return None
    k = r.randint(4)
    kw = dict(tr=bool(r.randint(2)), ph=bool(r.randint(2)))
    fs = {2: [groups.square, lambda **k: groups.hexagonal(dim=2, **k), lambda **k: groups.hexagonal(dim=2, sympy_R=False, **k), groups.square],
          3: [groups.cubic, lambda **k: groups.hexagonal(dim=3, **k), lambda **k: groups.hexagonal(dim=3, sympy_R=False, **k), groups.cubic]}
    if P.d not in fs:
        return None
    G = sorted(P.ctx.call(lambda: fs[P.d][k](generators=True, **kw)))
    for _ in range(4):
        g = G[r.randint(len(G))]
        for i in r.randint(len(G), size=r.randint(4)):
            g = P.ctx.call(lambda: g * G[i])
        R = np.array(g.R).astype(float)
        P.judge(g, R, bool(g.conjugate), bool(g.antisymmetry), None, P.d == 2 and kind(R) != 'M' or k == 0)
    return ('group', k)


def op_cgg(P, r):
    """Generators of unit strength and positive sense."""
    import qsymm
    from qsymm.groups import pretty_print_cgg
    ctx, d = P.ctx, P.d
    L = None if r.rand() < .4 else gen.rand_herm(r, 2)
    R = n = None
    if d == 2 and (L is None or r.rand() < .7):
        R = np.array([[0, -1j], [1j, 0]])
    elif d == 3 and (L is None or r.rand() < .7):
        n = np.array(INT[r.randint(len(INT))], float) if r.rand() < .6 else r.standard_normal(3)
        n /= np.linalg.norm(n)
        R = -1j * np.array([[0, n[2], -n[1]], [-n[2], 0, n[0]], [n[1], -n[0], 0]])
    if R is None and L is None:
        return None
    g = ctx.call(qsymm.ContinuousGroupGenerator, R, L)
    s = ctx.call(pretty_print_cgg, g)
    t = ctx.call(g._repr_latex_)
    ctx.check(str(g) == s, 'wrong-name', 'str and pretty_print_cgg differ')
    if R is None:
        ctx.check('[H(k), L] = 0' in s and r'\left[ H(\mathbf{{k}}), L \right] = 0' in t.replace('{k}', '{{k}}').replace('{{{k}}}', '{{k}}'), 'wrong-action', lambda: f'{s!r} {t!r}')
        ctx.check('R' not in s and 'R_' not in t, 'wrong-action', lambda: f'{s!r}')
    else:
        lhs = 'exp(-i ϕ L)⋅H(k)⋅exp(i ϕ L) = H(R_ϕ⋅k)' if L is not None else '\nH(k) = H(R_ϕ⋅k)'
        ctx.check(lhs in s, 'wrong-action', lambda: f'{s!r}')
        lhs = r'e^{-i\phi L}H(\mathbf{k})e^{i\phi L} = H(R_{\phi}\mathbf{k})' if L is not None else r'$H(\mathbf{k}) = H(R_{\phi}\mathbf{k})'
        ctx.check(lhs in t.replace('{{', '{').replace('}}', '}'), 'wrong-action', lambda: f'{t!r}')
        if d == 2:
            ctx.check('R_ϕ = R(ϕ)' in s and r'R\left(\phi\right)' in t, 'wrong-name', lambda: f'{s!r}')
        else:
            for u, pat in ((s, r'R_ϕ = R\(ϕ, (\[.*?\])\)'), (t, r'R\\left\(\\phi, (\[.*?\])\\right\)')):
                m = re.search(pat, u, re.S)
                ctx.check(m is not None, 'not-readable', lambda: f'{u!r}')
                v, sure = axis(m[1])
                ctx.check(np.allclose(v, n, atol=1e-6 if sure and np.allclose(np.round(n / max(abs(n))), n / max(abs(n))) else .02),
                          'wrong-name', lambda: f'{u!r} for axis {n}')
    if L is not None:
        m = re.search(r'L = (\[\[.*\]\])', s, re.S)
        ctx.check(m is not None and np.allclose(matrix(m[1], False), L, atol=2e-3), 'wrong-unitary', lambda: f'{s!r} for {L}')
        m = re.search(r'L = (\\begin\{bmatrix\}.*\\end\{bmatrix\})', t, re.S)
        ctx.check(m is not None and np.allclose(matrix(m[1], True), L, atol=2e-2), 'wrong-unitary', lambda: f'{t!r} for {L}')
    ctx.nontrivial = True
    return ('cgg', R is not None, L is not None)


def op_list(P, r):
    from qsymm.groups import PrettyList
    sl = [P.slots[i] for i in r.randint(len(P.slots), size=3)]
    s = P.ctx.call(PrettyList([x[0] for x in sl])._repr_latex_)
    parts = s.strip('$').split(r'\\')
    P.ctx.check(len(parts) == 3, 'wrong-name', lambda: f'{s!r}')
    for x, part in zip(sl, parts):
        rot, az = split(part, True)
        P.ctx.check(az == {(0, 0): '', (1, 0): 'T', (1, 1): 'P', (0, 1): 'C'}[int(x[2]), int(x[3])], 'wrong-type', lambda: f'{s!r}')
        P.spatial(rot if rot else '1', x[1], x[5], s, True)
    return 'list'


def op_evict(P, r):
    if r.rand() < .5:
        seams.clear_qsymm_caches()
    else:
        seams.clear_sympy_cache()
    P.ctx.fault('cache-eviction')
    return 'evict'


def run(plan, ctx):
    P = Pool(plan, ctx)
    P.new(np_rng('names', plan['useed']))
    done = []
    for name, seed in plan['ops']:
        x = globals()['op_' + name](P, np_rng('op', name, seed))
        if x is not None:
            ctx.count('op-' + (x if isinstance(x, str) else x[0]))
            done.append(x)
            ctx.event(str(x), repr(P.slots[-1][0])[:200])
    ctx.sig(plan['d'], [str(x) for x in done], [s[5] for s in P.slots])
