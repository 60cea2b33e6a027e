"""Workload and oracles of objects that are copied, pickled and restored (C18).

The objects of a run go through chains of copies, deep copies, pickles, torn
or failed writes and restarts; a restart hands the pickled bytes to a process
without history and with another hash seed, which uses the objects together
with its own and pickles them again."""
import copy
import io
import os
import pickle

import numpy as np
import scipy.sparse as sps

from . import arguments, catalogue as cat
from . import convert, elements, models, seams, zygote
from .history import BASES, outline
from .core import HarnessError, Violation, np_rng, subseed

UNORDERED = {'strings'}       # show the order of the terms, which is open
PLAIN = (str, bytes, bool, int, float, complex, type(None), np.generic)


def gen_moves(rng):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        k = rng.choice(['pickle', 'pickle', 'restart', 'restart', 'deepcopy', 'copy', 'method', 'evict', 'torn', 'full'])
        if k in ('pickle', 'torn', 'full'):
            out.append([k, rng.randrange(2, 6), rng.random()])      # sympy: protocol 2 or higher
        elif k == 'restart':
            out.append([k, rng.randrange(2, 6), rng.randrange(3)])
        elif k == 'evict':
            out.append([k, rng.choice(['sympy', 'qsymm', 'both'])])
        else:
            out.append([k])
    return out


def generate(rng):
    kind = rng.choice(['catalogue', 'catalogue', 'catalogue', 'algebra', 'elements', 'chain'])
    if kind == 'catalogue':
        env = {}
        if rng.random() < .3:
            env['hash'] = rng.randrange(10**6)
        if rng.random() < .3:
            env['cachesize'] = rng.choice([1, 2, 8])
        return dict(kind=kind, world=rng.randrange(40), ops=cat.draw(rng, rng.choice([1, 1, 2, 3]), cheap=rng.random() < .7),
                    moves=gen_moves(rng), apart=rng.random() < .4, env=env)
    if kind == 'algebra':
        sub = models.gen_algebra(rng)
        new = [['persist', rng.randrange(100), 0, gen_moves(rng)] for _ in range(rng.choice([1, 2, 3]))]
    elif kind == 'elements':
        sub = elements.generate(rng)
        new = [['persist', gen_moves(rng)] for _ in range(rng.choice([1, 2, 3]))]
    else:
        sub = convert.gen_chain(rng)
        new = [['persist', gen_moves(rng)] for _ in range(rng.choice([1, 2]))]
    ops = [o for o in sub['ops']][:8]
    for n in new:
        ops.insert(rng.randrange(len(ops) + 1), n)
    sub['ops'] = ops
    return dict(kind=kind, sub=sub, env=sub.pop('env'), ops=[])


# ------------------------------------------------------------------- moving
def hashseeds():
    own = os.environ.get('PYTHONHASHSEED', '0')
    return [own, str(subseed('zygote', own) % 2**32), str(subseed('zygote2', own) % 2**32)]


class Full(io.BytesIO):
    def __init__(self, n):
        super().__init__()
        self.n = n

    def write(self, b):
        if self.tell() + len(b) > self.n:
            super().write(bytes(b)[:max(0, self.n - self.tell())])
            raise OSError(28, 'No space left on device')
        return super().write(b)


def dumps(x, proto, what):
    try:
        return pickle.dumps(x, protocol=proto)
    except Exception as ex:
        raise Violation('not-picklable', f'{what}: protocol {proto}: {type(ex).__name__}: {ex}')


def loads(b, what):
    try:
        return pickle.loads(b)
    except Exception as ex:
        raise Violation('not-restored', f'{what}: {type(ex).__name__}: {ex}')


def shallow(x):
    """Copies made with the method the object has."""
    import sympy
    if hasattr(x, 'copy') and not isinstance(x, (np.generic, sps.sparray, sympy.Basic, list)):
        return x.copy()
    return copy.copy(x)


def spread(x, f):
    """f on each object of plain containers."""
    if type(x) is dict:
        return {k: spread(v, f) for k, v in x.items()}
    if type(x) in (list, tuple):
        return type(x)(spread(v, f) for v in x)
    return f(x)


def move(x, moves, ctx):
    """x after the moves; whether nothing is shared with x any more."""
    deep = False
    for m in moves:
        kind = m[0]
        if kind == 'evict':
            if m[1] in ('sympy', 'both'):
                seams.clear_sympy_cache()
            if m[1] in ('qsymm', 'both'):
                seams.clear_qsymm_caches()
            ctx.fault('cache-eviction')
        elif kind == 'copy':
            x = spread(x, copy.copy)
        elif kind == 'method':
            x = spread(x, shallow)
        elif kind == 'deepcopy':
            try:
                x = copy.deepcopy(x)
            except Exception as ex:
                raise Violation('not-copied', f'deepcopy: {type(ex).__name__}: {ex}')
            deep = True
        elif kind == 'pickle':
            x, deep = loads(dumps(x, m[1], 'pickle'), 'pickle'), True
        elif kind == 'torn':
            b = dumps(x, m[1], 'pickle')
            try:
                y = pickle.loads(b[:int(len(b) * m[2])])
            except Exception:
                ctx.fault('torn-stream')
            else:
                raise Violation('torn-accepted', f'a torn stream gave {y!r:.100}')
            x, deep = loads(b, 'after a torn stream'), True
        elif kind == 'full':
            b = dumps(x, m[1], 'pickle')
            try:
                pickle.Pickler(Full(int(len(b) * m[2])), m[1]).dump(x)
            except OSError:
                ctx.fault('disk-full')
            x, deep = loads(dumps(x, m[1], 'after a failed write'), 'after a failed write'), True
        elif kind == 'restart':
            hs = hashseeds()[m[2]]
            try:
                b = zygote.get(hs).ask('visit', dumps(x, m[1], 'restart'), m[1])
            except zygote.Remote as ex:
                raise Violation('restart', f'hash seed {hs}: {str(ex)[-1500:]}')
            if isinstance(b, tuple):
                raise Violation(b[0], f'in another process, hash seed {hs}: {b[1]}')
            ctx.fault('restart')
            x, deep = loads(b, 'restart'), True
    return x, deep


# ---------------------------------------------------------------- inspecting
def objects(x, depth=0, seen=None):
    """Objects of the library reachable from x."""
    import qsymm
    from qsymm.model import BlochCoeff
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 6:
        return
    seen.add(id(x))
    if isinstance(x, qsymm.Model):
        yield x
        yield from x.keys()
    elif isinstance(x, (qsymm.PointGroupElement, qsymm.ContinuousGroupGenerator, BlochCoeff)):
        yield x
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from objects(k, depth + 1, seen)
            yield from objects(v, depth + 1, seen)
    elif isinstance(x, (list, tuple, set, frozenset)):
        if hasattr(x, '_repr_latex_'):
            yield x
        for v in sorted(x, key=repr) if isinstance(x, (set, frozenset)) else x:
            yield from objects(v, depth + 1, seen)


class PP:
    s = None

    def text(self, s):
        self.s = s


def shown(f, *args):
    """What f prints; operations in skewed coordinates have no names, and raise with every copy alike."""
    try:
        return f(*args)
    except AssertionError:
        return 'AssertionError'


def text(x):
    """Everything the object prints."""
    out = [repr(x), shown(str, x)]
    if hasattr(x, '_repr_latex_'):
        try:
            out.append(shown(x._repr_latex_))
        except AttributeError:
            if all(hasattr(e, '_repr_latex_') for e in x if isinstance(x, list)):
                raise
    if hasattr(x, '_repr_pretty_'):
        p = PP()
        shown(x._repr_pretty_, p, False)
        out.append(p.s)
    return out


class Fail(Exception):
    pass


def need(ok, kind, msg):
    if not ok:
        raise Fail(kind, msg() if callable(msg) else msg)


def use(x):
    """Use restored objects on their own and with objects made here."""
    import qsymm
    from qsymm.model import BlochCoeff
    for o in objects(x):
        name = type(o).__name__
        try:
            text(o)
        except Exception as ex:
            raise Fail('not-printed', f'{name}: {type(ex).__name__}: {ex}')
        if isinstance(o, qsymm.Model):
            need(o == o.copy(), 'not-equal', 'Model differs from its copy')
            if len(o):
                need(all(k in o and o[k] is v for k, v in o.items()), 'lost-key', lambda: f'{list(o.keys())}')
                need(all(k2 in o for k2 in [remake(k) for k in o.keys()]), 'lost-key',
                     lambda: f'{list(o.keys())}: keys made here are not found')
                if o.format in (np.ndarray, sps.csr_matrix, np.complex128):
                    need(len(o - o) == 0 or all(not np.any(arr(v)) for v in (o - o).values()), 'wrong-difference', 'o - o')
                    two = o + o.copy()
                    need(set(two.keys()) == set(o.keys()) or len(two) <= len(o), 'wrong-sum', 'o + o')
                    need(all(np.allclose(arr(two[k]), 2 * arr(v)) for k, v in o.items()), 'wrong-sum', 'o + o')
            mom = list(o.momenta)
            need([str(s) for s in mom] == [str(s) for s in qsymm.Model({}, momenta=[str(s) for s in mom], shape=(), format=np.ndarray).momenta]
                 and mom == list(qsymm.Model({}, momenta=[str(s) for s in mom], shape=(), format=np.ndarray).momenta),
                 'wrong-momenta', lambda: f'{mom} differ from the ones made here')
        elif isinstance(o, qsymm.PointGroupElement):
            g = qsymm.PointGroupElement(copy.copy(o.R), o.conjugate, o.antisymmetry, None if o.U is None else np.array(o.U),
                                        _strict_eq=o._strict_eq)
            need(o == g and g == o, 'not-equal', lambda: f'{o!r} and the same element made here')
            need(hash(o) == hash(g) and o in {g} and g in {o} and {o: 1}.get(g) == 1, 'not-found', lambda: f'{o!r} in a set')
            need((o * g.inv()).identity() == o.identity() and (o.inv() * g)._strict_eq == o._strict_eq, 'wrong-product',
                 lambda: f'{o!r}')
        elif isinstance(o, BlochCoeff):
            b = BlochCoeff(np.array(o[0]), remake(o[1]))
            need(o == b and b == o and not (o != b) and hash(o) == hash(b) and o in {b} and {o: 1}.get(b) == 1, 'not-found',
                 lambda: f'{o} in a dictionary')


def arr(v):
    return v.toarray() if sps.issparse(v) else np.asarray(v)


def remake(k):
    """The same key, made again in this process."""
    import sympy
    from qsymm.model import BlochCoeff
    if isinstance(k, BlochCoeff):
        return BlochCoeff(np.array(k[0]), remake(k[1]))
    if isinstance(k, sympy.Symbol):
        return sympy.Symbol(k.name, **k._assumptions_orig)
    if isinstance(k, sympy.Basic) and k.args:
        return k.func(*[remake(a) for a in k.args])
    return k


def compare(a, b, what, deep):
    """b, restored, against a."""
    import qsymm
    from qsymm.model import BlochCoeff
    need(type(a) is type(b), 'other-type', lambda: f'{what}: {type(a)} became {type(b)}')
    ca, cb = cat.canon(a), cat.canon(b)
    need(cat.near(ca, cb, 0.), 'not-equal', lambda: f'{what}: {cat.diff(ca, cb)}')
    oa, ob = list(objects(a)), list(objects(b))
    if len(oa) == len(ob):
        for x, y in zip(oa, ob):
            need(type(x) is type(y), 'other-type', lambda: f'{what}: {type(x)} became {type(y)}')
            tx = text(x)
            ty = text(y)
            # the sign of a normal or axis and the order of sparse entries are open
            need(tx == ty or not isinstance(x, qsymm.Model) or x.format is sps.csr_matrix, 'other-print', lambda: f'{what}: {[(s, t) for s, t in zip(tx, ty) if s != t]}')
            if isinstance(x, qsymm.Model):
                need(x == y and y == x and not (x != y) and x.allclose(y), 'not-equal', lambda: f'{what}: {x} restored as {y}')
                need(x.format is y.format and tuple(x.momenta) == tuple(y.momenta) and x.keep == y.keep and x.shape == y.shape,
                     'wrong-setting', lambda: f'{what}: {[(n, getattr(x, n), getattr(y, n)) for n in ("format", "momenta", "keep", "shape")]}')
                need(list(x.keys()) == list(y.keys()), 'other-order', lambda: f'{what}')
                need(all(k in x for k in y) and all(hash(k) == hash(l) for k, l in zip(x, y)), 'lost-key', lambda: f'{what}')
                if deep and x is not y:
                    need(not any(isinstance(v, np.ndarray) and isinstance(w, np.ndarray) and v.ndim and np.shares_memory(v, w)
                                 for v, w in zip(x.values(), y.values())), 'shared', lambda: f'{what}')
            elif isinstance(x, qsymm.PointGroupElement):
                need(x == y and y == x and hash(x) == hash(y) and x in {y} and not x < y and not y < x, 'not-equal', lambda: f'{what}: {x!r} {y!r}')
                need(type(x.R) is type(y.R) and x._strict_eq is y._strict_eq, 'wrong-setting', lambda: f'{what}: {x!r} {y!r}')
            elif isinstance(x, BlochCoeff):
                need(x == y and y == x and not (x != y) and hash(x) == hash(y), 'not-equal', lambda: f'{what}: {x} {y}')
            elif not isinstance(x, (list, qsymm.ContinuousGroupGenerator)):
                need(x == y and hash(x) == hash(y), 'not-equal', lambda: f'{what}: {x} {y}')
    if isinstance(a, (set, frozenset)):
        need(a == b and all(e in b for e in a), 'not-equal', lambda: f'{what}: {a} {b}')
    # changing a copy leaves the original alone
    for x, y in zip(oa, ob):
        if isinstance(y, qsymm.Model) and len(y) and x is not y:
            items = list(y.items())
            for k, v in items:
                del y[k]
            need(len(x) == len(items), 'shared', lambda: f'{what}: deleting terms of a copy')
            for k, v in items:
                y[k] = v


def movable(x, depth=0):
    """Whether pickle could be asked for x at all."""
    import qsymm
    import sympy
    if isinstance(x, qsymm.Model):
        return x.format in (np.ndarray, sps.csr_matrix, np.complex128, None)
    if isinstance(x, PLAIN + (qsymm.PointGroupElement, qsymm.ContinuousGroupGenerator, sympy.Basic, sympy.MatrixBase, np.ndarray)):
        return True
    if sps.issparse(x) or type(x).__module__.startswith('tinyarray'):
        return True
    if isinstance(x, dict):
        return all(movable(k) and movable(v) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return all(movable(v) for v in x)
    return False


def judged(f, *args):
    try:
        return f(*args)
    except Fail as ex:
        raise Violation(ex.args[0], ex.args[1])
    except (Violation, HarnessError):
        raise
    except Exception as ex:
        import traceback
        raise Violation('call-failed', f'{type(ex).__name__}: {ex}\n' + traceback.format_exc()[-900:])


# ------------------------------------------------------------------ workloads
def run_catalogue(plan, ctx):
    want, w = [], cat.World(plan['world'])
    for o in plan['ops']:
        t = cat.World(plan['world'])
        want.append(cat.canon(ctx.call(cat.do, t, o)))
        w.prebuild(t.o)
    keep = [k for k in w.o if movable(w.o[k])]
    before = cat.snapshot(w)
    if plan['apart']:
        new = {k: move(w.o[k], plan['moves'], ctx) for k in keep}
        deep = any(v[1] for v in new.values())
        new = {k: v[0] for k, v in new.items()}
    else:
        new, deep = move({k: w.o[k] for k in keep}, plan['moves'], ctx)
    ctx.have_result = True
    after = cat.snapshot(w)
    for k in before:
        ctx.check(cat.near(before[k], after[k], 0.), 'original-changed', lambda: f'{k}: {cat.diff(before[k], after[k])}')
    for k in keep:
        judged(compare, w.o[k], new[k], f'{k} after {plan["moves"]}', deep)
    judged(use, new)
    # restored objects as arguments, alone and with objects made here
    for only in (None, 'half'):
        v = cat.World(plan['world'])
        v.prebuild([k for k in w.o if k not in new])
        for i, k in enumerate(keep):
            if only is None or (i + plan['world']) % 2:
                v.o[k] = new[k]
            else:
                v.o[k] = w.o[k]
        for o, c in zip(plan['ops'], want):
            if o[0] in UNORDERED:
                continue
            try:
                res = cat.do(v, o)
                got = cat.canon(res)
            except Exception as ex:
                raise Violation('call-failed', f'{o} on restored objects ({plan["moves"]}): {type(ex).__name__}: {ex}')
            if o[0] in BASES:
                got, c = outline(got), outline(c)
            ctx.check(cat.near(got, c), 'acts-differently', lambda: f'{o} on restored objects ({plan["moves"]}): {cat.diff(got, c)}')
            if only is None and movable(res):
                r2, deep = move(res, plan['moves'], ctx)
                judged(compare, res, r2, f'result of {o} after {plan["moves"]}', deep)
                judged(use, r2)
                ctx.count('results')
    ctx.nontrivial = True
    ctx.count('objects', len(keep))
    ctx.event('catalogue', [o[0] for o in plan['ops']], plan['moves'], len(keep))
    ctx.sig('catalogue', [o[0] for o in plan['ops']], [m[:2] for m in plan['moves']], plan['apart'])


def op_algebra(M, a, b, r, op):
    """Slot a and all others restored in place of the originals."""
    old = [s['m'] for s in M.slots]
    if not all(movable(m) for m in old):
        return False
    some = old if op[1] % 2 else [a['m']]
    new, deep = move(some, op[3], M.ctx)
    for x, y in zip(some, new):
        judged(compare, x, y, f'Model after {op[3]}', deep)
    judged(use, new)
    for s in M.slots:
        for x, y in zip(some, new):
            if s['m'] is x:
                s['m'] = y
                M.judge(s, f'restored after {op[3]}')
                break
    M.ctx.nontrivial = True


def op_elements(P, moves):
    old = [s[0] for s in P.slots]
    pack = [old, frozenset(old), {g: i for i, g in enumerate(old)}] if len({type(g.R) for g in old}) == 1 else [old]
    new, deep = move(pack, moves, P.ctx)
    for x, y in zip(pack, new):
        judged(compare, x, y, f'elements after {moves}', deep)
    judged(use, new)
    P.slots[:] = [(y, s[1], s[2]) for y, s in zip(new[0], P.slots)]
    for g, x, st in P.slots:
        P.judge(g, x, f'restored after {moves}')
    P.ctx.nontrivial = True
    return ('persist', [m[0] for m in moves])


def op_chain(C, m, moves):
    if not movable(m):
        return False
    n, deep = move(m, moves, C.ctx)
    judged(compare, m, n, f'Model after {moves}', deep)
    judged(use, n)
    C.ctx.nontrivial = True
    return n


def run(plan, ctx):
    if plan['kind'] == 'catalogue':
        return run_catalogue(plan, ctx)
    sub = dict(plan['sub'], run_seed=plan['run_seed'])
    if plan['kind'] == 'algebra':
        models.op_persist = op_algebra
        models.run_algebra(sub, ctx)
    elif plan['kind'] == 'elements':
        elements.op_persist = op_elements
        elements.run(sub, ctx)
    else:
        convert.op_persist = op_chain
        convert.run_chain(sub, ctx)


def shrink(plan):
    if plan['kind'] == 'catalogue':
        for i in range(len(plan['moves'])):
            if len(plan['moves']) > 1:
                yield {**plan, 'moves': plan['moves'][:i] + plan['moves'][i + 1:]}
        if plan['apart']:
            yield {**plan, 'apart': False}
    else:
        ops = plan['sub']['ops']
        for i in range(len(ops)):
            yield {**plan, 'sub': {**plan['sub'], 'ops': ops[:i] + ops[i + 1:]}}
