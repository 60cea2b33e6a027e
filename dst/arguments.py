"""Workload and oracle of calls that reuse the same argument objects (C17)."""
import collections

import numpy as np
import scipy.sparse as sps

from . import catalogue as cat
from . import seams
from .core import Violation


def generate(rng):
    k = rng.choice([1, 2, 3, 4, 5, 6])
    ops = cat.draw(rng, k, cheap=rng.random() < .6)
    if rng.random() < .4:       # the same call again
        ops.append(list(rng.choice(ops)))
    env = {}
    if rng.random() < .3:
        env['hash'] = rng.randrange(10**6)
    if rng.random() < .3:
        env['cachesize'] = rng.choice([1, 2, 8])
    return dict(world=rng.randrange(40), ops=ops, readonly=rng.random() < .35, fresh=rng.random() < .5, env=env)


def leaves(x, depth=0, seen=None):
    """Arrays reachable from x."""
    import qsymm
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 6:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        yield x
    elif sps.issparse(x):
        for n in ('data', 'indices', 'indptr', 'row', 'col'):
            if isinstance(getattr(x, n, None), np.ndarray):
                yield getattr(x, n)
    elif isinstance(x, qsymm.Model):
        for v in x.values():
            yield from leaves(v, depth + 1, seen)
    elif isinstance(x, qsymm.PointGroupElement):
        yield from leaves(x.U, depth + 1, seen)
    elif isinstance(x, qsymm.ContinuousGroupGenerator):
        yield from leaves(x.U, depth + 1, seen)
        yield from leaves(x.R, depth + 1, seen)
    elif isinstance(x, dict):
        for v in x.values():
            yield from leaves(v, depth + 1, seen)
    elif isinstance(x, (list, tuple, set, frozenset)):
        for v in x:
            yield from leaves(v, depth + 1, seen)


def behaviour(w):
    """Hash, equality and settings of the objects of a world."""
    import qsymm
    out = collections.OrderedDict()
    ps = []
    for k, v in w.o.items():
        if isinstance(v, qsymm.PointGroupElement):
            out[k] = (hash(v), v._strict_eq, v.conjugate, v.antisymmetry, type(v.R).__name__)
            ps.append((k, v))
        elif isinstance(v, qsymm.Model):
            out[k] = (tuple(str(m) for m in v.momenta), v.shape, str(v.format), sorted(map(repr, v.keep or ()), key=str),
                      [hash(key) for key in v.keys()], [id(x) for x in v.values()])
        elif isinstance(v, np.ndarray):
            out[k] = (v.dtype.str, v.shape, v.strides, v.flags.writeable)
        elif isinstance(v, dict):
            out[k] = [repr(type(x)) for x in v.values()]
    out['=='] = [(a, b, x == y) for i, (a, x) in enumerate(ps) for b, y in ps[:i]
                 if isinstance(x.R, type(y.R)) and np.shape(x.R) == np.shape(y.R)]
    return out


def run(plan, ctx):
    seams.clear_qsymm_caches()
    want = []
    for o in plan['ops']:
        want.append(cat.canon(ctx.call(cat.do, cat.World(plan['world']), o)))
    w = cat.World(plan['world'])
    for o in plan['ops']:       # make the objects the calls use
        t = cat.World(plan['world'])
        cat.do(t, o)
        w.prebuild(t.o)
    if plan['fresh']:
        seams.clear_qsymm_caches()
    if plan['readonly']:
        arrs = [a for v in w.o.values() for a in leaves(v)]
        for a in arrs:
            a.flags.writeable = False
        ctx.fault('read-only-arrays')
    before, ids, beh = cat.snapshot(w), cat.identities(w), behaviour(w)
    held = []
    for j, o in enumerate(plan['ops']):
        try:
            res = cat.do(w, o)
        except Exception as ex:
            import traceback
            raise Violation('call-failed', f'{o} after {plan["ops"][:j]} readonly={plan["readonly"]}: {type(ex).__name__}: {ex}\n'
                            + traceback.format_exc()[-600:])
        ctx.have_result = True
        what = f'{o} after {[x[0] for x in plan["ops"][:j]]}'
        after = cat.snapshot(w)
        for n in before:
            ctx.check(cat.near(before[n], after[n], 0.), 'argument-changed', lambda: f'{what}: {n}: {cat.diff(before[n], after[n])}')
        i2 = cat.identities(w)
        ctx.check(ids == i2, 'argument-contents-replaced', lambda: f'{what}: {[n for n in ids if ids[n] != i2.get(n)]}')
        b2 = behaviour(w)
        ctx.check(beh == b2, 'argument-behaviour-changed', lambda: f'{what}: {[(n, beh[n], b2.get(n)) for n in beh if beh[n] != b2.get(n)][:2]}')
        for h, c, oo in held:
            ctx.check(cat.near(cat.canon(h), c, 0.), 'earlier-result-changed', lambda: f'{what} changed the result of {oo}')
        c = cat.canon(res)
        ctx.check(cat.near(c, want[j]), 'different-effect', lambda: f'{what}: {cat.diff(c, want[j])}')
        if not (isinstance(c, tuple) and c[:1] == ('iter',)):
            held.append((res, c, o))
    # what is given back may be changed without changing what was given
    ctx.nontrivial = bool(plan['ops'])
    ctx.count('objects', len(w.o))
    ctx.event('ops', [o[0] for o in plan['ops']], len(w.o))
    ctx.sig('args', [o[0] for o in plan['ops']], plan['readonly'], len(w.o))


def shrink(plan):
    if plan['readonly']:
        yield {**plan, 'readonly': False}
