"""Workload and oracle of process history (C20)."""
import os
import random
import sys

import numpy as np
import scipy.sparse as sps

from . import catalogue as cat
from . import failures, sched, seams, zygote
from .core import HarnessError, Violation, subseed

# bases of spaces of Hamiltonians: the order of the monomials, hence the basis chosen, may follow the hash seed
BASES = {'family-tools', 'family-vectors', 'bloch-family-kinds', 'continuum-kinds', 'pairing', 'continuum', 'bloch-family',
         'constrain', 'continuum-powers', 'subgroups'}


def outline(c):
    """What does not depend on the choice of a basis: number, kind and shape."""
    if isinstance(c, tuple) and c[:1] == ('model',):
        return c[:5]
    if isinstance(c, tuple) and c[:1] == ('pge',):
        return c[:4]        # the sign of U is open
    if isinstance(c, tuple) and c[:1] in (('arr',), ('oarr',)):
        return c[:3]
    if isinstance(c, tuple) and c[:1] in (('sym',), ('symat',)):
        return c[:1 + (c[0] == 'symat')]        # the members as one expression
    if isinstance(c, (tuple, list)) and c[:1] != ('num',):
        return [outline(e) for e in c]
    return type(c).__name__


def signless(c):
    """The sign of the unitary of an element that was generated follows the order of the set of generators."""
    if isinstance(c, tuple) and c[:1] == ('pge',):
        return c[:4] + tuple(positive(x) for x in c[4:])
    if isinstance(c, (list, tuple)):
        return type(c)(signless(e) for e in c)
    return c


def positive(x):
    if isinstance(x, np.ndarray) and x.dtype != object and x.size:
        big = x.ravel()[np.argmax(np.abs(x.ravel()) > .1 * np.abs(x).max())]
        return x if (big.real if abs(big.real) > 1e-3 * abs(big) else big.imag) > 0 else -x
    if isinstance(x, tuple):
        return tuple(positive(e) for e in x)
    return x


# calls whose answer goes through a cache of the library
FOCUS = ['number-keys', 'number-keys', 'number-text', 'model-text', 'bloch-text', 'bloch-raw', 'model-normalize', 'model-locals', 'subs', 'subs-bloch',
         'pge-mul', 'pge-inv', 'pge-pow', 'pge-apply', 'named', 'sympify-locals']
SPARSE = {'symmetries-kinds'}       # may start a sparse solver from a random vector


def generate(rng):
    hist = []
    w = rng.randrange(12)
    target = cat.draw(rng, 1, cheap=rng.random() < .5)[0]
    own = .35
    if rng.random() < .25:
        target[0], own = rng.choice(FOCUS), .75
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
        k = rng.random()
        # the target's own kind of call is the likeliest to disturb it
        name = target[0] if rng.random() < own else cat.draw(rng, 1, cheap=True)[0][0]
        opn = [name, target[1] if rng.random() < .3 else rng.randrange(10**6)]
        if k < .45:
            hist.append(['op', opn])
        elif k < .7:
            hist.append(['scribble', opn])
        elif k < .82:
            hist.append(['fail', opn, rng.choice(['MemoryError', 'interrupt', 'LinAlgError', 'RecursionError']),
                         rng.choice(['any', 'site', 'func', 'tail', 'shared']), rng.random(), rng.random()])
        elif k < .87:
            hist.append(['evict', rng.choice(['sympy', 'qsymm', 'both'])])
        elif k < .94:
            hist.append(['seed', rng.randrange(2**31)])
        else:
            hist.append(['draw', rng.randrange(1, 700)])
    if rng.random() < .3:
        return dict(world=w, twins=[o + [rng.random() < .3] for o in cat.draw(rng, 6, cheap=True)], env={})
    env = {}
    if rng.random() < .25:
        env['cachesize'] = rng.choice([1, 2, 8])
    return dict(world=w, world2=w if rng.random() < .6 else rng.randrange(12), history=hist, target=target,
                otherhash=rng.random() < .3, env=env)


def constants():
    """Everything the harness's own modules hold: never to be changed."""
    out = []
    todo = [v for n, m in list(sys.modules.items()) if m and n.split('.')[0] == __name__.split('.')[0]
            for k, v in vars(m).items() if not k.startswith('__')]
    seen = set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, (np.ndarray, sps.spmatrix, sps.sparray)):
            out.append(x)
        elif isinstance(x, dict):
            todo += list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        elif callable(x) and getattr(x, '__closure__', None):
            todo += [c.cell_contents for c in x.__closure__]
    return seen, [x if isinstance(x, np.ndarray) else x.data for x in out]


KEEP = None


def scribble(x, rs, depth=0, seen=None):
    """Change a result in every way a user can."""
    import qsymm
    import sympy
    global KEEP
    if KEEP is None:
        KEEP = constants()
    seen = set(KEEP[0]) if seen is None else seen
    if id(x) in seen or depth > 5:
        return
    if isinstance(x, np.ndarray) or sps.issparse(x):
        d = x if isinstance(x, np.ndarray) else x.data
        if any(np.may_share_memory(d, c) for c in KEEP[1]):
            return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for e in x.ravel():
                scribble(e, rs, depth + 1, seen)
        if x.flags.writeable and x.size:
            x[...] = 7
    elif sps.issparse(x):
        if getattr(x, 'data', None) is not None and isinstance(x.data, np.ndarray):
            x.data[...] = 7
    elif isinstance(x, qsymm.Model):
        for v in list(x.values()):
            scribble(v, rs, depth + 1, seen)
        for k in list(x.keys())[:1 + rs.randint(2)]:
            del x[k]
        x.momenta = ()
    elif isinstance(x, qsymm.PointGroupElement):
        scribble(x.U, rs, depth + 1, seen)
        scribble(x.R, rs, depth + 1, seen)
        x.conjugate = not x.conjugate
        x._strict_eq = not x._strict_eq
    elif isinstance(x, qsymm.ContinuousGroupGenerator):
        scribble(x.U, rs, depth + 1, seen)
        scribble(x.R, rs, depth + 1, seen)
        x.U = None
    elif isinstance(x, sympy.MutableDenseMatrix):
        x.fill(7)
    elif type(x).__module__.startswith('tinyarray'):
        try:
            x[tuple(0 for _ in x.shape)] = 7
        except TypeError:
            pass
    elif isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, rs, depth + 1, seen)
        x.clear()
        x['junk'] = 7
    elif isinstance(x, set):
        for v in list(x):
            scribble(v, rs, depth + 1, seen)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in list(x):
            scribble(v, rs, depth + 1, seen)
        if isinstance(x, list):
            x.reverse()
            x.append('junk')


def rng_state():
    s = np.random.get_state()
    return s[1].tobytes(), s[2:], random.getstate()


def perform(w, o, what):
    s = rng_state()
    g = {k: v for k, v in seams.global_state().items() if k != 'nprandom'}
    try:
        return cat.do(w, o)
    finally:
        if o[0] not in SPARSE and rng_state() != s:
            raise Violation('random-state', f'{what}: {o} changed the state of a global random number generator')
        g2 = {k: v for k, v in seams.global_state().items() if k != 'nprandom'}
        if g2 != g:
            raise Violation('process-state', f'{what}: {o} changed {[k for k in g if g[k] != g2[k]]}')


def twins(plan, ctx):
    """A call, everything it gave back and was given changed in place, and the call again."""
    for name, s, warm in plan['twins']:
        o = [name, s]
        if not warm:
            seams.clear_qsymm_caches()
        w = cat.World(plan['world'])
        try:
            res = perform(w, o, 'first call')
            want = cat.canon(res)
            scribble(res, np.random.RandomState(s))
            for v in list(w.o.values()):
                scribble(v, np.random.RandomState(s))
            ctx.fault('results-changed-in-place')
            got = cat.canon(perform(cat.World(plan['world']), o, 'second call'))
        except Exception as ex:
            if isinstance(ex, (HarnessError, Violation)):
                raise
            raise Violation('call-failed', f'{o} twice: {type(ex).__name__}: {ex}')
        ctx.have_result = True
        ctx.check(cat.near(got, want), 'depends-on-history', lambda: f'{o} after its first result was changed in place: {cat.diff(got, want)}')
    ctx.nontrivial = True
    ctx.event('twins', plan['twins'])
    ctx.sig('twins', [o[0] for o in plan['twins']])


def run(plan, ctx):
    if 'twins' in plan:
        return twins(plan, ctx)
    other = subseed('zygote', os.environ.get('PYTHONHASHSEED', '0')) % 2**32
    own = os.environ.get('PYTHONHASHSEED', '0')
    try:
        want = zygote.get(own).ask('result', plan['world'], plan['target'])
        want2 = zygote.get(other).ask('result', plan['world'], plan['target']) if plan['otherhash'] else None
    except zygote.Remote as ex:
        raise Violation('call-failed', f'{plan["target"]} in a fresh process: {ex}')
    w = cat.World(plan['world2'])
    done = []
    for h in plan['history']:
        kind = h[0]
        if kind in ('op', 'scribble'):
            wh = w if kind == 'op' else cat.World(plan['world2'])
            try:
                res = perform(wh, h[1], 'history')
            except Exception as ex:
                raise Violation('call-failed', f'{h[1]} after {done}: {type(ex).__name__}: {ex}')
            if kind == 'scribble':
                scribble(res, np.random.RandomState(h[1][1]))
                for v in list(wh.o.values()):
                    scribble(v, np.random.RandomState(h[1][1]))
                ctx.fault('results-changed-in-place')
        elif kind == 'fail':
            wh = cat.World(plan['world2'])
            t = cat.World(plan['world2'])
            sched.start(sched.CALLS, failures.BUDGET)
            sched.M.record = []
            try:
                cat.do(t, h[1])
            finally:
                rec = sched.M.record
                sched.stop()
            wh.prebuild(t.o)
            k = failures.choose(rec, *h[2:])
            if k is not None:
                sched.start(sched.CALLS, failures.BUDGET)
                sched.M.inject_at = {k: failures.KINDS[h[2]]}
                try:
                    cat.do(wh, h[1])
                except sched.NoProgress:
                    raise
                except BaseException:
                    pass
                sched.stop()
                ctx.fault('failing-call:' + h[2])
        elif kind == 'evict':
            if h[1] in ('sympy', 'both'):
                seams.clear_sympy_cache()
            if h[1] in ('qsymm', 'both'):
                seams.clear_qsymm_caches()
            ctx.fault('cache-eviction')
        elif kind == 'seed':
            np.random.seed(h[1])
            random.seed(h[1])
            ctx.fault('reseeding')
        elif kind == 'draw':
            np.random.rand(h[1])
            [random.random() for _ in range(h[1] % 50)]
            ctx.fault('random-draws')
        done.append([kind] + ([h[1][0]] if isinstance(h[1], list) else [h[1]]))
    try:
        got = cat.canon(perform(cat.World(plan['world']), plan['target'], 'target'))
    except Exception as ex:
        if isinstance(ex, (HarnessError, Violation)):
            raise
        raise Violation('call-failed', f'{plan["target"]} after {done}: {type(ex).__name__}: {ex}')
    ctx.have_result = True
    ctx.check(cat.near(got, want), 'depends-on-history', lambda: f'{plan["target"]} after {done}: {cat.diff(got, want)}')
    if want2 is not None:
        ctx.fault('other-hash-seed')
        if plan['target'][0] in BASES:
            got, want2 = outline(got), outline(want2)
        got, want2 = signless(got), signless(want2)
        ctx.check(cat.near(got, want2), 'depends-on-hash-seed', lambda: f'{plan["target"]}: {cat.diff(got, want2)}')
    again = cat.canon(perform(cat.World(plan['world']), plan['target'], 'second call'))
    ctx.check(cat.near(again, want), 'depends-on-history', lambda: f'second {plan["target"]} after {done}: {cat.diff(again, want)}')
    ctx.nontrivial = True
    ctx.event('done', done, plan['target'])
    ctx.sig('history', done, plan['target'][0], plan['otherhash'])


def shrink(plan):
    if 'twins' in plan:
        return
    if plan['otherhash']:
        yield {**plan, 'otherhash': False}
    if plan['world2'] != plan['world']:
        yield {**plan, 'world2': plan['world']}
