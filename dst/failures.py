"""Workload and oracle of failing and interrupted calls (C16)."""
import numpy as np

from . import catalogue as cat
from . import sched, seams
from .core import InjectedFault, Violation

BUDGET = 20_000_000


class SimMemoryError(MemoryError, InjectedFault):
    pass


class SimInterrupt(KeyboardInterrupt, InjectedFault):
    pass


class SimLinAlgError(np.linalg.LinAlgError, InjectedFault):
    pass


class SimValueError(ValueError, InjectedFault):
    pass


class SimRecursion(RecursionError, InjectedFault):
    pass


KINDS = {'MemoryError': SimMemoryError, 'interrupt': SimInterrupt, 'LinAlgError': SimLinAlgError,
         'RecursionError': SimRecursion}
NUMERIC = ('eigh', 'svd', 'qr', 'eig', 'eigsh', 'inv', 'lstsq', 'expm', 'eigvalsh', 'det', 'solve', 'norm')


def generate(rng):
    hist = cat.draw(rng, rng.choice([0, 0, 1, 2]), cheap=True)
    opn = cat.draw(rng, 1)[0]
    fl = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        fl.append([rng.choice(['MemoryError', 'MemoryError', 'interrupt', 'interrupt', 'LinAlgError', 'RecursionError']),
                   rng.choice(['any', 'site', 'site', 'func', 'tail', 'shared']), rng.random(), rng.random()])
    aim, world = None, rng.randrange(12)
    if rng.random() < .6 and cat.SITES:
        aim, calls = cat.aimed(rng)
        *opn, world = rng.choice(calls)
    env = {}
    if rng.random() < .3:
        env['hash'] = rng.randrange(10**6)
    if rng.random() < .3:
        env['cachesize'] = rng.choice([1, 2, 8])
    return dict(world=world, aim=aim, history=hist, op=opn, faults=fl, warm=rng.random() < .4,
                after=cat.draw(rng, rng.choice([0, 1, 2]), cheap=True), env=env)


def choose(rec, kind, mode, x, y, aim=None):
    """1-based index of the external call that fails; rec: [(where, name)]."""
    idx = list(range(len(rec)))
    if kind == 'LinAlgError':
        idx = [i for i in idx if rec[i][1].split('.')[-1] in NUMERIC and rec[i][1].split('.')[0] in ('numpy', 'scipy')]
    if not idx:
        return None
    if aim is not None:
        idx = [i for i in idx if rec[i][0].split('.<locals>')[0] == aim] or idx
    if mode == 'any':
        return 1 + idx[int(x * len(idx))]
    if mode == 'tail':
        return 1 + idx[-1 - int(x**3 * len(idx))]
    if mode == 'shared':
        # places that are likely to touch process-wide state
        pri = [i for i in idx if rec[i][0].split('.')[0] in ('sympify', 'lambdify', 'make_commutative', 'monomials')]
        idx = pri or idx
        return 1 + idx[int(x * len(idx))]
    key = (lambda i: rec[i]) if mode == 'site' else (lambda i: rec[i][0])
    names = sorted({key(i) for i in idx})
    nm = names[int(x * len(names))]
    sub = [i for i in idx if key(i) == nm]
    return 1 + sub[int(y * len(sub))]


def cold(plan):
    seams.clear_qsymm_caches()
    if not plan['warm']:
        seams.clear_sympy_cache()


def run(plan, ctx):
    opn = plan['op']
    sched.stop()
    # what the call does and returns when nothing fails
    seams.clear_qsymm_caches()
    w = cat.World(plan['world'])
    for o in plan['history']:
        ctx.call(cat.do, w, o)
    want = cat.canon(ctx.call(cat.do, w, opn))
    want_after = [cat.canon(ctx.call(cat.do, w, o)) for o in plan['after']]
    keys = list(w.o)
    # where it calls into numpy, scipy and sympy
    w = cat.World(plan['world']).prebuild(keys)
    cold(plan)
    for o in plan['history']:
        cat.do(w, o)
    sched.start(sched.CALLS, BUDGET)
    sched.M.record = []
    try:
        r0 = cat.canon(ctx.call(cat.do, w, opn))
    finally:
        rec = sched.M.record
        sched.stop()
    ctx.check(cat.near(r0, want), 'not-repeatable', lambda: f'{opn}: {cat.diff(r0, want)}')
    # the simulated failures
    cold(plan)
    w = cat.World(plan['world']).prebuild(keys)
    cold(plan)
    held = [ctx.call(cat.do, w, o) for o in plan['history']]
    held_c = [cat.canon(h) for h in held]
    before, ids = cat.snapshot(w), cat.identities(w)
    g0 = seams.global_state()
    fired = []
    for kind, mode, x, y in plan['faults']:
        k = choose(rec, kind, mode, x, y, plan['aim'])
        if k is None:
            ctx.count('no-call-to-fail')
            continue
        sched.start(sched.CALLS, BUDGET)
        sched.M.record = []
        sched.M.inject_at = {k: KINDS[kind]}
        raised = got = None
        try:
            got = cat.do(w, opn)
        except sched.NoProgress:
            raise
        except BaseException as ex:
            raised = ex
        did = len(sched.M.record) >= k
        site = sched.M.record[k - 1] if did else None
        ctx.steps += sched.M.step
        sched.stop()
        if not did:
            if raised is not None:
                raise Violation('call-failed', f'{opn} failed without injected failure: {type(raised).__name__}: {raised}')
            ctx.count('failure-not-reached')
        else:
            ctx.fault('failing-call:' + kind)
            ctx.count('failed-in ' + site[0].split('.')[0])
            fired.append(site)
        what = f'{opn} with {kind} at call {k} ({site})'
        ctx.have_result = True
        if raised is None:
            c = cat.canon(got)
            # a refusal caused by the failure is as good as any other refusal
            refusal = did and (opn[0] in ('sympify-bad', 'check-symmetry') and isinstance(c, str) or
                               opn[0] == 'errors' and isinstance(c, tuple) and c[:1] == ('tuple',) and 'refused' in c[1])
            if not refusal:
                ctx.check(cat.near(c, want), 'failure-became-wrong-result', lambda: f'{what}: {cat.diff(c, want)}')
            ctx.count('absorbed')
        else:
            ctx.count('raised ' + type(raised).__name__)
        after = cat.snapshot(w)
        for n in before:
            ctx.check(cat.near(before[n], after[n]), 'argument-changed',
                      lambda: f'{what}: {n}: {cat.diff(before[n], after[n])}')
        ctx.check(ids == cat.identities(w), 'argument-changed', f'{what}: contents of a container were replaced')
        g1 = seams.global_state()
        ctx.check(g0 == g1, 'process-state', lambda: f'{what}: {[n for n in g0 if g0[n] != g1[n]]}')
        for h, c in zip(held, held_c):
            ctx.check(cat.near(cat.canon(h), c), 'earlier-result-changed', what)
    # retry and carry on
    def again(o, exp, label):
        try:
            c = cat.canon(cat.do(w, o))
        except Exception as ex:
            raise Violation('damaged', f'{label} {o} after {fired}: {type(ex).__name__}: {ex}')
        ctx.check(cat.near(c, exp), 'damaged', lambda: f'{label} {o} after {fired}: {cat.diff(c, exp)}')
    again(opn, want, 'retry')
    for o, e in zip(plan['after'], want_after):
        again(o, e, 'later call')
    again(opn, want, 'second retry')
    g1 = seams.global_state()
    ctx.check(g0 == g1, 'process-state', lambda: f'after retry: {[n for n in g0 if g0[n] != g1[n]]}')
    ctx.nontrivial = bool(fired)
    ctx.event('fired', fired)
    ctx.sig('fail', opn[0], fired, [o[0] for o in plan['after']])


def shrink(plan):
    if plan['aim']:
        yield {**plan, 'aim': None}
    if plan['after']:
        yield {**plan, 'after': []}
    if not plan['warm']:
        yield {**plan, 'warm': True}
