"""Workload and oracle of concurrent use (C15)."""
import math

from . import catalogue as cat
from . import sched, seams
from .core import InjectedFault, Violation, rng_of

BUDGET = 6_000_000


class SimMemoryError(MemoryError, InjectedFault):
    pass


class SimInterrupt(KeyboardInterrupt, InjectedFault):
    pass


def generate(rng):
    style = rng.random()
    n = rng.choice([2, 2, 2, 2, 3, 3, 4])
    if style < .25:
        # everybody parses and builds: the code with the most shared state
        names = ['sympify', 'sympify-locals', 'sympify-bad', 'model-text', 'model-locals', 'bloch-text', 'model-raw',
                 'model-normalize', 'lambdify', 'bloch-frommodel', 'tosympy', 'subs']
        threads = [[[rng.choice(names), rng.randrange(10**6)] for _ in range(rng.choice([1, 1, 2, 3]))]
                   for _ in range(n)]
    elif style < .45:
        # the same call from all threads
        o = cat.draw(rng, 1)[0]
        threads = [[o] for _ in range(n)]
    elif style < .65:
        # the same kind of call with different arguments
        o = rng.choice(cat.NAMES)
        threads = [[[o, rng.randrange(10**6)] for _ in range(rng.choice([1, 2]))] for _ in range(n)]
    else:
        threads = [cat.draw(rng, rng.choice([1, 1, 2, 3])) for _ in range(n)]
    aim, world = None, rng.randrange(12)
    if rng.random() < .35 and cat.SITES:
        # all threads go through one function
        aim, calls = cat.aimed(rng)
        threads = [rng.choice(calls) for _ in range(n)]
        world = threads[0][2]
        threads = [[t[:2]] for t in threads]
    pre = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6, 10, 25])):
        pre.append([rng.randrange(n), rng.choice(['any', 'code', 'line', 'line', 'burst', 'cross', 'cross', 'lockstep']), rng.random(),
                    rng.random(), rng.randrange(n)])
    plan = dict(world=world, aim=aim, threads=threads, preempt=pre, first=rng.randrange(n),
                warm=rng.random() < .3, env={})
    if rng.random() < .35:
        plan['env']['hash'] = rng.randrange(10**6)
    if rng.random() < .35:
        plan['env']['cachesize'] = rng.choice([1, 2, 8])
    if rng.random() < .25:
        plan['faults'] = [[rng.randrange(n), rng.choice(['MemoryError', 'interrupt']), rng.random(), rng.random()]
                          for _ in range(rng.choice([1, 1, 2]))]
    return plan


def position(tr, mode, x, y, aim=None):
    """1-based index of a scheduling point in a recorded trace."""
    if aim is not None and mode != 'any':
        idx = [i for i, p in enumerate(tr) if p[0].split('.<locals>')[0] == aim]
        if idx:
            # every line of the function is as likely as any other
            if mode == 'line':
                lines = sorted({tr[i][1] for i in idx})
                idx = [i for i in idx if tr[i][1] == lines[int(x * len(lines))]]
            return 1 + idx[int(y * len(idx))]
    if not tr:
        return None
    if mode == 'any':
        return 1 + int(x * len(tr))
    key = (lambda p: p[0]) if mode == 'code' else (lambda p: (p[0], p[1]))
    names = sorted({key(p) for p in tr}, key=repr)
    nm = names[int(x * len(names))]
    idx = [i for i, p in enumerate(tr) if key(p) == nm]
    return 1 + idx[int(y * len(idx))]


def fault_position(tr, x, y):
    idx = [i for i, p in enumerate(tr) if p[2]]
    if not idx:
        return None
    names = sorted({tr[i][0] for i in idx})
    nm = names[int(x * len(names))]
    idx = [i for i in idx if tr[i][0] == nm]
    return 1 + idx[int(y * len(idx))]


def cold():
    seams.clear_qsymm_caches()
    seams.clear_sympy_cache()


def run(plan, ctx):
    threads = plan['threads']
    n = len(threads)
    aim = plan.get('aim')
    sched.stop()

    def body(w, t, out):
        def f():
            for k, o in enumerate(threads[t]):
                out.append(('start', k))
                r = cat.do(w, o)
                out[-1] = ('ok', r)
            return True
        return f
    # serial reference: every thread alone, on its own world
    want, traces, keys = [], [], []
    for t in range(n):
        seams.clear_qsymm_caches()
        w = cat.World(plan['world'])
        if not plan['warm']:
            # find out what it uses, so that all threads find it ready
            for o in threads[t]:
                ctx.call(cat.do, w, o)
            w = cat.World(plan['world']).prebuild(list(w.o))
            seams.clear_qsymm_caches()
        out = []
        try:
            traces.append(sched.trace(body(w, t, out), BUDGET))
        except Exception as ex:
            raise Violation('call-failed', f'thread {t} alone: {threads[t]}: {type(ex).__name__}: {ex}')
        want.append([cat.canon(r) for _, r in out])
        keys += [k for k in w.o if k not in keys]
    # concurrent run on one shared world
    if not plan['warm']:
        cold()
    w = cat.World(plan['world']).prebuild(keys)
    before = cat.snapshot(w)
    ids = cat.identities(w)
    if not plan['warm']:
        seams.clear_qsymm_caches()
    g0 = seams.global_state()
    pre = {}
    for t, mode, x, y, c in plan['preempt']:
        if t < n and mode == 'lockstep':
            bits = rng_of('lockstep', x, y)
            q = bits.choice([1, 1, 2, 3, 5])
            for u in range(n):
                st = int(x * len(traces[u])) if bits.random() < .5 else 0
                for p in range(st, min(st + 1500, len(traces[u])), q):
                    pre[(u, 1 + p)] = c
        elif t < n and mode == 'cross':
            # two threads meet inside the same function
            bits = rng_of('cross', x, y)
            u = (t + 1 + c) % n
            common = sorted({p[0] for p in traces[t]} & {p[0] for p in traces[u]})
            if common:
                # by name or by the share of the points
                nm = bits.choice(common) if x < .5 else \
                    bits.choice([p[0] for p in traces[t] if p[0] in set(common)])
                if aim in common and y < .8:
                    nm = aim
                for v in (t, u):
                    idx = [1 + i for i, p in enumerate(traces[v]) if p[0] == nm]
                    a = int(bits.random()**2 * len(idx))
                    pre[(v, idx[a])] = c
                    if bits.random() < .5:
                        pre[(v, bits.choice(idx[a:a + 30]))] = c
        elif t < n and mode == 'burst':
            # all threads switch back and forth inside one function
            names = sorted({p[0] for p in traces[t]})
            nm = names[int(x * len(names))] if names else None
            if aim in names and y < .8:
                nm = aim
            for u in range(n):
                idx = [1 + i for i, p in enumerate(traces[u]) if p[0] == nm]
                bits = rng_of('burst', x, y, u)
                st = int(bits.random()**2 * len(idx))
                for p in idx[st:st + 24]:
                    if bits.random() < .5:
                        pre[(u, p)] = c
        elif t < n:
            p = position(traces[t], mode, x, y, aim)
            if p is not None:
                pre[(t, p)] = c
    faults = {}
    for t, kind, x, y in plan.get('faults', []):
        if t < n:
            p = fault_position(traces[t], x, y)
            if p is not None:
                faults[(t, p)] = SimMemoryError if kind == 'MemoryError' else SimInterrupt
    outs = [[] for _ in range(n)]
    s = sched.Scheduler([body(w, t, outs[t]) for t in range(n)], pre, faults)
    s.run(BUDGET * n)
    ctx.steps += sched.M.step
    ctx.have_result = True
    for _ in s.fired:
        ctx.fault('preemption')
    for _ in s.fired_faults:
        ctx.fault('failing-call-in-thread')
    ctx.event('switches', [(a, b, c) for a, b, c in s.history])
    where = [(f[0], f[2], f[3]) for f in s.fired]
    hit = {t for t, _, _ in s.fired_faults}

    def ctxt():
        return f'; switches at {where[:6]}; failed calls {s.fired_faults[:3]}'
    if s.deadlock:
        raise Violation('deadlock', f'threads wait for each other: {threads}' + ctxt())
    for t, task in enumerate(s.tasks):
        ex = task.exc
        if isinstance(ex, sched.NoProgress):
            raise Violation('no-progress', f'thread {t} made no progress' + ctxt())
        if ex is not None and t not in hit:
            raise Violation('call-failed', f'thread {t}, {threads[t][len(outs[t]) - 1]}: {type(ex).__name__}: '
                            f'{str(ex)[:200]} while other threads ran {[threads[u] for u in range(n) if u != t]}' + ctxt(),
                            sig=f'call-failed:{type(ex).__name__}')
        for k, (st, r) in enumerate(outs[t]):
            if st != 'ok':
                continue
            got = cat.canon(r)
            if not cat.near(got, want[t][k]):
                if t in hit:
                    # the failing call may be turned into another refusal
                    if isinstance(got, str) or (isinstance(got, tuple) and got and got[0] in ('accepted', 'refused')):
                        continue
                    if threads[t][k][0] in ('errors', 'sympify-bad', 'check-symmetry'):
                        continue
                raise Violation('wrong-result', f'thread {t}, {threads[t][k]}: {cat.diff(got, want[t][k])}' + ctxt(),
                                sig=f'wrong-result:{threads[t][k][0]}')
            ctx.count('calls-judged')
    after = cat.snapshot(w)
    for k in before:
        ctx.check(cat.near(before[k], after[k]), 'argument-changed',
                  lambda: f'{k}: {cat.diff(before[k], after[k])}' + ctxt())
    ctx.check(ids == cat.identities(w), 'argument-changed', 'contents of a container were replaced')
    g1 = seams.global_state()
    ctx.check(g0 == g1, 'process-state', lambda: str([k for k in g0 if g0[k] != g1[k]]) + ctxt())
    # and the process is still good for serial callers
    for t in range(n):
        for k, o in enumerate(threads[t][:2]):
            try:
                r = cat.canon(cat.do(w, o))
            except Exception as ex:
                raise Violation('damaged', f'{o} fails afterwards: {type(ex).__name__}: {ex}' + ctxt())
            ctx.check(cat.near(r, want[t][k]), 'damaged',
                      lambda: f'{o} differs afterwards: {cat.diff(r, want[t][k])}' + ctxt())
    ctx.nontrivial = bool(s.fired)
    ctx.count('switches', len(s.history))
    for a, q, line in where[:40]:
        ctx.count('preempted-in ' + q.split('.')[0])
    ctx.sig('conc', [[o[0] for o in th] for th in threads], sorted(set((q, ln) for _, q, ln in where)), sorted(hit))


def shrink(plan):
    th = plan['threads']
    for i in range(len(th)):
        if len(th) > 2:
            keep = [t for j, t in enumerate(th) if j != i]

            def ren(lst):
                return [[e[0] - (e[0] > i)] + e[1:] for e in lst if e[0] != i]
            q = {**plan, 'threads': keep, 'preempt': ren(plan['preempt'])}
            if 'faults' in plan:
                q['faults'] = ren(plan['faults'])
            yield q
        if len(th[i]) > 1:
            for k in range(len(th[i])):
                yield {**plan, 'threads': th[:i] + [th[i][:k] + th[i][k + 1:]] + th[i + 1:]}
    if plan.get('aim'):
        yield {**plan, 'aim': None}
    if plan['warm']:
        yield {**plan, 'warm': False}
