"""Executing, shrinking and replaying plans inside one interpreter."""
import copy
import importlib
import io
import json
import os
import sys
import time
import traceback

from .core import Ctx, HarnessError, Skip, Violation, rng_of, subseed

LIB_ERRORS = (AttributeError, TypeError, ValueError, KeyError, IndexError,
              AssertionError, ZeroDivisionError, NotImplementedError, RuntimeError)
STEP_BUDGET = 30_000_000
N_GROUPS = 8


def load(prop):
    from . import seams
    seams.install()
    return importlib.import_module(f'dst.props.{prop.lower()}')


def hashseed(seed, group):
    return subseed('hashseed', seed, group) % 4294967295


def make_plan(mod, seed, tier, i):
    rng = rng_of('plan', mod.ID, seed, i)
    plan = mod.generate(rng, tier, i)
    plan['prop'], plan['seed'], plan['i'] = mod.ID, seed, i
    plan.setdefault('run_seed', subseed('run', mod.ID, seed, i) % 2**32)
    # what is executed is exactly what is written in a replay file
    return json.loads(json.dumps(plan))


def execute(mod, plan):
    """Run one plan from a fixed starting state. Returns a result dict."""
    from . import sched, seams
    import numpy as np
    ctx = Ctx(plan)
    seams.reset(plan['run_seed'])
    t0 = time.perf_counter()
    status, viol = 'ok', None
    stdout, sys.stdout = sys.stdout, io.StringIO()      # what the library prints
    try:
        seams.apply_env(plan.get('env', {}), ctx, getattr(mod, 'STEADY', False))
        if getattr(mod, 'BUDGET', True):
            sched.start(sched.LIGHT, STEP_BUDGET)
        mod.execute(plan, ctx)
    except Violation as v:
        status, viol = 'violation', v
    except Skip as s:
        status = 'skip'
        ctx.event('skip', str(s))
        ctx.count('skip: ' + str(s))
    except sched.NoProgress:
        status, viol = 'violation', Violation('no-progress', 'step budget exhausted inside the library')
    except LIB_ERRORS + (np.linalg.LinAlgError, OverflowError, RecursionError) as ex:
        if isinstance(ex, HarnessError):
            raise
        if not ctx.have_result:
            raise HarnessError(traceback.format_exc())
        tb = traceback.format_exc()
        status, viol = 'violation', Violation(
            'malformed-result', f'{type(ex).__name__}: {ex} while judging what the library returned\n{tb[-1500:]}',
            sig='malformed-result')
    finally:
        sys.stdout = stdout
        ctx.steps += sched.M.step
        sched.stop()
        seams.S.active = False
        seams.reset(0)
    res = dict(i=plan.get('i'), status=status, digest=ctx.digest(), counts=ctx.counts,
               faults=ctx.faults, steps=ctx.steps, nontrivial=bool(ctx.nontrivial),
               sig=json.dumps(ctx.sigs, default=str), t=time.perf_counter() - t0,
               known=getattr(ctx, 'known', []))
    if viol is not None:
        res.update(kind=viol.kind, detail=viol.detail, vsig=viol.sig,
                   log=[str(e)[:400] for e in ctx.log[-60:]])
    return res


# ------------------------------------------------------------------ shrinking

def _candidates(plan):
    """Generic simplifications of a plan, biggest first."""
    env = plan.get('env') or {}
    if len(env) > 1:
        yield {**plan, 'env': {}}
    for k in sorted(env):
        yield {**plan, 'env': {a: b for a, b in env.items() if a != k}}
    for field in ('ops', 'preempt', 'faults', 'history', 'prefix_ops'):
        lst = plan.get(field)
        if isinstance(lst, list) and lst:
            n = len(lst)
            size = n
            while size >= 1:
                for st in range(0, n, size):
                    if size < n or field != 'ops':
                        yield {**plan, field: lst[:st] + lst[st + size:]}
                size //= 2


def shrink(mod, plan, kind, limit):
    """Greedy minimisation keeping the violation class."""
    t0 = time.time()
    tried = 0
    improved = True
    while improved and time.time() - t0 < limit:
        improved = False
        gens = [_candidates(plan)]
        if hasattr(mod, 'shrink'):
            gens.append(mod.shrink(plan))
        for g in gens:
            for cand in g:
                if time.time() - t0 > limit:
                    break
                tried += 1
                try:
                    r = execute(mod, copy.deepcopy(cand))
                except Exception:
                    continue
                if r['status'] == 'violation' and r['kind'] == kind:
                    plan, improved = cand, True
                    break
            if improved:
                break
    return plan, tried


# --------------------------------------------------------------------- worker

def worker_main(argv):
    """argv: prop tier seed group start count deadline; results as JSON lines."""
    prop, tier, seed, group, count, deadline = argv[:6]
    seed, group, count, deadline = int(seed), int(group), int(count), float(deadline)
    out = os.fdopen(int(argv[6]), 'w', buffering=1)
    sys.stdout = sys.stderr
    mod = load(prop)
    known = load_known(prop)
    out.write(json.dumps({'ready': True}) + '\n')
    t0 = time.time()
    for i in range(group, count, N_GROUPS):
        if time.time() - t0 > deadline:
            out.write(json.dumps({'stopped': i}) + '\n')
            break
        out.write(json.dumps({'begin': i}) + '\n')
        try:
            plan = make_plan(mod, seed, tier, i)
            r = execute(mod, plan)
            if r['status'] == 'violation' and r['vsig'] in known:
                r['status'] = 'ok'
                r['known'] = r['known'] + [r['vsig']]
        except Exception:
            out.write(json.dumps({'error': traceback.format_exc(), 'i': i}) + '\n')
            break
        if i < 3 * N_GROUPS and group < 3 and r['status'] == 'ok':
            r['sample'] = plan
        out.write(json.dumps(r, default=str) + '\n')
        if r['status'] == 'violation':
            break
    out.write(json.dumps({'done': True}) + '\n')
    out.close()


def load_known(prop):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
    out = {}
    try:
        for line in open(path):
            if line.startswith('finding: '):
                parts = line.split(None, 3)
                kv = dict(p.split('=', 1) for p in parts[1:3])
                if kv.get('property') == prop:
                    out[kv['sig']] = parts[3].strip()
    except FileNotFoundError:
        pass
    return out


def shrink_main(argv):
    """argv: replay-file limit; rewrites it with a minimised plan."""
    path, limit = argv[0], float(argv[1])
    doc = json.load(open(path))
    mod = load(doc['property'])
    for p in doc.get('prefix', []):
        execute(mod, p)
    if not doc.get('prefix'):
        plan, tried = shrink(mod, doc['plan'], doc['violation']['kind'], limit)
        doc['plan'], doc['shrink_attempts'] = plan, tried
        r = execute(mod, plan)
        doc['violation'] = {k: r.get(k) for k in ('kind', 'detail', 'vsig', 'digest', 'log')}
    tmp = path + '.tmp'
    json.dump(doc, open(tmp, 'w'), indent=1, default=str)
    os.replace(tmp, path)


def replay_main(argv):
    """argv: replay-file. Exit 1 and print the violation if it reproduces."""
    doc = json.load(open(argv[0]))
    mod = load(doc['property'])
    for p in doc.get('prefix', []):
        execute(mod, p)
    r = execute(mod, doc['plan'])
    json.dump(r, sys.stdout, default=str)
    print()
    if r['status'] == 'violation':
        same = r['kind'] == doc['violation']['kind']
        exact = r['digest'] == doc['violation'].get('digest')
        print(f'REPRODUCED kind={r["kind"]} same_kind={same} identical_event_log={exact}')
        return 1
    print('NOT REPRODUCED')
    return 0


if __name__ == '__main__':
    sys.dont_write_bytecode = True
    cmd, rest = sys.argv[1], sys.argv[2:]
    if cmd == 'work':
        worker_main(rest)
    elif cmd == 'shrink':
        shrink_main(rest)
    elif cmd == 'replay':
        sys.exit(replay_main(rest))
    elif cmd == 'one':      # prop seed i [tier]: run and print one plan
        mod = load(rest[0])
        plan = make_plan(mod, int(rest[1]), rest[3] if len(rest) > 3 else 'quick', int(rest[2]))
        print(json.dumps(plan)[:3000])
        r = execute(mod, plan)
        print(json.dumps(r, indent=1, default=str)[:6000])
