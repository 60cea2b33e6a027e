"""Check driver: python -m dst.main C01 [--tier quick|thorough] [--seed N]"""
import argparse
import collections
import json
import os
import select
import signal
import subprocess
import sys
import time

from .runner import N_GROUPS, hashseed, load_known

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
SOFT = {'quick': 240.0, 'thorough': 780.0}     # no new runs after this
HARD_RUN = 240.0                                # one run may not take longer
LEVEL_TEXT = 'exploration'


def env_for(seed, group):
    e = dict(os.environ)
    for k in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONSTARTUP'):
        e.pop(k, None)
    e.update(PYTHONHASHSEED=str(hashseed(seed, group)), PYTHONDONTWRITEBYTECODE='1',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1')
    if e.get('DST_SRC'):
        # development only: judge a scratch copy of the source tree instead of /repo
        e['PYTHONPATH'] = e['DST_SRC']
    return e


def spawn(prop, tier, seed, group, count, soft):
    r, w = os.pipe()
    p = subprocess.Popen([PY, '-m', 'dst.runner', 'work', prop, tier, str(seed), str(group),
                          str(count), str(soft), str(w)], cwd=ROOT, env=env_for(seed, group),
                         pass_fds=(w,), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                         start_new_session=True)
    os.close(w)
    return p, os.fdopen(r, 'rb', buffering=0)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def helper(cmd, args, seed, group, timeout):
    p = subprocess.run([PY, '-m', 'dst.runner', cmd] + args, cwd=ROOT, env=env_for(seed, group),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')


def run_batch(prop, tier, seed, count, soft, jobs):
    pending = list(range(N_GROUPS))
    live = {}
    results, errors = {}, []
    best = None
    t0 = time.time()
    while pending or live:
        while pending and len(live) < jobs and not errors:
            g = pending.pop(0)
            left = soft - (time.time() - t0)
            # with fewer processes than groups every group gets its share
            share = left / max(1, -(-(len(pending) + 1) // jobs)) if jobs < N_GROUPS else left
            p, f = spawn(prop, tier, seed, g, count, max(share, 1.0))
            live[f.fileno()] = [p, f, g, b'', time.time(), None]
        if errors:
            pending = []
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            rec = live[fd]
            chunk = os.read(fd, 1 << 16)
            rec[4] = time.time()
            if chunk:
                rec[3] += chunk
                *lines, rec[3] = rec[3].split(b'\n')
                for ln in lines:
                    d = json.loads(ln)
                    if 'begin' in d:
                        rec[5] = d['begin']
                        if best is not None and d['begin'] > best:
                            kill(rec[0])
                    elif 'error' in d:
                        errors.append(f'run {d["i"]}: {d["error"]}')
                    elif 'status' in d:
                        results[d['i']] = d
                        if d['status'] == 'violation' and (best is None or d['i'] < best):
                            best = d['i']
                    elif 'done' in d:
                        rec.append('done')
            else:
                err = rec[0].stderr.read().decode(errors='replace')
                rc = rec[0].wait()
                if 'done' not in rec and not (best is not None and (rec[5] or 0) > best):
                    errors.append(f'group {rec[2]} died rc={rc} in run {rec[5]}: {err[-3000:]}')
                rec[1].close()
                del live[fd]
        now = time.time()
        for fd, rec in list(live.items()):
            if now - rec[4] > HARD_RUN:
                kill(rec[0])
                errors.append(f'group {rec[2]} run {rec[5]} exceeded {HARD_RUN}s of wall time')
                rec[4] = now
    if best is not None:
        # only runs that a complete prefix of every group would also have done
        results = {i: r for i, r in results.items() if i <= best}
    return results, errors, best, time.time() - t0


def make_replay(mod_id, tier, seed, best, res, path):
    """Write a minimal, confirmed replay file."""
    from . import runner
    group = best % N_GROUPS
    code = ("import sys,json;sys.dont_write_bytecode=True\n"
            "from dst import runner\n"
            f"m=runner.load({mod_id!r})\n"
            f"print(json.dumps([runner.make_plan(m,{seed},{tier!r},i) for i in range({group},{best}+1,{N_GROUPS})]))")
    p = subprocess.run([PY, '-c', code], cwd=ROOT, env=env_for(seed, group),
                       stdout=subprocess.PIPE, check=True, timeout=120)
    plans = json.loads(p.stdout)
    doc = {'property': mod_id, 'seed': seed, 'tier': tier, 'run': best, 'group': group,
           'hashseed': hashseed(seed, group), 'prefix': [], 'plan': plans[-1],
           'violation': {k: res.get(k) for k in ('kind', 'detail', 'vsig', 'digest', 'log')}}

    def write():
        json.dump(doc, open(path, 'w'), indent=1)

    def confirm():
        write()
        rc, out, err = helper('replay', [path], seed, group, 300)
        return rc == 1 and 'same_kind=True' in out

    note = ''
    original = json.loads(json.dumps(doc))
    if confirm():
        try:
            helper('shrink', [path, '45'], seed, group, 200)
            doc = json.load(open(path))
            if not confirm():
                raise ValueError
        except Exception:
            doc = original
            write()
    else:
        doc['prefix'] = plans[:-1]
        note = ' (needs the history of earlier runs)'
        if confirm():
            # drop as much of the history as possible
            t0 = time.time()
            k = max(1, len(doc['prefix']) // 2)
            while time.time() - t0 < 60 and doc['prefix']:
                keep = doc['prefix']
                done = True
                for s in range(0, len(keep), k):
                    doc['prefix'] = keep[:s] + keep[s + k:]
                    if confirm():
                        done = False
                        break
                    doc['prefix'] = keep
                if done:
                    if k == 1:
                        break
                    k = max(1, k // 2)
            write()
        else:
            doc['unconfirmed'] = True
            note = ' (did not reproduce in a fresh process)'
            write()
    return doc, note


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=min(N_GROUPS, os.cpu_count() or 1))
    ap.add_argument('--count', type=int)
    ap.add_argument('--soft', type=float)
    ap.add_argument('--digests', help='write run digests to this file (determinism test)')
    a = ap.parse_args(argv)
    prop, tier, seed = a.prop, a.tier, a.seed
    print(f'seed={seed} tier={tier} property={prop}', flush=True)
    info = json.loads(subprocess.run(
        [PY, '-c', f"import json;import dst.meta as m;print(json.dumps(m.info({prop!r})))"],
        cwd=ROOT, env=env_for(seed, 0), stdout=subprocess.PIPE, check=True).stdout)
    count = a.count or info['runs'][tier]
    soft = a.soft or SOFT[tier]
    t0 = time.time()
    results, errors, best, wall = run_batch(prop, tier, seed, count, soft, a.jobs)
    known = load_known(prop)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    viol = None
    rc = 0
    if best is not None:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', f'{prop}-seed{seed}-run{best}.json')
        try:
            doc, note = make_replay(prop, tier, seed, best, results[best], path)
        except Exception as ex:
            doc, note = {'violation': results[best]}, f' (replay file could not be made: {ex})'
            json.dump({'property': prop, 'seed': seed, 'run': best, 'violation': results[best]}, open(path, 'w'))
        v = doc['violation']
        viol = dict(path=path, **{k: v.get(k) for k in ('kind', 'detail', 'vsig')})
        print(f"{prop} run {best} seed {seed}{note}: {v['kind']}: {str(v.get('detail'))[:1500]}")
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        rc = 1
    elif errors:
        print('HARNESS ERROR\n' + '\n'.join(errors)[:6000])
        rc = 2
    if rc == 0 and not any(r['status'] == 'ok' for r in results.values()):
        print('HARNESS ERROR: no run was judged')
        rc = 2
    hits = collections.Counter(k for r in results.values() for k in r.get('known', []))
    if rc == 0:
        for s, text in sorted(known.items()):
            print(f'KNOWN-FINDING: property={prop} {text} [sig={s}, met in {hits.get(s, 0)} runs]')
    write_evidence(prop, tier, seed, count, results, info, wall, time.time() - t0, viol, hits, errors, a.jobs)
    if a.digests:
        json.dump({str(i): [r['status'], r['digest']] for i, r in sorted(results.items())},
                  open(a.digests, 'w'))
    n = len(results)
    st = collections.Counter(r['status'] for r in results.values())
    print(f'{prop}: {n} runs of {count} planned, {dict(st)}, {wall:.1f}s')
    return rc


def write_evidence(prop, tier, seed, count, results, info, wall, total, viol, hits, errors, jobs):
    rs = list(results.values())
    faults, counts = collections.Counter(), collections.Counter()
    for r in rs:
        faults.update(r['faults'])
        counts.update(r['counts'])
    judged = [r for r in rs if r['status'] != 'skip']
    sigs = {r['sig'] for r in judged if r['nontrivial']}
    samples = [r['sample'] for r in rs if 'sample' in r][:3]

    def cut(x):
        s = json.dumps(x)
        return x if len(s) < 4000 else s[:4000] + '...'
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(rs),
            'judged': len(judged),
            'skipped_ambiguous': len(rs) - len(judged),
            'distinct_nontrivial': len(sigs),
            'rule': info['rule'],
            'samples': [cut(s) for s in samples] or ['none'],
            'runs_planned': count,
            'runs_per_hour': round(len(rs) / max(wall, 1e-9) * 3600),
            'seeds_per_hour': round(len(rs) / max(wall, 1e-9) * 3600),
            'seeds': 'one derived seed per run: sha256(property, VERIF_SEED, run index)',
            'simulated_time': {'unit': 'library control-flow events observed by the simulator (the library has no clock)',
                               'total': sum(r['steps'] for r in rs)},
            'faults_fired': dict(sorted(faults.items())),
            'probes': dict(sorted(counts.items())),
            'distinct_event_logs': len({r['digest'] for r in rs}),
            'distinctness_measure': info.get('measure', 'run signature (see rule)'),
            'real_components': info['real'],
            'stub_components': info['stub'],
            'worker_processes': jobs,
            'hash_seeds': N_GROUPS,
            'known_findings_met': dict(hits),
        },
        'assumptions': info['assumptions'],
        'wall_s': round(total, 2),
        'violations': 1 if viol else 0,
    }
    if viol:
        ev['coverage']['violation'] = viol
    if errors:
        ev['coverage']['harness_errors'] = [e[:500] for e in errors]
    json.dump(ev, open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
