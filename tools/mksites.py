"""Which calls of the catalogue reach which library functions (dst/sites.json).

usage: python tools/mksites.py        only makes the search better aimed; no verdict depends on it"""
import collections
import json
import os
import sys
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
warnings.simplefilter('ignore')
from dst import catalogue as cat, sched, seams  # noqa: E402

seams.install()
seams.reset(0)
best = collections.defaultdict(dict)        # function -> op -> (cost, seed, world, number of sites)
for name in cat.NAMES:
    for s in range(int(sys.argv[1]) if len(sys.argv) > 1 else 24):
        world = s % 6
        seams.clear_qsymm_caches()
        w = cat.World(world)
        try:
            cat.do(w, [name, s])
            w = cat.World(world).prebuild(list(w.o))
            seams.clear_qsymm_caches()
            sched.start(sched.CALLS, 10**8)
            sched.M.record = []
            cat.do(w, [name, s])
        except Exception as ex:
            print(name, s, type(ex).__name__, str(ex)[:80])
            continue
        finally:
            rec, steps = sched.M.record or [], sched.M.step
            sched.stop()
        fs = collections.defaultdict(set)
        for f, n in rec:
            fs[f.split('.<locals>')[0]].add((f, n))
        for f, sites in fs.items():
            old = best[f].get(name)
            new = (-len(sites), steps, s, world)
            if old is None or new < old:
                best[f][name] = new
out = {}
for f, ops in sorted(best.items()):
    take = sorted(ops.items(), key=lambda t: (t[1][1], t[0]))[:4] + sorted(ops.items(), key=lambda t: (t[1][0], t[1][1], t[0]))[:2]
    out[f] = sorted({(n, v[2], v[3]) for n, v in take})
with open(os.path.join(ROOT, 'dst', 'sites.json'), 'w') as fh:
    fh.write('{\n' + ',\n'.join(f' {json.dumps(f)}: {json.dumps(v)}' for f, v in out.items()) + '\n}\n')
print(len(out), 'functions', sum(map(len, out.values())))
