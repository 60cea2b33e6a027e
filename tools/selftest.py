"""Determinism of the simulator: the same plans, run twice with different numbers
of worker processes, leave the same event logs.   usage: selftest.py [N] [C01 ...]"""
import glob
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')


def main(argv):
    n = int(argv[0]) if argv else 80
    props = argv[1:] or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(ROOT, 'dst/props/c*.py')))
    bad = 0
    for p in props:
        logs = []
        for jobs in (8, 3):
            with tempfile.NamedTemporaryFile(suffix='.json') as t:
                r = subprocess.run([sys.executable, '-m', 'dst.main', p, '--count', str(n), '--seed', '77', '--jobs', str(jobs), '--digests', t.name],
                                   cwd=ROOT, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                logs.append(json.load(open(t.name)) if r.returncode == 0 else {'rc': r.stdout[-300:]})
        diff = [k for k in logs[0] if logs[0].get(k) != logs[1].get(k)] + [k for k in logs[1] if k not in logs[0]]
        bad += bool(diff)
        print(p, 'runs', len(logs[0]), 'different' if diff else 'identical', diff[:5], flush=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
