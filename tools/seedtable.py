"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MISSED = {'C17-all-powers': 'missed until `catalogue3.py` kept the caller\'s containers', 'C16-print-options': 'missed until failures were aimed by function',
          'C20-spin-cache': 'missed until the "twins" mode', 'C10-evalf': 'missed until the tolerance went from 1e-6 to 1e-10',
          'C08-duplicates-tol': 'missed until families with known singular values were made'}
rows = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    m, i = json.load(open(f)), f.split('/')[1]
    rows.append(f'| {i} | {m["property"]} | {m["needs"]}' + (f'; {MISSED[i]}' if i in MISSED else '') + ' |')
s = open('DESIGN.md').read()
a, b = s.index('<!--seeds-->'), s.index('<!--/seeds-->')
open('DESIGN.md', 'w').write(s[:a] + '<!--seeds-->\n| bug | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n' + s[b:])
