"""Writes MANIFEST.json."""
import json, sys
sys.path.insert(0, '/verif')
from dst import meta
NA = {
}
TECH = 'deterministic simulation with fault injection: '
T = {
 'C01': 'seeded LAPACK/ARPACK basis choice, rounding noise, hash salt, cache size and candidate order; residual oracle on returned symmetries',
 'C02': 'same simulator; refinement against an independent intertwiner computation and planted groups',
 'C03': 'same simulator; commutant recomputed independently by dense null space',
 'C04': 'same simulator; rotation algebra recomputed independently',
 'C05': 'same simulator; invariant polynomial space recomputed independently',
 'C06': 'same simulator; invariant hopping space recomputed independently',
 'C07': 'same simulator; invariant pairing space recomputed independently',
 'C08': 'same simulator; span arithmetic on sampled values as reference model',
 'C09': 'seeded operation histories with cache evictions; refinement against numerical matrix functions',
 'C10': 'seeded conversion histories with sympy cache evictions; refinement against numerical matrix functions',
 'C11': 'seeded operation histories on symmetry elements with cache evictions and hash salts; refinement against explicit (R, c, a, U) tuples',
 'C12': 'seeded generator orders, hash salts and caches; refinement against independent closure and representation matrices',
 'C13': 'simulated basis choice, rounding, orientation and ordering; refinement against brute-force lattice automorphisms',
 'C14': 'simulated random streams, including adversarial draws; class equations as invariants',
 'C15': 'seeded line-level thread scheduler with simulated locks; comparison with serial results and process-state snapshot',
 'C16': 'seeded injection of exceptions at every external call and library line; state snapshot, retry and comparison',
 'C17': 'seeded call histories sharing arguments; deep snapshots compared after every call',
 'C18': 'seeded copy/pickle/restart histories across simulated process restarts with other hash seeds; equality and behaviour comparison',
 'C19': 'simulated subprocess, file system and git repository with injected failures; reference model of the version grammar',
 'C21': 'seeded histories of elements under LAPACK basis choice, rounding noise and cache evictions; printed names read back and compared with the element',
 'C22': 'seeded histories of questions about one lattice, cache evictions; refinement against brute-force enumeration of the lattice',
 'C23': 'seeded histories of constructors with results overwritten by the caller, caches evicted, LAPACK rounding noise; refinement against closed-form rotation matrices and rotated orbitals',
 'C24': 'seeded histories of texts, malformed texts and cache evictions; refinement against direct evaluation of the expression with random matrices for the operators',
 'C25': 'simulated basis choice, rounding and ARPACK starts under seeded call histories; refinement against spectra and spaces known by construction',
 'C26': 'seeded histories of contradictory and neighbouring valid calls under hash-salt, cache-size and basis-choice seams; refusal, no side effects, and the valid neighbour judged against an independent reference',
 'C20': 'seeded histories of calls, failures, evictions, scribbles and reseeds; comparison with a fresh start',
}
NOTE = ('Seeded exploration, not a proof: the property held on every simulated run explored; bounds and tolerances are '
        'in DESIGN.md and the evidence file.')
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in meta.PROPS:
        checks.append(dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
                           technique=TECH + T[i], level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B -c 'import qsymm, scipy, sympy, tinyarray'", checks=checks, not_applicable=na)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
