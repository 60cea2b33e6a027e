"""What each check runs and claims; no import of the library here."""

REAL_ALL = ('all of qsymm (imported from /repo working tree), numpy, scipy, sympy, tinyarray, the C LAPACK/ARPACK '
            'they call')
STUB_SEAM = ('return values of LAPACK/ARPACK wrappers (eigh, svd, qr, eig, eigsh) are replaced by another legal '
             'return value drawn from the seed; hashes of PointGroupElement/BlochCoeff are salted; lru_cache sizes '
             'are replaced; numpy/sympy global generators are reseeded per run')
ASSUME_NUM = ['closeness is judged at 1e-6 relative after sampling several random momenta and parameter values; '
              'a defect smaller than that is not seen',
              'numerically ambiguous instances (a rank or gap inside the tolerance band) are skipped and counted',
              'inputs are drawn from the generators described in DESIGN.md; sizes are small (matrices up to about 8x8)']
ASSUME_SIM = ['the schedule of the simulated threads is controlled at Python line/call granularity; C code is atomic']

RULE_NUM = ('a run counts as nontrivial if its oracle compared at least one non-zero object returned by the library; '
            'distinct = distinct run signatures (structure of the drawn instance, call options, sizes of the result '
            'and of the independently computed answer, fault kinds switched on)')


RULE_SEQ = ('a run counts as nontrivial if a nonzero function was compared with the reference after an operation; distinct = '
            'distinct run signatures (kind of model and the exact sequence of operations performed, with sizes)')

RULE_GRP = ('a run counts as nontrivial if a group, operator or rejection returned by the library was compared with the '
            'independently computed one; distinct = distinct run signatures')


RULE_RMT = ('a run counts as nontrivial if a matrix drawn by the library, or a rejection, was judged against the definition of its '
            'ensemble; distinct = distinct run signatures')
RULE_THR = ('a run counts as nontrivial if at least one preemption or failure took place inside the library while at least two threads '
            'were under way; distinct = distinct run signatures')
RULE_FAIL = ('a run counts as nontrivial if at least one injected failure was delivered inside the library; distinct = distinct run '
             'signatures')

RULE_GIT = 'a run counts as nontrivial if the version was looked up or written with at least one answer of git or the file system chosen by the simulator; distinct = distinct run signatures'
RULE_COPY = 'a run counts as nontrivial if objects went through at least one copy, pickle or restart and were compared and used afterwards; distinct = distinct run signatures'
RULE_HIST = 'a run counts as nontrivial if the target call was compared with the one of a process without history; distinct = distinct run signatures'


def _p(quick, thorough, real=REAL_ALL, stub=STUB_SEAM, rule=RULE_NUM, assumptions=ASSUME_NUM, measure=None):
    return dict(runs={'quick': quick, 'thorough': thorough}, rule=rule, real=real, stub=stub,
                assumptions=assumptions, measure=measure or 'run signature (see rule)')


PROPS = {
    'C01': _p(400, 20000),
    'C02': _p(400, 20000),
    'C03': _p(400, 20000),
    'C04': _p(1200, 60000),
    'C05': _p(1200, 60000),
    'C06': _p(400, 20000),
    'C07': _p(1200, 60000),
    'C08': _p(1800, 60000),
    'C09': _p(3000, 150000, rule=RULE_SEQ, measure='sequence of operations actually performed, kinds, formats and term counts of all slots'),
    'C10': _p(2400, 120000, rule=RULE_SEQ, measure='source form and chain of conversions actually performed'),
    'C11': _p(2400, 120000, rule=RULE_SEQ.replace('function', 'element'), measure='representation kinds and the sequence of operations actually performed'),
    'C12': _p(1600, 80000, rule=RULE_GRP, measure='kind of question, generators, sizes of group and subgroup list'),
    'C13': _p(1600, 80000, rule=RULE_GRP, measure='lattice kind, order of the point group, options, embedding, length unit and parameter draw'),
    'C14': _p(4000, 200000, rule=RULE_RMT, real='all of qsymm.kwant_rmt and the parts of qsymm it imports, numpy, scipy, LAPACK',
              stub='the random source: numpy RandomState/Generator streams seeded per run, or a scripted source whose every draw is '
                   'chosen by the simulator and which can fail at the k-th draw',
              measure='ensemble, class, size, kind of random source and script, options'),
    'C15': _p(400, 20000, rule=RULE_THR, real=REAL_ALL + '; real Python threads',
              stub='the thread scheduler (one thread runs at a time; the switch points are drawn from the seed at line and call '
                   'granularity inside the library), the locks the library creates (blocking in simulated time only), failures of calls '
                   'into numpy/scipy/sympy', assumptions=ASSUME_SIM,
              measure='calls performed by the threads, preemptions that took place (function, line) and failures delivered'),
    'C16': _p(1200, 60000, rule=RULE_FAIL, real=REAL_ALL,
              stub='success of calls from the library into numpy, scipy, sympy and tinyarray: the k-th such call raises MemoryError, '
                   'RecursionError, LinAlgError or an interrupt; hashes and cache sizes as in the other checks',
              assumptions=['failures are injected at calls from library code into numpy, scipy, sympy, tinyarray and copy, except at '
                           'f(*args) call sites, where the interpreter itself corrupts reference counts when a monitor raises (DESIGN.md)'],
              measure='operation, site of the failing call (function, callee), operations performed afterwards'),
    'C17': _p(800, 40000, rule=RULE_SEQ, measure='operations actually performed on the shared arguments, read-only arguments or not'),
    'C18': _p(1600, 80000, rule=RULE_COPY, real=REAL_ALL + '; real pickle and copy, real other processes',
              stub=STUB_SEAM + '; the stream pickles are written to (full or torn on request)', assumptions=ASSUME_SIM,
              measure='calls and operations performed, moves (kind, protocol, hash seed of the restart) in order'),
    'C19': _p(12000, 600000, rule=RULE_GIT, real='all of qsymm._version: lookup of the repository, static file, archive and sdist handling, '
              'writing of the static version file; the import of the package in the scratch copy',
              stub='the git executable, its output, exit codes, delays and failures (simulated Popen with bounded pipes); the file system '
                   'calls the module makes (failing or torn on request, real files of a scratch directory otherwise)',
              assumptions=['git is met through subprocess.Popen or the functions built upon it; the version grammar is the one of the '
                           'miniver template the module documents'],
              measure='state of the repository, version text, faults met and path taken'),
    'C20': _p(1200, 60000, rule=RULE_HIST, real=REAL_ALL + '; real processes (a pristine process that forks per question) for the comparison',
              stub=STUB_SEAM + '; success of calls into numpy, scipy and sympy during the history', assumptions=ASSUME_SIM,
              measure='history (kinds of steps and operations), target operation and hash seed of the comparison'),
    'C21': _p(2400, 120000, rule=RULE_GRP.replace('a group, operator or rejection', 'a printed name'),
              measure='dimension, operations that made the elements, kinds of elements'),
    'C22': _p(8000, 400000, rule=RULE_GRP.replace('a group, operator or rejection', 'a basis, vector list or rejection'),
              measure='kind, size and skewness of the lattice, sequence of questions'),
    'C23': _p(8000, 400000, rule=RULE_GRP.replace('a group, operator or rejection', 'an operator or rejection'),
              measure='sequence of questions, kinds of spin, sizes and dimensions'),
    'C24': _p(4000, 200000, rule=RULE_GRP.replace('a group, operator or rejection', 'an expression or rejection'),
              measure='sequence of questions, kinds and sizes of expressions and locals'),
    'C25': _p(20000, 1000000, rule=RULE_GRP.replace('a group, operator or rejection', 'a matrix, space or rejection'),
              measure='sequence of questions, sizes, ranks and kinds of the matrices'),
    'C26': _p(3000, 150000, rule=RULE_GRP.replace('a group, operator or rejection', 'a refusal and the result of the neighbouring valid call'),
              measure='cases and variants of contradictory arguments, in order'),
}


def info(prop):
    return PROPS[prop]
