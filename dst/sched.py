"""Deterministic control of execution inside the library.

sys.monitoring events (line, call, jump) on the library's own code objects are
the points where the simulator may act: switch threads, fail a call, evict
caches, or stop a run that makes no progress."""
import dis
import sys
import threading
import types

_RealRLock = threading.RLock
_RealLock = threading.Lock
_RealSemaphore = threading.Semaphore
_RealThread = threading.Thread
mon = sys.monitoring
TOOL = 4
E = mon.events

EXTERNAL = ('numpy', 'scipy', 'sympy', 'tinyarray', 'copy', 'qsymm')


class NoProgress(BaseException):
    """The step budget of the run is exhausted."""


class M:
    codes = None
    ready = False
    on = False
    step = 0            # instrumented events in this run
    budget = None
    extcalls = 0
    inject_at = {}      # external call index -> exception factory
    actions = {}        # external call index -> callable
    record = None       # list of external callable names (dry run)
    sched = None
    idents = None


def _collect(codeset, obj, seen, modprefix='qsymm'):
    if id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, types.CodeType):
        codeset[id(obj)] = obj
        for c in obj.co_consts:
            if isinstance(c, types.CodeType):
                _collect(codeset, c, seen)
    elif isinstance(obj, types.FunctionType):
        if obj.__module__ and obj.__module__.startswith(modprefix):
            _collect(codeset, obj.__code__, seen)
    elif isinstance(obj, (staticmethod, classmethod)):
        _collect(codeset, obj.__func__, seen)
    elif isinstance(obj, property):
        for f in (obj.fget, obj.fset, obj.fdel):
            if f is not None:
                _collect(codeset, f, seen)
    elif isinstance(obj, type):
        if obj.__module__.startswith(modprefix):
            for v in list(vars(obj).values()):
                _collect(codeset, v, seen)
    elif hasattr(obj, '__wrapped__'):
        _collect(codeset, obj.__wrapped__, seen)


def setup():
    if M.ready:
        return
    from . import seams
    cs, seen = {}, set()
    for m in seams.qmodules():
        if m.__name__ == 'qsymm._version':
            continue
        for v in list(vars(m).values()):
            if getattr(v, '__module__', '') and str(getattr(v, '__module__', '')).startswith('qsymm'):
                _collect(cs, v, seen)
    M.codes = sorted(cs.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    mon.use_tool_id(TOOL, 'dst')
    mon.register_callback(TOOL, E.LINE, _on_line)
    mon.register_callback(TOOL, E.CALL, _on_call)
    mon.register_callback(TOOL, E.JUMP, _on_jump)
    mon.register_callback(TOOL, E.PY_START, _on_jump)
    M.ready = True
    M.events = 0


def set_events(ev):
    setup()
    if M.events == ev:
        return
    for c in M.codes:
        mon.set_local_events(TOOL, c, ev)
    M.events = ev


LIGHT = E.JUMP | E.PY_START
CALLS = E.JUMP | E.PY_START | E.CALL
FULL = E.LINE | E.CALL | E.PY_START


def start(level=LIGHT, budget=None):
    set_events(level)
    M.step = 0
    M.extcalls = 0
    M.budget = budget
    M.inject_at = {}
    M.actions = {}
    M.record = None
    M.sched = None
    M.on = True


def stop():
    M.on = False
    M.sched = None


def _tick():
    M.step += 1
    if M.budget is not None and M.step > M.budget:
        M.on = False
        raise NoProgress()


def _on_jump(code, *a):
    if M.on:
        _tick()


def _on_line(code, line):
    if M.on:
        _tick()
        if M.sched is not None:
            M.sched.point(code, line)


def ext_name(f):
    mod = getattr(f, '__module__', None)
    if not isinstance(mod, str):
        oc = getattr(f, '__objclass__', None) or type(getattr(f, '__self__', None))
        mod = getattr(oc, '__module__', None)
        if not isinstance(mod, str):
            mod = type(f).__module__
    if mod == 'builtins':
        oc = getattr(f, '__objclass__', None) or type(getattr(f, '__self__', None))
        mod = getattr(oc, '__module__', '') or ''
        if not isinstance(mod, str):
            mod = ''
    if mod == 'dst.seams':
        mod = 'numpy'
    if mod.split('.')[0] in EXTERNAL:
        return f"{mod.split('.')[0]}.{getattr(f, '__name__', type(f).__name__)}"
    return None


_STAR = {}


def star_call(code, off):
    """f(*args): CPython 3.12 releases the argument list twice when a monitoring
    callback raises at this instruction, so no failure is injected there."""
    s = _STAR.get(id(code))
    if s is None:
        s = _STAR[id(code)] = {i.offset for i in dis.get_instructions(code) if i.opname == 'CALL_FUNCTION_EX'}
    return off in s


def _on_call(code, off, f, arg0):
    if not M.on:
        return
    if M.sched is not None:
        M.sched.point(code, -off, None if star_call(code, off) else f)
        return
    n = None if star_call(code, off) else ext_name(f)
    if n is None:
        return
    M.extcalls += 1
    k = M.extcalls
    if M.record is not None:
        M.record.append((code.co_qualname, n))
    act = M.actions.get(k)
    if act is not None:
        on, M.on = M.on, False
        try:
            act()
        finally:
            M.on = on
    exc = M.inject_at.get(k)
    if exc is not None:
        raise exc()


# ------------------------------------------------------------------- threads

LOCKS = []


class SimRLock:
    """Lock used by library code: blocks in simulated time only."""

    def __init__(self, reentrant=True):
        self.reentrant = reentrant
        self.owner = None
        self.n = 0
        LOCKS.append(self)

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        s = M.sched
        if s is None or me not in s.by_ident:
            self.owner, self.n = me, self.n + 1
            return True
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            s.block(self)
        self.owner = me
        self.n += 1
        return True

    def release(self):
        self.n -= 1
        if self.n <= 0:
            self.n = 0
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def reset_locks():
    for k in LOCKS:
        k.owner, k.n = None, 0


def _caller_is_qsymm():
    return str(sys._getframe(2).f_globals.get('__name__', '')).startswith('qsymm')


def _rlock():
    return SimRLock(True) if _caller_is_qsymm() else _RealRLock()


def _lock():
    return SimRLock(False) if _caller_is_qsymm() else _RealLock()


def patch_locks():
    threading.RLock = _rlock
    threading.Lock = _lock


def unpatch_locks():
    """Locks the library creates stay simulated; nothing to undo for others."""


class Deadlock(Exception):
    pass


class Task:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.sem = _RealSemaphore(0)
        self.done = False
        self.waiting = None
        self.local = 0
        self.due = None     # failure to deliver at the next external call
        self.result = None
        self.exc = None


class Scheduler:
    """One runnable thread at a time; `preempt` maps (task, local step) -> choice."""

    def __init__(self, fns, preempt, faults=()):
        self.faults = dict(faults)
        self.fired_faults = []
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.preempt = dict(preempt)
        self.by_ident = {}
        self.fired = []
        self.main = _RealSemaphore(0)
        self.deadlock = False
        self.history = []

    def _body(self, t):
        t.sem.acquire()
        try:
            t.result = t.fn()
        except BaseException as ex:  # recorded, judged by the property
            t.exc = ex
        t.done = True
        self._next(t)

    def runnable(self):
        return [t for t in self.tasks if not t.done and
                (t.waiting is None or t.waiting.owner is None)]

    def _next(self, me, choice=0):
        r = [t for t in self.runnable() if t is not me]
        if not r:
            if any(not t.done for t in self.tasks):
                if me.done or me.waiting is not None:
                    self.deadlock = True
                    self.main.release()
                    return False
                return True     # keep running
            self.main.release()
            return False
        nxt = r[choice % len(r)]
        self.history.append((me.i, me.local, nxt.i))
        nxt.sem.release()
        return False

    def point(self, code, line, f=None):
        t = self.by_ident.get(threading.get_ident())
        if t is None:
            return
        t.local += 1
        exc = self.faults.get((t.i, t.local))
        if exc is not None:
            t.due = exc
        if t.due is not None and f is not None and ext_name(f) is not None:
            exc, t.due = t.due, None
            self.fired_faults.append((t.i, t.local, code.co_qualname))
            raise exc()
        c = self.preempt.get((t.i, t.local))
        if c is None:
            return
        self.fired.append((t.i, t.local, code.co_qualname, line))
        if not self._next(t, c):
            t.sem.acquire()

    def block(self, lock):
        t = self.by_ident[threading.get_ident()]
        t.waiting = lock
        if self._next(t):
            raise Deadlock()
        t.sem.acquire()
        t.waiting = None
        if self.deadlock:
            raise Deadlock()

    def run(self, budget):
        start(FULL, budget)
        ths = []
        for t in self.tasks:
            th = _RealThread(target=self._body, args=(t,), daemon=True)
            ths.append(th)
            th.start()
            self.by_ident[th.ident] = t
        M.sched = self
        self.tasks[0].sem.release()
        ok = self.main.acquire(timeout=300)
        stop()
        if self.deadlock:
            for t in self.tasks:
                t.sem.release()
            for th in ths:
                th.join(1)
        if not ok:
            raise RuntimeError('simulated threads did not finish')
        if not self.deadlock:
            for th in ths:
                th.join()
        return self


class Tracer:
    """Records the code object of every scheduling point of one task."""

    def __init__(self):
        self.codes = []

    by_ident = {}

    def point(self, code, line, f=None):
        self.codes.append((code.co_qualname, line, f is not None and ext_name(f) is not None))


def trace(fn, budget):
    """Dry run: the list of scheduling points of fn executed alone."""
    start(FULL, budget)
    M.sched = Tracer()
    tr = M.sched
    try:
        fn()
    finally:
        stop()
    return tr.codes
