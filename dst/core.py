"""Shared vocabulary of the simulator: seeds, violations, run context."""
import hashlib
import json
import random


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, kind, detail='', sig=None):
        super().__init__(f'{kind}: {detail}')
        self.kind = kind
        self.detail = str(detail)
        self.sig = sig or kind


class Skip(Exception):
    """The run cannot be judged (e.g. numerically ambiguous case)."""


class HarnessError(Exception):
    pass


class InjectedFault(Exception):
    """Marker base for faults that are not a builtin exception type."""


def subseed(*parts):
    h = hashlib.sha256(json.dumps(parts, sort_keys=True, default=str).encode())
    return int.from_bytes(h.digest()[:8], 'big')


def rng_of(*parts):
    return random.Random(subseed(*parts))


def np_rng(*parts):
    import numpy as np
    return np.random.RandomState(subseed(*parts) % (2**32))


class Ctx:
    """Per-run context: event log, counters, distinctness signature."""

    def __init__(self, plan):
        self.plan = plan
        self.counts = {}
        self.faults = {}
        self.log = []
        self.sigs = []
        self.have_result = False
        self.nontrivial = False
        self.steps = 0

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def event(self, *what):
        self.log.append(what)

    def sig(self, *what):
        self.sigs.append(what)

    def digest(self):
        return hashlib.sha256(repr((self.log, self.sigs)).encode()).hexdigest()[:16]

    def call(self, fn, *a, **kw):
        """Call into the code under test; an exception is a violation."""
        try:
            r = fn(*a, **kw)
        except Violation:
            raise
        except Exception as ex:
            name = getattr(fn, '__name__', str(fn))
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)
            where = [f'{f.filename.split("/")[-1]}:{f.name}' for f in tb if 'qsymm' in f.filename][-3:]
            raise Violation('call-failed', f'{name} raised {type(ex).__name__}: '
                            f'{str(ex)[:300]} at {" > ".join(where)}',
                            sig=f'call-failed:{name}:{type(ex).__name__}') from ex
        self.have_result = True
        return r

    def check(self, cond, kind, detail=''):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)
