"""Where to strike: probes of state that outlives a call, read at every executed line of a rehearsal.

Lines at which the state of the package (module globals, closures, caches, arrays they hold) or of the
host process has just changed, or differs from what it was before the call, open the windows in which an
exception or another thread can do harm.  Probes only choose where faults are injected; no verdict
depends on them.
"""
import collections
import functools
import gc
import os
import random
import signal
import sys
import types
import warnings

import numpy as np

from . import sched


def own(x):
    name = getattr(x, "__module__", None) or ""
    return name == "soepy" or name.startswith("soepy.")


class Package:
    """State of the package reachable from its modules and the given objects."""

    def __init__(self, *roots, cap=500):
        self.dicts, self.seqs, self.arrays, self.cells, self.caches = [], [], [], [], []
        seen, todo = set(), collections.deque()
        for name, m in list(sys.modules.items()):
            if (name == "soepy" or name.startswith("soepy.")) and ".test" not in name:
                todo.append((m, 0))
        todo.extend((r, 0) for r in roots)
        while todo and len(seen) < 20 * cap:
            x, d = todo.popleft()
            if id(x) in seen or d > 7:
                continue
            seen.add(id(x))
            nxt = []
            if isinstance(x, types.ModuleType):
                if x.__name__ == "soepy" or x.__name__.startswith("soepy."):
                    self.dicts.append(vars(x))
                    nxt = list(vars(x).values())
            elif isinstance(x, dict):
                if len(x) < 500:
                    self.dicts.append(x)
                    nxt = list(x.values())[:50]
            elif isinstance(x, (list, set, collections.deque)):
                if len(x) < 500:
                    self.seqs.append(x)
                    nxt = list(x)[:50]
            elif isinstance(x, (tuple, frozenset)):
                nxt = list(x)[:50]
            elif isinstance(x, np.ndarray):
                if x.nbytes <= 1 << 15 and x.dtype != object:
                    self.arrays.append(x)
            elif isinstance(x, functools.partial):
                nxt = [x.func, x.args, x.keywords]
            elif isinstance(x, types.FunctionType):
                if own(x) or d == 0:
                    for c in x.__closure__ or ():
                        self.cells.append(c)
                        try:
                            nxt.append(c.cell_contents)
                        except ValueError:
                            pass
                    nxt += [x.__defaults__, x.__kwdefaults__, x.__dict__]
            elif hasattr(x, "cache_info") and callable(x.cache_info):
                self.caches.append(x)
                nxt = [getattr(x, "__wrapped__", None)]
            elif isinstance(x, type):
                if own(x):
                    nxt = [v for v in vars(x).values()]
            elif own(type(x)):
                nxt = [getattr(x, "__dict__", None)]
            elif hasattr(x, "__wrapped__"):
                nxt = [x.__wrapped__]
            todo.extend((y, d + 1) for y in nxt if y is not None)

    def __call__(self):
        out = []
        for x in self.dicts:
            out.append(tuple(map(id, x.values())))
        for x in self.seqs:
            out.append(tuple(map(id, x)))
        for a in self.arrays:
            out.append(hash(a.tobytes()))
        for c in self.cells:
            try:
                out.append(id(c.cell_contents))
            except ValueError:
                out.append(0)
        for c in self.caches:
            out.append(str(c.cache_info()))
        return hash(tuple(out))


def host():
    """A cheap digest of process state shared with the host program."""
    g = np.random.mtrand._rand._bit_generator.state
    jax = sys.modules.get("jax")
    cfg = jax.config.values if jax is not None and hasattr(jax.config, "values") else {}
    return hash((
        np.random.mtrand._rand is not None and hash(repr(g["state"].get("pos")) + str(hash(g["state"]["key"].tobytes()))) if "key" in g["state"] else 0,
        random.getstate(), os.getcwd(), tuple(os.environ._data.items()), len(warnings.filters), tuple(map(str, warnings.filters[:3])),
        tuple(sorted(np.geterr().items())), str(np.get_printoptions()), tuple(sys.path), signal.getsignal(signal.SIGINT), gc.isenabled(),
        gc.get_threshold(), sys.getrecursionlimit(), id(sys.stdout), id(sys.stderr), id(sys.excepthook), tuple(map(str, cfg.values())),
    ))


class Marks(list):
    """Event indices at which the probed state is not what it was; those at which it has just changed are ``fresh``."""

    def __init__(self):
        super().__init__()
        self.fresh = set()


class Rehearsal(sched.LineEvents):
    """Records the line events of a call and at which of them a probe's value is new or not the first one."""

    def __init__(self, probe, limit=400_000, deviating=True):
        self.events, self.marks, self.probe, self.limit, self.deviating = [], Marks(), probe, limit, deviating
        self.busy = False
        super().__init__(self._line)

    def __enter__(self):
        self.first = self.last = self.probe()
        return super().__enter__()

    def _line(self, code, line):
        if self.busy or len(self.events) >= self.limit:
            return
        self.busy = True
        try:
            now = self.probe()
        finally:
            self.busy = False
        if now != self.last:
            self.marks.fresh.add(len(self.events))
        if now != self.last or (self.deviating and now != self.first):
            self.marks.append(len(self.events))
        self.last = now
        self.events.append((code.co_qualname, line))


def rehearse(fn, probe, deviating=True):
    with Rehearsal(probe, deviating=deviating) as p:
        fn()
    return p.events, p.marks


def distinct(r, events, marks):
    """One index per distinct line among the marks: the first, the last or any of its occurrences; in random order.

    Lines at which state has just changed and lines at which it merely deviates take turns: a change that
    stays (a cache filled, a buffer reused) would otherwise drown the few lines behind it.
    """
    fresh, rest = {}, {}
    for k in marks:
        (fresh if k in marks.fresh else rest).setdefault(events[k], []).append(k)
    rows = []
    for by in (fresh, {line: ks for line, ks in rest.items() if line not in fresh}):
        row = []
        for line in sorted(by):
            ks = by[line]
            row.append(r.choice([ks[0], ks[-1], r.choice(ks)]))
        r.shuffle(row)
        rows.append(row)
    out = []
    while rows[0] or rows[1]:
        out += [row.pop() for row in (rows[0], rows[0], rows[1]) if row]
    return out
