"""SimStore: rdflib's real in-memory store behind a simulated I/O layer.

The index logic is rdflib's own; this layer decides - from the run's seed - the order in which every enumeration
yields, whether a cursor is a snapshot or live, whether terms are rebuilt on read (as a disk- or network-backed store
does), which operation fails and how, and which writes are durable when the process dies.
"""
import random
import sys
import zlib
from collections import Counter

from rdflib import BNode, Literal, URIRef
from rdflib.plugins.stores.memory import Memory

from . import boot, simlock


class StepBudget(BaseException):
    """The liveness bound: too many store operations."""


class SimCrash(BaseException):
    """The process dies here."""


class InjectedIOError(OSError):
    pass


class InjectedStoreError(Exception):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


class InjectedTimeout(TimeoutError):
    pass


class InjectedRuntimeError(RuntimeError):
    pass


FAULTS = {
    "ioerror": lambda: InjectedIOError(5, "simulated I/O error"),
    "enospc": lambda: InjectedIOError(28, "simulated: no space left on device"),
    "storeerror": lambda: InjectedStoreError("simulated store failure"),
    "interrupt": lambda: InjectedInterrupt(),
    "nomem": lambda: InjectedMemoryError("simulated allocation failure"),
    "timeout": lambda: InjectedTimeout("simulated timeout"),
    "runtime": lambda: InjectedRuntimeError("simulated lost connection"),
    "crash": lambda: SimCrash(),
}
INJECTED = (
    InjectedIOError,
    InjectedStoreError,
    InjectedInterrupt,
    InjectedMemoryError,
    InjectedTimeout,
    InjectedRuntimeError,
    SimCrash,
)


def _caller():
    f = sys._getframe(2)
    d = boot.OWLRL_DIR
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(d):
            return "%s:%s:%d" % (fn[len(d):], f.f_code.co_name, f.f_lineno)
        f = f.f_back
    return "?"


class Ctl:
    """One per run: the simulator's view of all the stores of that run.

    sched: {'mode': 'none'|'perm'|'hash'|'rot'|'rev', 'seed': int, 'cursor': 'snap'|'live', 'mat': bool, 'win': [lo, hi]}
    fault: {'kind': name, 'at': op number}  or None;  ops are numbered from 1 while armed.
    """

    def __init__(self, sched=None, budget=3000000):
        sched = sched or {"mode": "none"}
        self.mode = sched.get("mode", "none")
        self.live = sched.get("cursor") == "live"
        self.mat = sched.get("mat") or False  # True, or "names" to leave literals alone
        self.win = sched.get("win")
        self.salt = sched.get("seed", 0)
        self.rng = random.Random(self.salt)
        self.budget = budget
        self.armed = False
        self.ops = 0
        self.kinds = Counter()
        self.fault = None
        self.fired = None
        self.sites = None  # set to a dict to record op -> call site
        self.writes = None  # set to a list to record the write log
        self.digest = 0
        self.shuffled = 0
        self.yield_hook = None

    def step(self, kind, store=None):
        if not self.armed:
            return
        self.ops += 1
        self.kinds[kind] += 1
        if self.sites is not None:
            self.sites.setdefault((_caller(), kind), []).append(self.ops)
        if self.ops > self.budget:
            raise StepBudget("more than %d store operations" % self.budget)
        if self.yield_hook is not None:
            self.yield_hook()
        elif simlock.CURRENT is not None:
            simlock.CURRENT.yield_point(kind)
        f = self.fault
        if f is not None and self.ops == f["at"]:
            self.fired = kind
            self.kinds["fault:" + f["kind"]] += 1
            raise FAULTS[f["kind"]]()

    def order(self, items):
        """Decide the enumeration order of one cursor."""
        n = len(items)
        if n < 2 or not self.armed or self.mode == "none":
            return items
        if self.win is not None and not (self.win[0] <= self.ops <= self.win[1]):
            return items
        if self.mode == "perm":
            tags = list(range(n))
            self.rng.shuffle(tags)
            self.digest = zlib.crc32(repr((self.ops, tags[:6])).encode(), self.digest)
            self.shuffled += 1
            return [items[i] for i in tags]
        if self.mode == "rev":
            items.reverse()
            self.digest = zlib.crc32(b"r%d" % n, self.digest)
            return items
        if self.mode == "hash":  # an order of its own, the same at every enumeration, as an index on disk would give
            salt = b"%d" % self.salt
            tags = sorted(range(n), key=lambda i: zlib.crc32(repr(items[i][0]).encode(), zlib.crc32(salt)))
            self.digest = zlib.crc32(repr((self.ops, tags[:6])).encode(), self.digest)
            self.shuffled += 1
            return [items[i] for i in tags]
        if self.mode == "rot":
            k = self.rng.randrange(n)
            self.digest = zlib.crc32(repr((self.ops, n, k)).encode(), self.digest)
            self.shuffled += 1
            return items[k:] + items[:k]
        return items


def rebuild(t):
    """A fresh term object, as a store that keeps lexical forms would return it."""
    if isinstance(t, Literal):
        return Literal(str(t), datatype=t.datatype, lang=t.language, normalize=False)
    if isinstance(t, BNode):
        return BNode(str(t))
    return URIRef(str(t))


class SimStore(Memory):
    def __init__(self, ctl=None, configuration=None, identifier=None, live=None, mat=None):
        self.ctl = ctl or Ctl()
        self._live = self.ctl.live if live is None else live
        self._mat = self.ctl.mat if mat is None else mat
        self._ver = 0
        super().__init__(configuration, identifier)

    def add(self, triple, context, quoted=False):
        ctl = self.ctl
        if ctl.armed:
            ctl.step("add", self)
        super().add(triple, context, quoted)
        self._ver += 1
        if ctl.writes is not None and ctl.armed:
            ctl.writes.append(("add", triple, context))

    def remove(self, triple_pattern, context=None):
        ctl = self.ctl
        if ctl.armed:
            ctl.step("remove", self)
            gone = [t for t, _ in Memory.triples(self, triple_pattern, context)]
            was, ctl.armed = ctl.armed, False
            try:
                super().remove(triple_pattern, context)
            finally:
                ctl.armed = was
            if ctl.writes is not None:
                for t in gone:
                    ctl.writes.append(("remove", t, context))
        else:
            super().remove(triple_pattern, context)
        self._ver += 1

    def triples(self, triple_pattern, context=None):
        ctl = self.ctl
        if not ctl.armed:
            yield from super().triples(triple_pattern, context)
            return
        ctl.step("open", self)
        items = [(t, list(c)) for t, c in super().triples(triple_pattern, context)]
        if len(items) > 1:
            items = ctl.order(items)
        ver = self._ver
        seen = None
        i = 0
        while i < len(items):
            t, c = items[i]
            i += 1
            if i > 1:
                ctl.step("next", self)
                if self._live and self._ver != ver:
                    # the underlying data moved under an open cursor
                    ver = self._ver
                    if seen is None:
                        seen = set(x[0] for x in items)
                    fresh = [(x, list(y)) for x, y in super().triples(triple_pattern, context) if x not in seen]
                    if fresh and ctl.rng.random() < 0.5:
                        items = items + fresh
                        seen.update(x[0] for x in fresh)
                        ctl.kinds["live_extend"] += 1
            if self._mat:
                t = tuple(x if self._mat == "names" and isinstance(x, Literal) else rebuild(x) for x in t)
            yield t, iter(c)
