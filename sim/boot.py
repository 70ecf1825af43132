"""Process set-up: import the library from /repo with every nondeterministic seam under the simulator.

* threading.Lock/RLock seen by owlrl are simulated locks (they yield to the baton scheduler instead of blocking),
* fresh blank node identifiers come from a per-run counter,
* no clock, sleep or network is used by owlrl itself; the file and network openers of rdflib's parser are
  replaced by the simulated ones in simio.py for the properties that need them.
"""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")

import logging  # noqa: E402

logging.disable(logging.CRITICAL)

import rdflib  # noqa: E402
import rdflib.term  # noqa: E402
import rdflib.graph  # noqa: E402
import rdflib.plugins.stores.memory  # noqa: E402
import rdflib.plugins.parsers.notation3  # noqa: E402,F401
import rdflib.plugins.parsers.rdfxml  # noqa: E402,F401
import rdflib.plugins.parsers.jsonld  # noqa: E402,F401
import rdflib.plugins.serializers.turtle  # noqa: E402,F401
import rdflib.plugins.serializers.rdfxml  # noqa: E402,F401
import rdflib.plugins.serializers.jsonld  # noqa: E402,F401
import rdflib.plugins.serializers.longturtle  # noqa: E402,F401

from . import simlock  # noqa: E402

import threading  # noqa: E402

_real = (threading.Lock, threading.RLock)
threading.Lock, threading.RLock = simlock.SimLock, simlock.SimRLock
try:
    import owlrl  # noqa: E402
    import owlrl.Closure  # noqa: E402
    import owlrl.OWLRL  # noqa: E402
    import owlrl.OWLRLExtras  # noqa: E402
    import owlrl.RDFSClosure  # noqa: E402
    import owlrl.CombinedClosure  # noqa: E402
    import owlrl.RestrictedDatatype  # noqa: E402
    import owlrl.DatatypeHandling  # noqa: E402
finally:
    threading.Lock, threading.RLock = _real

if os.path.realpath(os.path.dirname(os.path.dirname(owlrl.__file__))) != os.path.realpath(REPO):
    raise RuntimeError("owlrl was imported from %s, not from %s" % (owlrl.__file__, REPO))

OWLRL_DIR = os.path.realpath(os.path.dirname(owlrl.__file__)) + os.sep


class _Ids:
    n = 0
    tag = "x"


class _FakeUUID:
    __slots__ = ("hex", "int")

    def __init__(self):
        _Ids.n += 1
        self.hex = "%s%08d" % (_Ids.tag, _Ids.n)
        self.int = _Ids.n

    def __str__(self):
        return self.hex


def reset_ids(tag="x"):
    """Deterministic fresh-name source (rdflib's BNode and anonymous graph identifiers)."""
    _Ids.n = 0
    _Ids.tag = tag


rdflib.term.uuid4 = _FakeUUID
try:
    rdflib.graph.uuid4 = _FakeUUID
except Exception:
    pass
import rdflib.plugins.parsers.notation3 as _n3  # noqa: E402

for _mod in (_n3, rdflib.plugins.parsers.jsonld, rdflib.plugins.parsers.rdfxml, rdflib.plugins.stores.memory):
    for _name in ("uuid4",):
        if hasattr(_mod, _name):
            setattr(_mod, _name, _FakeUUID)
if hasattr(_n3, "_bNodeCounter"):
    pass
