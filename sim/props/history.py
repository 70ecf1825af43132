"""Histories of library calls in one process: shared by C10, C11 and C12."""
import owlrl
import rdflib
from rdflib import Literal, URIRef

from .closure import *  # noqa: F401,F403
from .. import boot
from ..isolate import in_fork

X = "http://www.w3.org/2001/XMLSchema#"
R = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
PROBES = [(X + d, v) for d, vs in {
    "integer": ["1", "01", "1.0", "x"], "decimal": ["1.50", "NaN", "1e3", "", "."], "boolean": ["true", "1", "TRUE", "yes"],
    "double": ["1e3", "INF", "-INF", "NaN", "1e400", "x"], "float": ["1.5", "INF", "1e39", "x"], "string": ["a b"],
    "byte": ["1", "128", "x"], "int": ["5", "2147483648"], "long": ["5", "9223372036854775808"], "short": ["5", "32768"],
    "unsignedByte": ["255", "256", "-1"], "unsignedShort": ["1", "65536"], "unsignedInt": ["1", "-1"], "unsignedLong": ["1", "-1"],
    "positiveInteger": ["1", "0"], "nonPositiveInteger": ["0", "1"], "negativeInteger": ["-1", "0"], "nonNegativeInteger": ["0", "-1"],
    "dateTime": ["2011-01-01T00:00:00", "2011-01-01T00:00:00Z", "2011-13-01T00:00:00"], "date": ["2011-01-01", "2011-02-30"],
    "dateTimeStamp": ["2011-01-01T00:00:00", "2011-01-01T00:00:00Z"],
    "time": ["10:00:00", "25:00:00"], "gYear": ["2011", "x"], "gYearMonth": ["2011-01", "x"], "gMonthDay": ["--01-01", "x"],
    "gDay": ["---01", "x"], "gMonth": ["--01", "x"], "hexBinary": ["0aff", "0AFF", "x"], "base64Binary": ["YQ==", "%"],
    "anyURI": ["http://a/", "::"], "language": ["en", "e n"], "token": ["a", " a "], "NMTOKEN": ["a", "a b"], "Name": ["a", "1a"],
    "NCName": ["a", "a:b"], "normalizedString": ["a", "a\tb"]}.items() for v in vs]
PROBES += [(R + "PlainLiteral", "a@en"), (R + "PlainLiteral", "a"), (R + "XMLLiteral", "<a/>"), (R + "XMLLiteral", "<a"), (R + "HTML", "<p>"),
           ("http://www.w3.org/2002/07/owl#rational", "1/2"), ("http://www.w3.org/2002/07/owl#rational", "x")]
PROBES += [("http://x/%s" % d, v) for d in ("DT", "DT0", "DT1", "mydt", "D1", "D0") for v in ("5", "zz")]
MYDT = URIRef("http://x/mydt")


def my_conv(v):
    if v == "zz":
        raise ValueError("not mine")
    return ("mine", v)


def show_value(v):
    if hasattr(v, "toxml"):
        return type(v).__name__ + ":" + v.toxml() if hasattr(v, "childNodes") else type(v).__name__
    return "%s:%s:%s" % (type(v).__module__, type(v).__name__, str(v)[:60])


def probe():
    """How literals convert right now, behaviourally."""
    out = []
    for dt, lex in PROBES:
        try:
            l = Literal(lex, datatype=URIRef(dt), normalize=False)
            v = l.toPython()
            out.append("%s %r -> %s / %s" % (dt.rsplit("/", 1)[-1], lex, "literal" if v is l or isinstance(v, Literal) else show_value(v),
                                             getattr(l, "ill_typed", None)))
        except Exception as e:
            out.append("%s %r -> raises %s" % (dt.rsplit("/", 1)[-1], lex, type(e).__name__))
    return out


def probe_in(state, bound):
    """The same in a pristine process brought into the state by nothing but the public switch."""
    if bound:
        rdflib.term.bind(MYDT, None, constructor=my_conv)
    if state == "alt":
        owlrl.DeductiveClosure.use_improved_datatypes_conversions()
    return probe()


def difference(a, b):
    return [(x, y) for x, y in zip(a, b) if x != y]


def sub(op, profile=None):
    """The expansion scenario inside an operation."""
    return op


def canon(w):
    """Contents per context with the error nodes' names taken out."""
    out = {}
    for c, ts in w.by_context().items():
        rest, msgs, bad = core.split_errors(ts)
        out[c] = [sorted(map(list, rest)), sorted(msgs), len(bad)]
    return out


class Direct:
    """A rule class used by itself, without the wrapper (README: extensions) - for the classes that leave the tables alone."""

    def __init__(self, op):
        self.op = op

    def expand(self, graph, destination=None):
        op = self.op
        core.CLS[op["profile"]](graph, bool(op.get("ax")), bool(op.get("dax")), rdfs=bool(op.get("rdfs")), destination=destination).closure()


def do_expand(op, engine=None, hook=None, w=None):
    """-> outcome of one expansion operation: contents or the exception's name"""
    if op.get("direct"):
        engine = Direct(op)
    w = w or World(op, Ctl(op.get("sched"), budget=op.get("budget", 1500000)))
    if op.get("fault"):
        w.ctl.fault = {"kind": op["fault"][0], "at": op["at"]}
    if hook is not None:
        w.ctl.yield_hook = hook
    try:
        w.expand(engine)
        how = "ok"
    except INJECTED as e:
        how = "injected " + type(e).__name__
    except (Exception, StepBudget) as e:
        how = core.describe(e) + where(e)
    if op.get("pickle"):
        pass
    return {"how": how, "content": canon(w), "ops": w.ctl.ops, "digest": w.ctl.digest, "fired": w.ctl.fired}


def prepare(op, state):
    """Rehearse in a pristine process to find out where a fault can strike."""
    if state == "alt":
        owlrl.DeductiveClosure.use_improved_datatypes_conversions()
    try:
        n, sites = core.census(op)
    except (Exception, StepBudget):
        return None
    at, site = core.pick_op(sites, op["fault"][1], op["fault"][2])
    return at


def small(rng, profile, pool, cap=140, fault_p=0.0, n=None, kinds=("graph", "graph", "ds", "dsdestg", "gdest"), bad=0.1, ax=(0,) * 12 + (1,)):
    scen = make(rng, rng.randrange(1000), profile, pool, cap, bad=bad, rdfs=(0, 1) if profile in ("ext", "trim") else (0,),
                improved=(1, 1, 0), ax=ax, dax=(0, 0, 0, 1), n=n or rng.choice([1, 1, 2]))
    scen["kind"] = rng.choice(kinds)
    if not scen["kind"].startswith("ds"):
        scen.pop("place", None)
    elif "place" not in scen:
        scen["place"] = core.place(rng, scen["triples"])
    if rng.random() < fault_p:
        scen["fault"] = [rng.choice(sorted(set(FAULTS) - {"crash"})), round(rng.random(), 4), round(rng.random(), 4)]
    return scen


POOLS = {"rdfs": G.RDFS_GADGETS, "owl": G.OWL_GADGETS + G.ERR_GADGETS * 2, "comb": G.OWL_GADGETS + G.RDFS_GADGETS + G.ERR_GADGETS * 2,
         "ext": G.EXT_GADGETS * 8 + G.OWL_GADGETS + G.ERR_GADGETS * 2, "trim": G.EXT_GADGETS * 8 + G.OWL_GADGETS + G.ERR_GADGETS * 2}
