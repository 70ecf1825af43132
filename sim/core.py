"""What every property module shares: building a simulated deployment, expanding it, judging the outcome."""
import hashlib
import random

from . import boot, model, terms
from .store import INJECTED, Ctl, SimCrash, SimStore, StepBudget

import owlrl
import rdflib
from rdflib import Dataset, Graph, URIRef

CLS = {
    "owl": owlrl.OWLRL_Semantics,
    "rdfs": owlrl.RDFS_Semantics,
    "comb": owlrl.RDFS_OWLRL_Semantics,
    "ext": owlrl.OWLRL_Extension,
    "trim": owlrl.OWLRL_Extension_Trimming,
}
ERR_T = "err:ErrorMessage"
ERR_P = "err:error"


def reason(scen):
    """The reasoner object a scenario asks for."""
    return owlrl.DeductiveClosure(
        CLS[scen["profile"]],
        improved_datatypes=bool(scen.get("improved", 1)),
        rdfs_closure=bool(scen.get("rdfs", 0)),
        axiomatic_triples=bool(scen.get("ax", 0)),
        datatype_axioms=bool(scen.get("dax", 0)),
    )


class World:
    """One simulated deployment: a store behind the simulator, a source graph, perhaps a separate destination."""

    def __init__(self, scen, ctl=None, triples=None):
        self.scen = scen
        boot.reset_ids("x")
        self.ctl = ctl or Ctl(scen.get("sched"), budget=scen.get("budget", 4000000))
        self.store = SimStore(self.ctl)
        kind = self.kind = scen.get("kind", "graph")
        triples = scen["triples"] if triples is None else triples
        self.dest = None
        if kind == "graph":
            self.graph = Graph(store=self.store, identifier=URIRef("http://g/src"))
            for t in triples:
                self.graph.add(terms.dec3(t))
            self.target = self.graph
        elif kind in ("ds", "dsdest", "dsdeststr", "dsdestg"):
            self.graph = Dataset(store=self.store)
            place = scen.get("place") or [0] * len(triples)
            ctxs = [self.graph.default_context, self.graph.graph(URIRef("http://g/n1")), self.graph.graph(URIRef("http://g/n2"))]
            if 3 in place:
                ctxs.append(self.graph.graph(URIRef("http://g/dest")))
            for t, k in zip(triples, place + [0] * len(triples)):
                ctxs[k].add(terms.dec3(t))
            if kind == "ds":
                self.target = self.graph.default_context
            else:
                u = URIRef("http://g/dest")
                if kind == "dsdest":
                    self.dest = u
                    self.target = Graph(store=self.store, identifier=u)
                elif kind == "dsdeststr":
                    self.dest = "http://g/dest"
                    self.target = Graph(store=self.store, identifier=u)
                else:
                    self.dest = self.target = self.graph.graph(u)
        elif kind == "gdest":
            self.graph = Graph(store=self.store, identifier=URIRef("http://g/src"))
            self.dest = self.target = Graph(store=self.store, identifier=URIRef("http://g/dest"))
            place = scen.get("place") or []
            for t, k in zip(triples, place + [0] * len(triples)):
                (self.dest if k == 3 else self.graph).add(terms.dec3(t))
        else:
            raise ValueError(kind)
        self.alien = None
        if scen.get("alien") and kind in ("graph", "gdest"):
            # another graph in the same store, none of the expansion's business
            self.alien = Graph(store=self.store, identifier=URIRef("http://g/alien"))
            for t in alien(triples):
                self.alien.add(terms.dec3(t))

    def expand(self, engine=None):
        engine = engine or reason(self.scen)
        self.ctl.armed = True
        try:
            engine.expand(self.graph, destination=self.dest)
        finally:
            self.ctl.armed = False

    def all(self):
        """Every triple in the store, encoded, over all contexts that take part."""
        out = {terms.enc3(t) for t, _ in self.store.triples((None, None, None), None)}
        if self.alien is not None:
            out = {t for g in {self.graph, self.target} for t in self.context(g)}
        return out

    def context(self, g):
        return {terms.enc3(t) for t in g.triples((None, None, None))}

    def by_context(self):
        out = {}
        for t, cs in self.store.triples((None, None, None), None):
            for c in cs:
                if c is not None:
                    out.setdefault(str(getattr(c, "identifier", c)), set()).add(terms.enc3(t))
        return out


def alien(triples):
    """What the unrelated graph holds: statements that would matter if anybody took them into account."""
    out = {(":C0", "rdfs:subClassOf", ":Alien"), (":p0", "rdfs:subPropertyOf", ":alien"), (":a0", "owl:sameAs", ":Alienated"),
           (":a0", "rdf:type", "owl:Nothing"), (":p1", "rdfs:domain", ":Alien"), (":C1", "owl:disjointWith", ":C1")}
    for s, p, o in triples:
        out.add((s, p, o) if terms.is_lit(o) else (o, p, s))
        if not terms.is_lit(o):
            out.add((o, "rdf:type", ":Alien"))
    return sorted(out)


def split_errors(ts, inp=()):
    """(closure triples, error messages, malformed error nodes)."""
    inp = set(map(tuple, inp))
    typed = {s for s, p, o in ts if o == ERR_T and p == "rdf:type" and terms.is_bn(s) and (s, p, o) not in inp}
    # (a report that a fault cut short may lack either half)
    nodes = typed | {s for s, p, o in ts if p == ERR_P and terms.is_bn(s) and terms.is_lit(o) and (s, p, o) not in inp}
    msgs, bad = [], []
    for n in sorted(nodes):
        m = [o for s, p, o in ts if s == n and p == ERR_P]
        if len(m) != 1 or not terms.is_lit(m[0]) or n not in typed:
            bad.append(n)
        msgs += [terms.lit_parts(x)[0] for x in m]
    rest = {t for t in ts if t[0] not in nodes}
    return rest, msgs, bad


def raw(e):
    """How a term shows up inside a message."""
    if terms.is_lit(e):
        return terms.lit_parts(e)[0]
    if terms.is_bn(e):
        return e[2:]
    return terms.dec_iri(e)


def _names(e, same):
    out = {raw(e)}
    for x in same.get(e, ()):
        out.add(raw(x))
    return out


def explain_errors(cl, msgs):
    """Violations of 'an inconsistency is reported iff it is derivable'."""
    viol = []
    if not cl.errhi and msgs:
        viol.append(("error-spurious", "error reported for a consistent graph: %s" % msgs[:3]))
        return viol
    for inst in sorted(cl.errlo):
        kind, args = inst[0], inst[1:]
        same = cl.same if kind in model.LIST_ERR or kind == "eq-diff1" else {}
        need = [_names(a, same) for a in args]
        if not any(all(any(n in m for n in ns) for ns in need) for m in msgs):
            viol.append(("error-missed", "no report for derivable inconsistency %s" % (inst,)))
            break
    for m in msgs:
        ok = False
        for inst in cl.errhi:
            if all(any(n in m for n in _names(a, cl.same)) for a in inst[1:]):
                ok = True
                break
        if not ok:
            viol.append(("error-spurious", "unexplained report: %s" % m))
            break
    return viol


def judge_closure(cl, got, what=""):
    """lo <= got <= hi."""
    viol = []
    miss = cl.lo - got
    if miss:
        viol.append(("missing", "%s%d derivable triple(s) missing: %s" % (what, len(miss), terms.show(miss, 4))))
    extra = got - cl.hi
    if extra:
        viol.append(("unsound", "%s%d triple(s) not entailed: %s" % (what, len(extra), terms.show(extra, 4))))
    return viol


def model_of(scen, triples=None, **kw):
    return model.closure(
        [tuple(t) for t in (scen["triples"] if triples is None else triples)],
        scen["profile"], bool(scen.get("ax", 0)), bool(scen.get("dax", 0)), bool(scen.get("rdfs", 0)),
        bool(scen.get("improved", 1)), **kw)


def digest(*parts):
    return hashlib.sha256(repr(parts).encode()).hexdigest()[:16]


def random_sched(rng):
    mode = rng.choice(["perm", "perm", "perm", "hash", "hash", "rev", "rot", "none"])
    return {"mode": mode, "seed": rng.randrange(1 << 30), "cursor": rng.choice(["snap", "snap", "live"]),
            "mat": rng.random() < 0.3}


def place(rng, triples):
    return [rng.choice([0, 0, 1, 2]) for _ in triples]


def describe(exc):
    return "%s: %s" % (type(exc).__name__, str(exc)[:300])


def gen_sized(make, profile, cap, tries=12, aliases=False, **opts):
    """Draw graphs until one is inside the model's domain and its closure is small enough to simulate quickly."""
    for _ in range(tries):
        t = make()
        try:
            c = model.closure([tuple(x) for x in t], profile, want_errors=False, limit=cap * 3, **opts)
        except (model.Malformed, model.ModelTooBig):
            continue
        if len(c.hi) <= cap and not lists_equated(c, aliases):
            return t
    return [[":a0", "rdf:type", ":C0"], [":C0", "rdfs:subClassOf", ":C1"]]


def oversized(scen, cap=4000):
    """Is the answer itself so large that the step bound says nothing about termination?"""
    try:
        return len(model_of(scen, limit=cap, want_errors=False).hi) > cap
    except model.ModelTooBig:
        return True
    except model.Malformed:
        return False


def lists_equated(c, aliases=False):
    """List nodes merged by sameAs are outside the model's domain (a list would get two tails)."""
    for h in c.lists:
        if h == "rdf:nil":
            continue
        if len(c.same.get(h, ())) > 1:
            return True
    if len(c.same.get("rdf:nil", ())) > 1:
        return True
    if not aliases:  # derived list structure
        return any(t[1] in ("rdf:first", "rdf:rest") and t not in c.input for t in c.hi)
    # the same, but for members that are also known by another name: the conclusions stay the same, what reports call them need not
    first = {t[0]: t[2] for t in c.input if t[1] == "rdf:first"}
    return any(t[1] in ("rdf:first", "rdf:rest") and t not in c.input
               and not (t[1] == "rdf:first" and t[0] in first and t[2] in c.same.get(first[t[0]], ())) for t in c.hi)


def census(scen, **kw):
    """A fault-free rehearsal: which library code issues which store operation, and when."""
    w = World(scen, **kw)
    w.ctl.sites = {}
    w.expand()
    return w.ctl.ops, w.ctl.sites


def pick_op(sites, u1, u2):
    """Call site first, then an operation of that site: every place that touches the store is hit equally often."""
    keys = sorted(sites)
    if u1 < 0.2:  # more often where the work ends: post-processing, reports, cleaning up
        end = max(ops[-1] for ops in sites.values())
        tail = [k for k in keys if sites[k][0] > end - max(12, end // 25)]
        if tail:
            keys, u1 = tail, u1 * 5
    ops = sites[keys[min(int(u1 * len(keys)), len(keys) - 1)]]
    k = keys[min(int(u1 * len(keys)), len(keys) - 1)]
    return ops[min(int(u2 * len(ops)), len(ops) - 1)], "%s/%s" % k
