"""Executable reference model: the deductive closure as a least fixpoint over a declarative rule table.

Independent of owlrl: rules are data transcribed from the W3C tables (OWL 2 Profiles tables 4-9, RDF Semantics rdfs1-13),
axiom and datatype tables are frozen copies (spec/tables.json).  For every graph the model gives two sets:

  lo  - what must be in the closure,
  hi  - what may be in it (equal to lo except for the reflexive schema statements and datatype subsumptions that the
        library documents as optimised away or limited to one pass).

Both are monotone fixpoints, hence independent of any evaluation order.
"""
import datetime
import json
import os
import re
from fractions import Fraction

from . import terms
from .terms import is_bn, is_lit, lit_parts

_T = json.load(open(os.path.join(os.path.dirname(__file__), "spec", "tables.json")))
RDFS_AX = [tuple(t) for t in _T["RDFS_AX"]]
RDFS_DAX = [tuple(t) for t in _T["RDFS_DAX"]]
OWL_AX = [tuple(t) for t in _T["OWL_AX"]]
OWL_DAX = [tuple(t) for t in _T["OWL_DAX"]]
DISJ = [tuple(t) for t in _T["DISJ"]]
RL_DT = list(_T["RL_DT"])
SUBS = {k: list(v) for k, v in _T["SUBS"].items()}
ANN = list(_T["ANN"])

BINDING = [
    ("owl:Thing", "owl:equivalentClass", "rdfs:Resource"),
    ("rdfs:Class", "owl:equivalentClass", "owl:Class"),
    ("owl:DataRange", "owl:equivalentClass", "rdfs:Datatype"),
]
EXT_AX = [("owl:hasSelf", "rdf:type", "rdf:Property"), ("owl:hasSelf", "rdfs:domain", "rdf:Property")]

OWL_RULES = """
eq-ref     : ?s ?p ?o -> ?s owl:sameAs ?s ; ?p owl:sameAs ?p ; ?o owl:sameAs ?o
eq-sym     : ?x owl:sameAs ?y -> ?y owl:sameAs ?x
eq-trans   : ?x owl:sameAs ?y ; ?y owl:sameAs ?z | ?x!=?y ?y!=?z -> ?x owl:sameAs ?z
eq-rep-s   : ?s owl:sameAs ?t ; ?s ?p ?o | ?s!=?t -> ?t ?p ?o
eq-rep-p   : ?p owl:sameAs ?q ; ?s ?p ?o | ?p!=?q -> ?s ?q ?o
eq-rep-o   : ?o owl:sameAs ?t ; ?s ?p ?o | ?o!=?t -> ?s ?p ?t
prp-dom    : ?p rdfs:domain ?c ; ?x ?p ?y -> ?x rdf:type ?c
prp-rng    : ?p rdfs:range ?c ; ?x ?p ?y -> ?y rdf:type ?c
prp-fp     : ?p rdf:type owl:FunctionalProperty ; ?x ?p ?y ; ?x ?p ?z | ?y!=?z -> ?y owl:sameAs ?z
prp-ifp    : ?p rdf:type owl:InverseFunctionalProperty ; ?x ?p ?y ; ?z ?p ?y | ?x!=?z -> ?x owl:sameAs ?z
prp-symp   : ?p rdf:type owl:SymmetricProperty ; ?x ?p ?y -> ?y ?p ?x
prp-trp    : ?p rdf:type owl:TransitiveProperty ; ?x ?p ?y ; ?y ?p ?z -> ?x ?p ?z
prp-spo1   : ?p rdfs:subPropertyOf ?q ; ?x ?p ?y -> ?x ?q ?y
prp-eqp1   : ?p owl:equivalentProperty ?q ; ?x ?p ?y -> ?x ?q ?y
prp-eqp2   : ?p owl:equivalentProperty ?q ; ?x ?q ?y -> ?x ?p ?y
prp-inv1   : ?p owl:inverseOf ?q ; ?x ?p ?y -> ?y ?q ?x
prp-inv2   : ?p owl:inverseOf ?q ; ?x ?q ?y -> ?y ?p ?x
cls-svf1   : ?x owl:someValuesFrom ?y ; ?x owl:onProperty ?p ; ?u ?p ?v ; ?v rdf:type ?y -> ?u rdf:type ?x
cls-svf2   : ?x owl:someValuesFrom owl:Thing ; ?x owl:onProperty ?p ; ?u ?p ?v -> ?u rdf:type ?x
cls-avf    : ?x owl:allValuesFrom ?y ; ?x owl:onProperty ?p ; ?u rdf:type ?x ; ?u ?p ?v -> ?v rdf:type ?y
cls-hv1    : ?x owl:hasValue ?y ; ?x owl:onProperty ?p ; ?u rdf:type ?x -> ?u ?p ?y
cls-hv2    : ?x owl:hasValue ?y ; ?x owl:onProperty ?p ; ?u ?p ?y -> ?u rdf:type ?x
cax-sco    : ?c rdfs:subClassOf ?d ; ?x rdf:type ?c -> ?x rdf:type ?d
cax-eqc1   : ?c owl:equivalentClass ?d ; ?x rdf:type ?c -> ?x rdf:type ?d
cax-eqc2   : ?c owl:equivalentClass ?d ; ?x rdf:type ?d -> ?x rdf:type ?c
scm-cls    : ?c rdf:type owl:Class -> ?c rdfs:subClassOf ?c ; ?c owl:equivalentClass ?c ; ?c rdfs:subClassOf owl:Thing ; owl:Nothing rdfs:subClassOf ?c
scm-sco    : ?a rdfs:subClassOf ?b ; ?b rdfs:subClassOf ?c | ?a!=?b ?a!=?c -> ?a rdfs:subClassOf ?c
scm-eqc1   : ?a owl:equivalentClass ?b | ?a!=?b -> ?a rdfs:subClassOf ?b ; ?b rdfs:subClassOf ?a
scm-eqc2   : ?a rdfs:subClassOf ?b ; ?b rdfs:subClassOf ?a -> ?a owl:equivalentClass ?b
scm-op     : ?p rdf:type owl:ObjectProperty -> ?p rdfs:subPropertyOf ?p ; ?p owl:equivalentProperty ?p
scm-dp     : ?p rdf:type owl:DatatypeProperty -> ?p rdfs:subPropertyOf ?p ; ?p owl:equivalentProperty ?p
scm-spo    : ?a rdfs:subPropertyOf ?b ; ?b rdfs:subPropertyOf ?c | ?a!=?b ?a!=?c -> ?a rdfs:subPropertyOf ?c
scm-eqp1   : ?a owl:equivalentProperty ?b | ?a!=?b -> ?a rdfs:subPropertyOf ?b ; ?b rdfs:subPropertyOf ?a
scm-eqp2   : ?a rdfs:subPropertyOf ?b ; ?b rdfs:subPropertyOf ?a | ?a!=?b -> ?a owl:equivalentProperty ?b
scm-dom1   : ?p rdfs:domain ?a ; ?a rdfs:subClassOf ?b -> ?p rdfs:domain ?b
scm-dom2   : ?q rdfs:domain ?c ; ?p rdfs:subPropertyOf ?q -> ?p rdfs:domain ?c
scm-rng1   : ?p rdfs:range ?a ; ?a rdfs:subClassOf ?b -> ?p rdfs:range ?b
scm-rng2   : ?q rdfs:range ?c ; ?p rdfs:subPropertyOf ?q -> ?p rdfs:range ?c
scm-hv     : ?c owl:hasValue ?i ; ?c owl:onProperty ?p ; ?d owl:hasValue ?i ; ?d owl:onProperty ?q ; ?p rdfs:subPropertyOf ?q -> ?c rdfs:subClassOf ?d
scm-svf1   : ?c owl:someValuesFrom ?y ; ?c owl:onProperty ?p ; ?d owl:someValuesFrom ?z ; ?d owl:onProperty ?p ; ?y rdfs:subClassOf ?z -> ?c rdfs:subClassOf ?d
scm-svf2   : ?c owl:someValuesFrom ?y ; ?c owl:onProperty ?p ; ?d owl:someValuesFrom ?y ; ?d owl:onProperty ?q ; ?p rdfs:subPropertyOf ?q -> ?c rdfs:subClassOf ?d
scm-avf1   : ?c owl:allValuesFrom ?y ; ?c owl:onProperty ?p ; ?d owl:allValuesFrom ?z ; ?d owl:onProperty ?p ; ?y rdfs:subClassOf ?z -> ?c rdfs:subClassOf ?d
scm-avf2   : ?c owl:allValuesFrom ?y ; ?c owl:onProperty ?p ; ?d owl:allValuesFrom ?y ; ?d owl:onProperty ?q ; ?p rdfs:subPropertyOf ?q -> ?d rdfs:subClassOf ?c
"""
OWL_RULES_HI = """
scm-sco*   : ?a rdfs:subClassOf ?b ; ?b rdfs:subClassOf ?c -> ?a rdfs:subClassOf ?c
scm-eqc1*  : ?a owl:equivalentClass ?b -> ?a rdfs:subClassOf ?b ; ?b rdfs:subClassOf ?a
scm-prop*  : ?p rdf:type rdf:Property -> ?p rdfs:subPropertyOf ?p ; ?p owl:equivalentProperty ?p
scm-spo*   : ?a rdfs:subPropertyOf ?b ; ?b rdfs:subPropertyOf ?c -> ?a rdfs:subPropertyOf ?c
scm-eqp1*  : ?a owl:equivalentProperty ?b -> ?a rdfs:subPropertyOf ?b ; ?b rdfs:subPropertyOf ?a
scm-eqp2*  : ?a rdfs:subPropertyOf ?b ; ?b rdfs:subPropertyOf ?a -> ?a owl:equivalentProperty ?b
"""
OWL_ERRORS = """
eq-diff1   : ?x owl:sameAs ?y ; ?x owl:differentFrom ?y -> ERR ?x ?y
prp-irp    : ?p rdf:type owl:IrreflexiveProperty ; ?x ?p ?x -> ERR ?x ?p
prp-asyp   : ?p rdf:type owl:AsymmetricProperty ; ?x ?p ?y ; ?y ?p ?x -> ERR ?p ?x ?y
prp-pdw    : ?p owl:propertyDisjointWith ?q ; ?x ?p ?y ; ?x ?q ?y -> ERR ?p ?q ?x ?y
prp-npa1   : ?n owl:sourceIndividual ?i ; ?n owl:assertionProperty ?p ; ?n owl:targetIndividual ?j ; ?i ?p ?j -> ERR ?i ?p ?j
prp-npa2   : ?n owl:sourceIndividual ?i ; ?n owl:assertionProperty ?p ; ?n owl:targetValue ?j ; ?i ?p ?j -> ERR ?i ?p ?j
cls-nothing2 : ?x rdf:type owl:Nothing -> ERR ?x
cls-com    : ?c owl:complementOf ?d ; ?x rdf:type ?c ; ?x rdf:type ?d -> ERR ?c ?d ?x
cax-dw     : ?c owl:disjointWith ?d ; ?x rdf:type ?c ; ?x rdf:type ?d -> ERR ?c ?d ?x
"""
RDFS_RULES = """
rdf1    : ?s ?p ?o -> ?p rdf:type rdf:Property
rdfs2   : ?p rdfs:domain ?c ; ?x ?p ?y -> ?x rdf:type ?c
rdfs3   : ?p rdfs:range ?c ; ?x ?p ?y -> ?y rdf:type ?c
rdfs4   : ?s ?p ?o -> ?s rdf:type rdfs:Resource ; ?o rdf:type rdfs:Resource
rdfs5   : ?a rdfs:subPropertyOf ?b ; ?b rdfs:subPropertyOf ?c -> ?a rdfs:subPropertyOf ?c
rdfs6   : ?p rdf:type rdf:Property -> ?p rdfs:subPropertyOf ?p
rdfs7   : ?p rdfs:subPropertyOf ?q ; ?x ?p ?y -> ?x ?q ?y
rdfs8   : ?c rdf:type rdfs:Class -> ?c rdfs:subClassOf rdfs:Resource
rdfs9   : ?c rdfs:subClassOf ?d ; ?x rdf:type ?c -> ?x rdf:type ?d
rdfs10  : ?c rdf:type rdfs:Class -> ?c rdfs:subClassOf ?c
rdfs11  : ?a rdfs:subClassOf ?b ; ?b rdfs:subClassOf ?c -> ?a rdfs:subClassOf ?c
rdfs12  : ?p rdf:type rdfs:ContainerMembershipProperty -> ?p rdfs:subPropertyOf rdfs:member
rdfs13  : ?d rdf:type rdfs:Datatype -> ?d rdfs:subClassOf rdfs:Literal
"""
EXT_RULES = """
self1  : ?z owl:hasSelf ?v ; ?z owl:onProperty ?p ; ?y rdf:type ?z -> ?y ?p ?y
self2  : ?z owl:hasSelf ?v ; ?z owl:onProperty ?p ; ?y ?p ?y -> ?y rdf:type ?z
"""

# ---------------------------------------------------------------- term interning (process-wide, append only)
_ID = {}
_STR = []
_LIT = bytearray()  # 1 if the term is a literal


def tid(s):
    i = _ID.get(s)
    if i is None:
        i = _ID[s] = len(_STR)
        _STR.append(s)
        _LIT.append(1 if is_lit(s) else 0)
    return i


def tstr(i):
    return _STR[i]


TYPE = tid("rdf:type")


class Rule:
    __slots__ = ("name", "body", "guards", "heads", "err", "trig", "guardfn")

    def __init__(self, name, body, guards, heads, err=None, guardfn=None):
        self.name = name
        self.body = body  # list of 3-tuples; variables are str starting with '?', constants are ints
        self.guards = guards
        self.heads = heads
        self.err = err  # list of variables/constants, for error rules
        self.guardfn = guardfn
        self.trig = None


def _term(x):
    return x if x[0] == "?" else tid(x)


def _atoms(txt):
    out = []
    for a in txt.split(";"):
        p = a.split()
        assert len(p) == 3, a
        out.append(tuple(_term(x) for x in p))
    return out


def parse(txt):
    rules = []
    for line in txt.strip().splitlines():
        m = re.match(r"\s*([\w*-]+)\s*:\s(.*)", line)
        name, rest = m.group(1), m.group(2)
        lhs, rhs = rest.split("->")
        guards = []
        if "|" in lhs:
            lhs, g = lhs.split("|")
            guards = [tuple(x.split("!=")) for x in g.split()]
        if rhs.strip().startswith("ERR"):
            rules.append(Rule(name, _atoms(lhs), guards, None, [_term(x) for x in rhs.split()[1:]]))
        else:
            rules.append(Rule(name, _atoms(lhs), guards, _atoms(rhs)))
    return rules


def _v(x):
    return x[1:] if isinstance(x, str) else str(x)


def _compile(rule, trig):
    """Python source of a function that extends one matching triple to all derivations of the rule.
    trig None: a full query (used for error rules)."""
    lines = []
    bound = set()
    done = [False] * len(rule.body)
    guards = list(rule.guards)
    ind = 1

    def emit(s):
        lines.append("    " * ind + s)

    def flush_guards():
        for g in list(guards):
            if g[0] in bound and g[1] in bound:
                emit("if %s == %s: %s" % (_v(g[0]), _v(g[1]), "return" if ind == 1 else "continue"))
                guards.remove(g)

    def isb(x):
        return not isinstance(x, str) or x in bound

    if trig is not None:
        a = rule.body[trig]
        done[trig] = True
        for pos, x in zip("spo", a):
            if not isinstance(x, str):
                emit("if _%s != %d: return" % (pos, x))
            elif x in bound:
                emit("if _%s != %s: return" % (pos, _v(x)))
            else:
                emit("%s = _%s" % (_v(x), pos))
                bound.add(x)
        flush_guards()
    while not all(done):
        best = None
        for i, a in enumerate(rule.body):
            if done[i]:
                continue
            sb, pb, ob = isb(a[0]), isb(a[1]), isb(a[2])
            if sb and pb and ob:
                sc = 0
            elif pb and (sb or ob):
                sc = 1
            elif sb or ob:
                sc = 3
            elif pb:
                sc = 4
            else:
                sc = 9
            if best is None or sc < best[0]:
                best = (sc, i)
        i = best[1]
        done[i] = True
        s, p, o = rule.body[i]
        sb, pb, ob = isb(s), isb(p), isb(o)
        stop = "return" if ind == 1 else "continue"
        if pb and sb and ob:
            emit("if %s not in PSO.get(%s, E).get(%s, E): %s" % (_v(o), _v(p), _v(s), stop))
        elif pb and sb:
            emit("for %s in PSO.get(%s, E).get(%s, E):" % (_v(o), _v(p), _v(s)))
            ind += 1
            bound.add(o)
        elif pb and ob:
            emit("for %s in POS.get(%s, E).get(%s, E):" % (_v(s), _v(p), _v(o)))
            ind += 1
            bound.add(s)
        elif pb:
            emit("for %s, _os in PSO.get(%s, E).items():" % (_v(s), _v(p)))
            ind += 1
            bound.add(s)
            if s == o:
                emit("if %s not in _os: continue" % _v(s))
            else:
                emit("for %s in _os:" % _v(o))
                ind += 1
                bound.add(o)
        elif sb and not ob:
            emit("for %s, %s in SX.get(%s, E):" % (_v(p), _v(o), _v(s)))
            ind += 1
            bound.update((p, o))
        elif ob and not sb:
            emit("for %s, %s in OX.get(%s, E):" % (_v(s), _v(p), _v(o)))
            ind += 1
            bound.update((s, p))
        else:
            raise AssertionError("unsupported join in %s" % rule.name)
        flush_guards()
    if rule.guardfn:
        gv = rule.guardfn[0]
        emit("if not GUARD(%s): %s" % (", ".join(_v(x) for x in gv), "return" if ind == 1 else "continue"))
    if rule.err is not None:
        emit("out.append((%s,))" % ", ".join(_v(x) for x in rule.err))
    else:
        for h in rule.heads:
            emit("out.append((%s, %s, %s))" % tuple(_v(x) for x in h))
    src = "def f(_s, _p, _o, PSO, POS, SX, OX, out, E=()):\n" + "\n".join(lines) + "\n"
    src = src.replace(", E).items()", ", ED).items()").replace(", E).get(", ", ED).get(")
    ns = {"ED": {}, "GUARD": rule.guardfn[1] if rule.guardfn else None}
    exec(src, ns)
    return ns["f"]


def _triggers(rule):
    """[(kind, key, fn)]: kind 'po' (predicate and object constant), 'p' or '*'."""
    if rule.trig is None:
        out = []
        for i, a in enumerate(rule.body):
            f = _compile(rule, i)
            s, p, o = a
            if isinstance(p, str):
                out.append(("*", None, f, rule.name))
            elif not isinstance(o, str):
                out.append(("po", (p, o), f, rule.name))
            else:
                out.append(("p", p, f, rule.name))
        rule.trig = out
    return rule.trig


_STATIC = {}


def static(name, txt):
    if name not in _STATIC:
        rs = parse(txt)
        for r in rs:
            if r.err is None:
                _triggers(r)
            else:
                r.trig = _compile(r, None)
        _STATIC[name] = rs
    return _STATIC[name]


class Engine:
    def __init__(self, hook=None):
        self.pso, self.pos, self.sx, self.ox = {}, {}, {}, {}
        self.facts = set()
        self.star, self.byp, self.bypo = [], {}, {}
        self.fired = {}
        self.limit = None

    def add_rules(self, rules):
        for r in rules:
            for kind, key, f, name in _triggers(r):
                if kind == "*":
                    self.star.append((f, name))
                elif kind == "p":
                    self.byp.setdefault(key, []).append((f, name))
                else:
                    self.bypo.setdefault(key, []).append((f, name))

    def _index(self, t):
        s, p, o = t
        self.facts.add(t)
        self.pso.setdefault(p, {}).setdefault(s, set()).add(o)
        self.pos.setdefault(p, {}).setdefault(o, set()).add(s)
        self.sx.setdefault(s, set()).add((p, o))
        self.ox.setdefault(o, set()).add((s, p))

    def run(self, base):
        facts = self.facts
        todo = [t for t in base if t not in facts and not _LIT[t[1]]]
        pend = set(todo)
        pso, pos, sx, ox = self.pso, self.pos, self.sx, self.ox
        lit = _LIT
        fired = self.fired
        empty = ()
        while todo:
            t = todo.pop()
            self._index(t)
            s, p, o = t
            for group in (self.star, self.byp.get(p, empty), self.bypo.get((p, o), empty)):
                for f, name in group:
                    out = []
                    f(s, p, o, pso, pos, sx, ox, out)
                    if out:
                        for h in out:
                            if h not in facts and h not in pend and not lit[h[1]]:
                                pend.add(h)
                                todo.append(h)
                                fired[name] = fired.get(name, 0) + 1
            if self.limit is not None and len(pend) > self.limit:
                raise ModelTooBig()
        return self

    def extend(self, rules, base=()):
        """Add rules (and facts) to a completed fixpoint and continue to the new one."""
        old = list(self.facts)
        tr = []
        for r in rules:
            tr += _triggers(r)
        seeds = set(base)
        for s, p, o in old:
            for kind, key, f, name in tr:
                if kind == "*" or (kind == "p" and key == p) or (kind == "po" and key == (p, o)):
                    out = []
                    f(s, p, o, self.pso, self.pos, self.sx, self.ox, out)
                    seeds.update(out)
        self.add_rules(rules)
        return self.run([x for x in seeds if x not in self.facts])

    def errors(self, rules):
        out = set()
        for r in rules:
            acc = []
            if r.trig is None:
                r.trig = _compile(r, None)
            r.trig(None, None, None, self.pso, self.pos, self.sx, self.ox, acc)
            for a in acc:
                out.add((r.name,) + tuple(_STR[x] for x in a))
        return out


class ModelTooBig(Exception):
    pass


class Malformed(Exception):
    """The graph's lists are outside the domain of the model."""


# ---------------------------------------------------------------- literals
_NUM = {
    "xsd:decimal", "xsd:integer", "xsd:nonNegativeInteger", "xsd:nonPositiveInteger", "xsd:positiveInteger",
    "xsd:negativeInteger", "xsd:long", "xsd:int", "xsd:short", "xsd:byte", "xsd:unsignedLong", "xsd:unsignedInt",
    "xsd:unsignedShort", "xsd:unsignedByte",
}
_INTBOUND = {
    "xsd:integer": (None, None), "xsd:nonNegativeInteger": (0, None), "xsd:nonPositiveInteger": (None, 0),
    "xsd:positiveInteger": (1, None), "xsd:negativeInteger": (None, -1), "xsd:long": (-(2 ** 63), 2 ** 63 - 1),
    "xsd:int": (-(2 ** 31), 2 ** 31 - 1), "xsd:short": (-32768, 32767), "xsd:byte": (-128, 127),
    "xsd:unsignedLong": (0, 2 ** 64 - 1), "xsd:unsignedInt": (0, 2 ** 32 - 1), "xsd:unsignedShort": (0, 65535),
    "xsd:unsignedByte": (0, 255),
}
_STRING = {"xsd:string", "xsd:normalizedString", "xsd:token", "xsd:language", "xsd:Name", "xsd:NCName", "xsd:NMTOKEN"}


_TZ = r"(Z|[+-](0[0-9]|1[0-3]):[0-5][0-9]|[+-]14:00)?"
_DATE = r"([0-9]{4})-([0-9]{2})-([0-9]{2})"
_TIME = r"((?:[01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](?:\.[0-9]+)?|24:00:00(?:\.0+)?)"
_B64 = r"([A-Za-z0-9+/]{4})*([A-Za-z0-9+/]{2}[AEIMQUYcgkosw048]=|[A-Za-z0-9+/][AQgw]==)?"


def lexical(lex, dt):
    """Is lex in the lexical space of dt?  True, False, or None: no position (white space, years Python cannot represent, floating
    point overflow, Unicode names, IRIs)."""
    if dt in ("xsd:dateTime", "xsd:dateTimeStamp", "xsd:date", "xsd:time"):
        if lex != lex.strip() or re.match(r"-?[0-9]{5}|-[0-9]{4}-|0000-|9999-12-31T24", lex):
            return None
        pat = {"xsd:date": _DATE, "xsd:time": _TIME}.get(dt, _DATE + "T" + _TIME)
        m = re.fullmatch(pat + _TZ, lex, re.A)
        if not m or (dt == "xsd:dateTimeStamp" and not m.group(5)):
            return False
        if dt != "xsd:time":
            try:
                datetime.date(int(m.group(1)), int(m.group(2)), int(m.group(3)))
            except ValueError:
                return False
        return True
    if dt == "xsd:base64Binary":
        if re.search(r"\s", lex):
            return None
        if re.fullmatch(_B64, lex):
            return True
        # (RFC 4648 lets decoders accept left-over bits)
        return None if re.fullmatch(r"[A-Za-z0-9+/]*={0,2}", lex) and len(lex) % 4 == 0 else False
    if dt == "xsd:hexBinary":
        return None if lex != lex.strip() else re.fullmatch("([0-9A-Fa-f]{2})*", lex) is not None
    if dt in ("xsd:double", "xsd:float"):
        if lex in ("INF", "-INF", "NaN"):
            return True
        if lex == "+INF" or lex != lex.strip():
            return None
        m = re.fullmatch(r"[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[Ee]([+-]?[0-9]+))?", lex)
        if not m:
            return False
        return True if len(lex) < 25 and abs(int(m.group(1) or 0)) < 15 else None
    if dt == "xsd:language":
        return re.fullmatch(r"[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*", lex) is not None
    if dt in ("xsd:Name", "xsd:NCName", "xsd:NMTOKEN"):
        if not lex.isascii():
            return None
        first = {"xsd:Name": "[A-Za-z_:]", "xsd:NCName": "[A-Za-z_]", "xsd:NMTOKEN": "[-A-Za-z0-9._:]"}[dt]
        if re.fullmatch(first + ("[-A-Za-z0-9._]*" if dt == "xsd:NCName" else "[-A-Za-z0-9._:]*"), lex):
            return True
        # (a name that starts with a colon is an NCName of the library: its tests are rudimentary, by its own words)
        return False if lex == "" or re.match(r"[-.0-9]", lex) or re.search(r"[^-A-Za-z0-9._:]", lex) else None
    if dt == "xsd:normalizedString":
        return re.search(r"[\n\t\r]", lex) is None
    if dt == "xsd:token":
        if re.search(r"[^\x20-\x7e\n\t\r]", lex):
            return None
        return not (re.search(r"[\n\t\r]|  ", lex) or lex != lex.strip())
    if dt == "rdf:PlainLiteral":
        if "@" not in lex:
            return False
        tag = lex[lex.rindex("@") + 1:]
        return tag == "" or re.fullmatch(r"[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*", tag) is not None
    if dt == "rdf:XMLLiteral":
        if re.search(r"[^\x20-\x7e\n\t]", lex):
            return None
        if re.fullmatch(r"[^<>&]*", lex):
            return True
        if re.fullmatch(r"<a(>[a-z]*</a|/)>(<b/>)?", lex):
            return True
        return False if re.fullmatch(r"<a[^<>&]*|</?[ab]>|<a></b>", lex) and not lex.endswith("/>") else None
    if dt in ("xsd:string", "rdf:HTML"):
        return True
    return None


def rational(lex):
    """Is this in the lexical space of owl:rational?  (an integer alone and white space: undecided)"""
    if re.fullmatch(r"[+-]?[0-9]+/0*[1-9][0-9]*", lex):
        return True
    return None if re.fullmatch(r"\s*[+-]?[0-9]+\s*(/\s*[0-9]*[1-9][0-9]*\s*)?", lex) else False


def lit_value(s):
    """(family, value) of a literal, ('bad', None) if ill-typed, ('well', None) if well-typed but of a value the model does not
    compute, or None when the model takes no position at all."""
    v = _lit_value(s)
    if v is None:
        lex, dt, lang = lit_parts(s)
        ok = lexical(lex, dt)
        if ok is not None:
            return ("well", None) if ok else ("bad", None)
    return v


def _lit_value(s):
    lex, dt, lang = lit_parts(s)
    if lang is not None:
        return ("lang:" + lang, lex)
    if dt is None or dt == "xsd:string":
        return ("string", lex)
    if dt in _INTBOUND:
        if not re.fullmatch(r"[+-]?[0-9]+", lex, re.A):
            return ("bad", None) if lex == lex.strip() else None
        v = int(lex)
        lo, hi = _INTBOUND[dt]
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            return ("bad", None)
        return ("num", Fraction(v))
    if dt == "xsd:decimal":
        if not re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", lex):
            return ("bad", None) if lex == lex.strip() else None
        return ("num", Fraction(lex))
    if dt == "xsd:boolean":
        if lex in ("true", "1"):
            return ("bool", True)
        if lex in ("false", "0"):
            return ("bool", False)
        return ("bad", None) if lex == lex.strip() else None
    if dt in ("xsd:normalizedString", "xsd:token", "xsd:NCName", "xsd:Name", "xsd:NMTOKEN", "xsd:language"):
        if re.fullmatch(r"[A-Za-z]{1,8}", lex):
            return ("string", lex)
        if dt == "xsd:NMTOKEN" and re.fullmatch(r"[A-Za-z0-9.-]+", lex):
            return ("string", lex)
        if dt in ("xsd:NCName", "xsd:Name") and re.fullmatch(r"[0-9.-]\w*", lex):
            return ("bad", None)
        if dt == "xsd:token" and (lex != lex.strip() or "  " in lex or "\n" in lex):
            return ("bad", None)
        if dt == "xsd:token" and re.fullmatch(r"[A-Za-z0-9]+( [A-Za-z0-9]+)*", lex):
            return ("string", lex)
        if dt == "xsd:normalizedString" and re.fullmatch(r"[A-Za-z0-9 ]+", lex):
            return ("string", lex)
        if dt == "xsd:normalizedString" and re.search(r"[\n\t\r]", lex):
            return ("bad", None)
        return None
    if dt == "xsd:dateTime" and re.fullmatch(r"[12]\d{3}-(0[1-9]|1[0-2])-(0[1-9]|1\d|2[0-8])T([01]\d|2[0-3]):[0-5]\d:[0-5]\d", lex):
        return ("dateTime", lex)
    if dt == "xsd:date" and re.fullmatch(r"[12]\d{3}-(0[1-9]|1[0-2])-(0[1-9]|1\d|2[0-8])", lex):
        return ("date", lex)
    if dt in ("xsd:dateTime", "xsd:date", "xsd:time") and not re.search(r"\d", lex) and lex:
        return ("bad", None)
    if dt in ("xsd:double", "xsd:float") and re.fullmatch(r"[+-]?[1-9][0-9]*(\.[0-9]+)?(E[+-]?[1-9])?", lex):
        return (dt, Fraction(lex.replace("E", "e")) if "E" not in lex else Fraction(lex))
    if dt in ("xsd:double", "xsd:float") and re.fullmatch(r"[a-z ]+", lex) and lex.strip().lower() not in ("nan", "inf", "infinity"):
        return ("bad", None)
    if dt == "xsd:hexBinary" and re.fullmatch(r"([0-9A-Fa-f]{2})+", lex):
        return ("hex", lex.lower())
    if dt == "xsd:anyURI" and re.fullmatch(r"http://[a-z./]+", lex):
        return ("uri", lex)
    return None


_LEX_KNOWN = _NUM | _STRING | {"", "xsd:double", "xsd:float"}


def _loose(s):
    """Ill-typed or not, may the library (or RDFLib) have a value for it that this model does not compute?"""
    lex, dt, _ = lit_parts(s)
    if dt == "xsd:boolean":
        return True  # (RDFLib takes whatever is not true for false)
    return dt is not None and dt not in _LEX_KNOWN and (dt not in ("xsd:dateTime", "xsd:dateTimeStamp", "xsd:date", "xsd:time")
                                                        or re.search(r"\d", lex) is not None)


def _lenient(s):
    lex = lit_parts(s)[0]
    try:
        return Fraction(lex.strip())
    except (ValueError, ZeroDivisionError):
        return lex


def py_same(a, b):
    """Could any sane value-based comparison call these two equal?  (upper bound for the hidden literal rule)"""
    va, vb = lit_value(a), lit_value(b)
    if lit_parts(a)[2] != lit_parts(b)[2]:
        return False
    if va is None or vb is None or va[0] == "well" or vb[0] == "well":
        return True
    if va[0] == "bad" or vb[0] == "bad":
        if _loose(a) and _loose(b) and (lit_parts(a)[1] == "xsd:boolean") == (lit_parts(b)[1] == "xsd:boolean"):
            return True
        return _lenient(a) == _lenient(b)  # an ill-typed literal may still carry rdflib's more lenient value
    if va[0].startswith("lang:") or vb[0].startswith("lang:"):
        return va == vb
    numeric = ("num", "xsd:double", "xsd:float")
    if va[0] in numeric and vb[0] in numeric:
        return va[1] == vb[1]
    if isinstance(va[1], str) and isinstance(vb[1], str):
        # string-like families (anyURI, hexBinary ...) are compared by the library on their Python values
        return va[1] == vb[1]
    return va == vb


def sure_same(a, b):
    """Same value in the XSD value space of one primitive type (lower bound)."""
    if a == b:
        return True
    va, vb = lit_value(a), lit_value(b)
    if va is None or vb is None or va[0] == "bad" or vb[0] == "bad":
        return False
    if va[0] == "string" and not (lit_parts(a)[1] in _EARLY and lit_parts(b)[1] in _EARLY):
        return False
    return va == vb and va[0] in ("num", "string", "bool")


# string types every rdflib Literal carries a value for, whenever it was built (the others have one only when the
# literal is built while the library's conversion table is installed)
_EARLY = {None, "xsd:string", "xsd:normalizedString", "xsd:token", "xsd:language"}


# ---------------------------------------------------------------- facets
FACETABLE = {
    "num": {"xsd:decimal", "xsd:integer", "xsd:nonNegativeInteger", "xsd:nonPositiveInteger", "xsd:positiveInteger",
            "xsd:negativeInteger", "xsd:long", "xsd:int", "xsd:short", "xsd:byte", "xsd:unsignedLong",
            "xsd:unsignedInt", "xsd:unsignedShort", "xsd:unsignedByte", "xsd:double", "xsd:float", "xsd:dateTime", "xsd:dateTimeStamp",
            "xsd:time", "xsd:date"},
    "len": {"xsd:hexBinary", "xsd:base64Binary"},
    "str": {"xsd:anyURI", "xsd:string", "xsd:NMTOKEN", "xsd:Name", "xsd:NCName", "xsd:language", "xsd:normalizedString",
            "xsd:token"},
    "plain": {"rdf:PlainLiteral"},
}


class Facet:
    def __init__(self, dt, base, facets):
        self.dt, self.base, self.facets = dt, base, facets

    def holds(self, lit):
        """True/False, or None when the model takes no position."""
        lex, dt, lang = lit_parts(lit)
        if dt == self.dt:
            v = lit_value('"%s"^^%s' % (lex, self.base))
            if v is not None and v[0] == "bad":
                return False
        else:
            v = lit_value(lit)
        if v is None or v[0] in ("bad", "well"):
            return None
        cat = [k for k, s in FACETABLE.items() if self.base in s]
        if not cat:
            return None
        cat = cat[0]
        for f, x in self.facets:
            xv = lit_value(x)
            if f in ("xsd:minInclusive", "xsd:minExclusive", "xsd:maxInclusive", "xsd:maxExclusive"):
                if cat != "num":
                    continue
                if xv is None or xv[0] != v[0]:
                    return None
                ok = {"xsd:minInclusive": xv[1] <= v[1], "xsd:minExclusive": xv[1] < v[1],
                      "xsd:maxInclusive": v[1] <= xv[1], "xsd:maxExclusive": v[1] < xv[1]}[f]
            elif f in ("xsd:length", "xsd:minLength", "xsd:maxLength"):
                if cat not in ("str",):
                    if cat == "num":
                        continue
                    return None
                if xv is None or xv[0] != "num" or v[0] != "string":
                    return None
                n = len(v[1])
                ok = {"xsd:length": n == xv[1], "xsd:minLength": n >= xv[1], "xsd:maxLength": n <= xv[1]}[f]
            elif f == "xsd:pattern":
                if cat != "str":
                    continue
                if v[0] != "string":
                    return None
                ok = re.fullmatch(lit_parts(x)[0], v[1]) is not None
            else:
                return None
            if not ok:
                return False
        return True


def read_lists(triples):
    """head -> members for every well-formed rdf:List; raises Malformed otherwise."""
    first, rest = {}, {}
    for s, p, o in triples:
        if p == "rdf:first":
            if s in first and first[s] != o:
                raise Malformed("two rdf:first on " + s)
            first[s] = o
        elif p == "rdf:rest":
            if s in rest and rest[s] != o:
                raise Malformed("two rdf:rest on " + s)
            rest[s] = o
    out = {}
    for h in set(first) | set(rest):
        acc, seen, n = [], set(), h
        while n != "rdf:nil":
            if n in seen:
                raise Malformed("cyclic list " + h)
            seen.add(n)
            if n not in first or n not in rest:
                raise Malformed("broken list " + h)
            acc.append(first[n])
            n = rest[n]
        out[h] = acc
    out["rdf:nil"] = []
    return out


def read_facets(triples, lists):
    by = {}
    for s, p, o in triples:
        by.setdefault((s, p), []).append(o)
    out = []
    for (s, p), os in sorted(by.items()):
        if p == "rdf:type" and "rdfs:Datatype" in os:
            base = by.get((s, "owl:onDatatype"), [])
            rl = by.get((s, "owl:withRestrictions"), [])
            if len(base) != 1 or len(rl) != 1:
                continue
            if not any(base[0] in v for v in FACETABLE.values()):
                continue
            fac = []
            for r in lists.get(rl[0], []):
                for t in triples:
                    if t[0] == r and is_lit(t[2]):
                        fac.append((t[1], t[2]))
            out.append(Facet(s, base[0], fac))
    return out


def _list_rules(lists):
    """Rule instances for the list-valued constructs; error rules separately."""
    rules, errs = [], []
    for h, els in sorted(lists.items()):
        n = len(els)
        if n == 0:
            continue
        H = tid(h)
        E = [tid(e) for e in els]
        used = set()
        # prp-spo2
        body = [("?c", tid("owl:propertyChainAxiom"), H)]
        for i, e in enumerate(E):
            body.append(("?u%d" % i, e, "?u%d" % (i + 1)))
        rules.append(Rule("prp-spo2/%d" % min(n, 4), body, [], [("?u0", "?c", "?u%d" % n)]))
        # prp-key
        body = [("?c", tid("owl:hasKey"), H), ("?x", TYPE, "?c")]
        for i, e in enumerate(E):
            body.append(("?x", e, "?z%d" % i))
        body.append(("?y", TYPE, "?c"))
        for i, e in enumerate(E):
            body.append(("?y", e, "?z%d" % i))
        rules.append(Rule("prp-key/%d" % min(n, 4), body, [("?x", "?y")], [("?x", tid("owl:sameAs"), "?y")]))
        # cls-int
        c0 = ("?c", tid("owl:intersectionOf"), H)
        rules.append(Rule("cls-int1/%d" % min(n, 4), [c0] + [("?y", TYPE, e) for e in E], [], [("?y", TYPE, "?c")]))
        rules.append(Rule("cls-int2", [c0, ("?y", TYPE, "?c")], [], [("?y", TYPE, e) for e in E]))
        sc = tid("rdfs:subClassOf")
        rules.append(Rule("scm-int", [c0], [], [("?c", sc, e) for e in E]))
        cu = ("?c", tid("owl:unionOf"), H)
        for e in sorted(set(E)):
            rules.append(Rule("cls-uni", [cu, ("?y", TYPE, e)], [], [("?y", TYPE, "?c")]))
        rules.append(Rule("scm-uni", [cu], [], [(e, sc, "?c") for e in E]))
        rules.append(Rule("cls-oo", [("?c", tid("owl:oneOf"), H)], [], [(e, TYPE, "?c") for e in E]))
        for i in range(n):
            for j in range(i + 1, n):
                a, b = E[i], E[j]
                # a member named twice may be reported against itself, but need not be
                may = "*" if a == b else ""
                for nm, pr in (("eq-diff2", "owl:members"), ("eq-diff3", "owl:distinctMembers")):
                    if a == b:
                        continue
                    errs.append(Rule(nm, [("?x", TYPE, tid("owl:AllDifferent")), ("?x", tid(pr), H),
                                          (a, tid("owl:sameAs"), b)], [], None, [a, b]))
                errs.append(Rule("prp-adp" + may, [("?n", TYPE, tid("owl:AllDisjointProperties")), ("?n", tid("owl:members"), H),
                                             ("?x", a, "?y"), ("?x", b, "?y")], [], None, [a, b, "?x", "?y"]))
                errs.append(Rule("cax-adc" + may, [("?n", TYPE, tid("owl:AllDisjointClasses")), ("?n", tid("owl:members"), H),
                                             ("?x", TYPE, a), ("?x", TYPE, b)], [], None, [a, b, "?x"]))
    return rules, errs


def _card_rules(lits):
    rules, errs = [], []
    sa = tid("owl:sameAs")
    onp, onc = tid("owl:onProperty"), tid("owl:onClass")
    for l in lits:
        v = lit_value(l)
        if v is None or v[0] not in ("num", "xsd:double", "xsd:float"):
            continue
        if v[1] not in (0, 1):
            continue
        L = tid(l)
        m = ("?r", tid("owl:maxCardinality"), L)
        q = ("?r", tid("owl:maxQualifiedCardinality"), L)
        p = ("?r", onp, "?p")
        u = ("?u", TYPE, "?r")
        c = ("?r", onc, "?c")
        ct = ("?r", onc, tid("owl:Thing"))
        y, z = ("?u", "?p", "?y"), ("?u", "?p", "?z")
        if v[1] == 0:
            errs.append(Rule("cls-maxc1", [m, p, u, y], [], None, ["?r", "?y"]))
            errs.append(Rule("cls-maxqc1", [q, p, c, u, y, ("?y", TYPE, "?c")], [], None, ["?r", "?c", "?y"]))
            errs.append(Rule("cls-maxqc2", [q, p, ct, u, y], [], None, ["?r", tid("owl:Thing"), "?y"]))
        else:
            g = [("?y", "?z")]
            h = [("?y", sa, "?z")]
            rules.append(Rule("cls-maxc2", [m, p, u, y, z], g, h))
            rules.append(Rule("cls-maxqc3", [q, p, c, u, y, ("?y", TYPE, "?c"), z, ("?z", TYPE, "?c")], g, h))
            rules.append(Rule("cls-maxqc4", [q, p, ct, u, y, z], g, h))
    return rules, errs


LIST_ERR = {"eq-diff2", "eq-diff3", "prp-adp", "cax-adc"}


class Closure:
    """lo/hi: closure bounds as sets of encoded triples (before error reports); errlo/errhi: inconsistency instances."""

    def __init__(self):
        self.lo = self.hi = None
        self.errlo = self.errhi = None
        self.fired = {}
        self.same = {}
        self.exact = False


def closure(triples, profile, axioms=False, daxioms=False, rdfs=False, improved=True, limit=40000, extra_rules=None,
            want_errors=True, extra_base=(), extra_errors=None, veto=(), dtypes=None, subsume=None):
    """profile: rdfs | owl | comb | ext | trim | core (no rules of its own)
    What a user-defined semantics adds: extra_rules / extra_errors (rule text), extra_base (triples present from the start),
    veto (classes the all-values-from rule must not type anything with), dtypes {uri: (supertypes, predicate on lexical forms)}, subsume {uri: supertypes} (replaces what is known of a datatype)."""
    triples = set(triples)
    owl = profile not in ("rdfs", "core")
    dtypes = dtypes or {}
    if profile in ("comb", "rdfs"):
        rdfs = True
    elif profile in ("owl", "core"):
        rdfs = False
    ext = profile in ("ext", "trim")
    comb = profile in ("comb", "ext", "trim")
    lists = read_lists(triples) if owl else {}
    facets = read_facets(triples, lists) if ext else []
    rl_dt = list(RL_DT) + (["owl:rational"] if ext else []) + [f.dt for f in facets]
    subs = dict(SUBS)
    if ext:
        subs["xsd:decimal"] = ["owl:rational"]
    for f in facets:
        subs[f.dt] = [f.base]
    fdts = {f.dt: f for f in facets}
    rl_dt += sorted(dtypes)
    for d, (sups, _) in dtypes.items():
        subs[d] = list(sups)
    subs.update(subsume or {})
    rlset = set(rl_dt)

    lo, hi = set(triples), set()
    olits = sorted(set(t[2] for t in triples if is_lit(t[2])))
    if axioms:
        if rdfs:
            lo.update(RDFS_AX)
            maxn = 0
            for s, p, o in triples:
                m = re.fullmatch(r"rdf:_([1-9][0-9]*)", p)
                if m:
                    maxn = max(maxn, int(m.group(1)))
                    lo.update([(p, "rdf:type", "rdf:Property"), (p, "rdfs:domain", "rdfs:Resource"),
                               (p, "rdfs:range", "rdfs:Resource"), (p, "rdf:type", "rdfs:ContainerMembershipProperty")])
            for i in range(1, min(maxn, 50)):
                q = "rdf:_%d" % i
                hi.update([(q, "rdf:type", "rdf:Property"), (q, "rdfs:domain", "rdfs:Resource"),
                           (q, "rdfs:range", "rdfs:Resource"), (q, "rdf:type", "rdfs:ContainerMembershipProperty")])
        if owl:
            lo.update(OWL_AX)
        if ext:
            lo.update(EXT_AX)
    if daxioms:
        if rdfs:
            lo.update(RDFS_DAX)
            for l in olits:
                dt = lit_parts(l)[1]
                if dt:
                    lo.add((l, "rdf:type", dt))
        if owl:
            lo.update(OWL_DAX)
    lo.update(extra_base)
    start = set(lo)
    # hidden literal rule (RDFS)
    if rdfs:
        for a in olits:
            for b in olits:
                if a == b:
                    continue
                s_, p_ = sure_same(a, b) and improved, py_same(a, b)
                # same datatype and same value is beyond doubt under either conversion table
                if not improved and sure_same(a, b) and lit_parts(a)[1] == lit_parts(b)[1]:
                    s_ = True
                if s_ or p_:
                    for t in start:
                        if t[2] == a:
                            (lo if s_ else hi).add((t[0], t[1], b))
    errlo, errhi = set(), set()
    if comb:
        lo.update(BINDING)
    hirules, errmay = [], []
    if owl:
        lo.add(("owl:Thing", "rdf:type", "owl:Class"))
        lo.add(("owl:Nothing", "rdf:type", "owl:Class"))
        for a in ANN:
            lo.add((a, "rdf:type", "owl:AnnotationProperty"))
        for d in rl_dt:
            lo.add((d, "rdf:type", "rdfs:Datatype"))
        impl = {l: lit_parts(l)[1] for l in olits if lit_parts(l)[1] in rlset}
        used = set(impl.values())
        dts = {}
        for l, d in impl.items():
            lo.add((l, "rdf:type", d))
            dts.setdefault(l, set()).add(d)
            v = lit_value(l)
            if d in fdts:
                h = fdts[d].holds(l)
                if h is False:
                    errlo.add(("dt-not-type", l, d))
                elif h is None:
                    errhi.add(("dt-not-type", l, d))
            elif d in dtypes:
                if not dtypes[d][1](lit_parts(l)[0]):
                    errlo.add(("dt-not-type", l, d))
            elif d == "owl:rational":
                ok = rational(lit_parts(l)[0])
                if ok is not True:
                    (errhi if ok is None else errlo).add(("dt-not-type", l, d))
            elif v is not None and v[0] == "bad":
                errlo.add(("dt-not-type", l, d))
            elif v is None:
                errhi.add(("dt-not-type", l, d))
        for s, p, o in start:
            if p == "rdf:type" and o in rlset:
                used.add(o)
                if s not in impl:  # a literal's own datatype is what counts in the one-time rules
                    dts.setdefault(s, set()).add(o)
        for s, ds in dts.items():
            for d in ds:
                for sup in subs.get(d, ()):
                    lo.add((s, "rdf:type", sup))
                    used.add(sup)
        for t in DISJ:
            if t[0] in used and t[2] in used:
                lo.add(t)
        # upper bound: subsumption applied everywhere
        for d, sups in subs.items():
            hirules.append(Rule("dt-sub*", [("?x", TYPE, tid(d))], [], [("?x", TYPE, tid(x)) for x in sups]))
        for f in facets:
            sat = [l for l in olits if f.holds(l) is True]
            may = [l for l in olits if f.holds(l) is None]
            for l in sat:
                if (l, "rdf:type", f.base) in lo:
                    lo.add((l, "rdf:type", f.dt))
            for l in sat + may:
                hirules.append(Rule("facet*", [(tid(l), TYPE, tid(f.base))], [], [(tid(l), TYPE, tid(f.dt))]))
    rules, errs = [], []
    if owl:
        rules += static("owl", OWL_RULES)
        r, e = _list_rules(lists)
        rules += r
        errs += static("owl_err", OWL_ERRORS) + [x for x in e if x.name[-1] != "*"]
        maybe = [x for x in e if x.name[-1] == "*"]
        r, e = _card_rules(sorted(set(o for _, p, o in triples if is_lit(o))))
        rules += r
        errs += e
        hirules += static("owl_hi", OWL_RULES_HI)
        if fdts or veto:
            # cls-avf towards a restricted datatype types a literal only if its value satisfies the facets
            bad, may = set(), set()
            for d, f in fdts.items():
                for l in olits:
                    h = f.holds(l)
                    if h is False:
                        bad.add((tid(d), tid(l)))
                    elif h is None:
                        may.add((tid(d), tid(l)))
            base = [x for x in rules if x.name != "cls-avf"]
            avf = [x for x in rules if x.name == "cls-avf"][0]
            excl = bad | may
            vetoed = {tid(x) for x in veto}
            base.append(Rule("cls-avf", avf.body, [], avf.heads, guardfn=(("?y", "?v"), lambda y, v: (y, v) not in excl and y not in vetoed)))
            hirules.append(Rule("cls-avf*", avf.body, [], avf.heads, guardfn=(("?y", "?v"), lambda y, v: (y, v) in may)))
            rules = base
            errs = errs + [Rule("avf-facet", avf.body, [], None, ["?p", "?y", "?v"],
                                guardfn=(("?y", "?v"), lambda y, v: (y, v) in bad or y in vetoed))]
            errmay = [Rule("avf-facet", avf.body, [], None, ["?p", "?y", "?v"],
                           guardfn=(("?y", "?v"), lambda y, v: (y, v) in may))]
        else:
            errmay = []
        errmay = errmay + maybe
    if rdfs:
        rules += static("rdfs", RDFS_RULES)
    if ext:
        rules += static("ext", EXT_RULES)
    if extra_rules:
        rules += parse(extra_rules)
    if extra_errors:
        errs += parse(extra_errors)

    e = Engine()
    e.limit = limit
    e.add_rules(rules)
    e.run([(tid(s), tid(p), tid(o)) for s, p, o in lo])
    cl = Closure()
    cl.fired = dict(e.fired)
    cl.lo_ids = set(e.facts)
    if want_errors and (owl or extra_errors):
        errlo |= e.errors(errs)
    e.extend(hirules, [(tid(s), tid(p), tid(o)) for s, p, o in hi if not is_lit(p)])
    if want_errors and (owl or extra_errors):
        errhi |= e.errors(errs) | e.errors(errmay)
    errhi |= errlo
    cl.exact = len(e.facts) == len(cl.lo_ids)
    S = _STR
    cl.lo = {(S[a], S[b], S[c]) for a, b, c in cl.lo_ids}
    cl.hi = cl.lo if cl.exact else {(S[a], S[b], S[c]) for a, b, c in e.facts}
    cl.errlo, cl.errhi = errlo, errhi
    sa = tid("owl:sameAs")
    cl.same = {S[k]: {S[x] for x in v} for k, v in e.pso.get(sa, {}).items()} if owl else {}
    # blank-node predicates are removed at the end by the OWL profiles
    if owl:
        cl.lo = {t for t in cl.lo if not is_bn(t[1])}
        cl.hi = {t for t in cl.hi if not is_bn(t[1])}
    cl.lists = lists
    cl.input = triples
    cl.rl_dt = rl_dt
    if profile == "trim":
        cl.full_lo, cl.full_hi = cl.lo, cl.hi
        cl.lo = trim(cl.full_lo, rl_dt, cl.full_lo)
        cl.hi = trim(cl.full_hi, rl_dt, cl.full_hi)
    return cl


_TRIM_FIXED = {
    ("owl:Nothing", "rdf:type", "owl:Class"), ("owl:Nothing", "rdf:type", "rdfs:Class"),
    ("owl:Thing", "rdf:type", "owl:Class"), ("owl:Thing", "rdf:type", "rdfs:Class"),
    ("owl:Thing", "owl:equivalentClass", "rdfs:Resource"), ("rdfs:Resource", "owl:equivalentClass", "owl:Thing"),
    ("owl:Class", "owl:equivalentClass", "rdfs:Class"), ("owl:Class", "rdfs:subClassOf", "rdfs:Class"),
    ("rdfs:Class", "owl:equivalentClass", "owl:Class"), ("rdfs:Class", "rdfs:subClassOf", "owl:Class"),
    ("rdfs:Datatype", "rdfs:subClassOf", "owl:DataRange"), ("rdfs:Datatype", "owl:equivalentClass", "owl:DataRange"),
    ("owl:DataRange", "rdfs:subClassOf", "owl:DatatypeProperty"),
    ("owl:DataRange", "owl:equivalentClass", "owl:DatatypeProperty"),
}


def trim(ts, rl_dt, other):
    """Remove the documented by-products.  'other' decides the non-monotone condition (is the datatype used as a type?)."""
    typed = set(o for s, p, o in other if p == "rdf:type")
    unused = set(d for d in rl_dt if d not in typed)
    out = set()
    for t in ts:
        s, p, o = t
        if s == o and p in ("owl:sameAs", "owl:equivalentClass", "rdfs:subClassOf", "rdfs:subPropertyOf"):
            continue
        if p == "rdfs:subClassOf" and (o in ("owl:Thing", "rdfs:Resource") or s == "owl:Nothing"):
            continue
        if p == "rdf:type" and o == "rdfs:Resource":
            continue
        if p == "rdf:type" and s in unused and o in ("rdfs:Datatype", "owl:DataRange"):
            continue
        if p == "owl:disjointWith" and (s in unused or o in unused):
            continue
        if p == "rdf:type" and s in ANN and o == "owl:AnnotationProperty":
            continue
        if t in _TRIM_FIXED:
            continue
        out.add(t)
    return out
