"""Seeded workload generator: RDF graphs assembled from gadgets (one per rule family), with near misses.

Everything is drawn from one random.Random; the result is a list of encoded triples, so a scenario is explicit data.
"""
from . import terms

NNI = "xsd:nonNegativeInteger"

GOOD_LITS = [
    '"5"^^xsd:integer', '"05"^^xsd:integer', '"5.0"^^xsd:decimal', '"5"^^xsd:int', '"5"^^xsd:byte', '"7"^^xsd:long',
    '"7"^^xsd:short', '"0"^^xsd:nonNegativeInteger', '"1"^^xsd:positiveInteger', '"-3"^^xsd:negativeInteger',
    '"-3"^^xsd:nonPositiveInteger', '"200"^^xsd:unsignedByte', '"9"^^xsd:unsignedLong', '"9"^^xsd:unsignedInt',
    '"9"^^xsd:unsignedShort', '"2.50"^^xsd:decimal', '"2.5"^^xsd:decimal', '"3.5"^^xsd:double', '"3.5"^^xsd:float',
    '"true"^^xsd:boolean', '"1"^^xsd:boolean', '"false"^^xsd:boolean', '"abc"^^xsd:string', '"abc"', '"abc"@en', '"abc"@fr',
    '"b c"^^xsd:normalizedString', '"abc"^^xsd:token', '"en"^^xsd:language', '"abc"^^xsd:Name', '"abc"^^xsd:NCName',
    '"abc"^^xsd:NMTOKEN', '"2001-02-03T04:05:06"^^xsd:dateTime', '"2001-02-03"^^xsd:date', '"0a1B"^^xsd:hexBinary',
    '"http://e.org/a"^^xsd:anyURI', '"1"^^xsd:integer', '"1.0"^^xsd:decimal', '"zz"^^:myType', '"10"^^xsd:integer',
]
BAD_LITS = [
    '"abc"^^xsd:integer', '"300"^^xsd:byte', '"-1"^^xsd:nonNegativeInteger', '"0"^^xsd:positiveInteger', '"yes"^^xsd:boolean',
    '"x"^^xsd:decimal', '"1.5"^^xsd:int', '"maybe"^^xsd:dateTime', '"9abc"^^xsd:NCName',
    '"70000"^^xsd:unsignedShort', '"5"^^xsd:negativeInteger', '"4"^^xsd:nonPositiveInteger', '"40000"^^xsd:short',
    '"3000000000"^^xsd:int', '"5000000000"^^xsd:unsignedInt', '"-1"^^xsd:unsignedLong', '"99999999999999999999"^^xsd:long',
    '"256"^^xsd:unsignedByte',
]
_BOUNDS = {"long": (-(2 ** 63), 2 ** 63 - 1), "int": (-(2 ** 31), 2 ** 31 - 1), "short": (-32768, 32767), "byte": (-128, 127),
           "unsignedLong": (0, 2 ** 64 - 1), "unsignedInt": (0, 2 ** 32 - 1), "unsignedShort": (0, 65535), "unsignedByte": (0, 255),
           "nonNegativeInteger": (0, None), "nonPositiveInteger": (None, 0), "positiveInteger": (1, None), "negativeInteger": (None, -1)}
# the edges of every lexical space
EDGE_GOOD = ['"%d"^^xsd:%s' % (b, d) for d, bs in _BOUNDS.items() for b in bs if b is not None] + [
    '"+5"^^xsd:integer', '"-0"^^xsd:integer', '"-0"^^xsd:nonPositiveInteger', '"+0007"^^xsd:unsignedByte', '".5"^^xsd:decimal', '"5."^^xsd:decimal',
    '"-0.0"^^xsd:decimal', '"123456789012345678901234567890"^^xsd:integer', '"0"^^xsd:boolean', '""^^xsd:string', '""', '""^^xsd:token',
    '""^^xsd:normalizedString', '" a "^^xsd:normalizedString', '"-a.1"^^xsd:NMTOKEN', '":a"^^xsd:Name', '"_a"^^xsd:NCName', '"a-1.b"^^xsd:NCName',
    '"en-gb-oed"^^xsd:language', '"x-12345678"^^xsd:language', '""^^xsd:hexBinary', '"fF00"^^xsd:hexBinary', '""^^xsd:base64Binary',
    '"YWJj"^^xsd:base64Binary', '"YQ=="^^xsd:base64Binary', '"+/8="^^xsd:base64Binary', '"INF"^^xsd:double', '"-INF"^^xsd:float',
    '"NaN"^^xsd:double', '"1E5"^^xsd:double', '"-1.5e-3"^^xsd:float', '".5"^^xsd:double', '"0"^^xsd:float', '"-0.0E0"^^xsd:double',
    '"2001-12-31T24:00:00"^^xsd:dateTime', '"2001-02-03T04:05:06.789"^^xsd:dateTime', '"2001-02-03T04:05:06Z"^^xsd:dateTime',
    '"2001-02-03T04:05:06+14:00"^^xsd:dateTime', '"2000-02-29T00:00:00-13:59"^^xsd:dateTimeStamp', '"2001-02-03T04:05:06Z"^^xsd:dateTimeStamp',
    '"0001-01-01"^^xsd:date', '"9999-12-31Z"^^xsd:date', '"23:59:59"^^xsd:time', '"24:00:00"^^xsd:time', '"00:00:00.000+05:30"^^xsd:time',
    '"a@"^^rdf:PlainLiteral', '"a@en"^^rdf:PlainLiteral', '"a\nb@c@en-gb"^^rdf:PlainLiteral', '"@"^^rdf:PlainLiteral', '"abc"^^rdf:XMLLiteral',
    '""^^rdf:XMLLiteral', '"<a/>"^^rdf:XMLLiteral', '"<a>x</a><b/>"^^rdf:XMLLiteral', '"<p>x"^^rdf:HTML']
EDGE_BAD = ['"%d"^^xsd:%s' % (b + k, d) for d, bs in _BOUNDS.items() for b, k in zip(bs, (-1, 1)) if b is not None] + [
    '"%s"^^%s' % (x, d) for x, ds in [
        ("", ["xsd:integer", "xsd:int", "xsd:decimal", "xsd:boolean", "xsd:double", "xsd:float", "xsd:dateTime", "xsd:date", "xsd:Name", "xsd:NCName",
              "xsd:NMTOKEN", "xsd:language", "rdf:PlainLiteral"]),
        ("1_000", ["xsd:integer", "xsd:long", "xsd:unsignedShort", "xsd:positiveInteger", "xsd:decimal", "xsd:double", "xsd:float"]),
        ("\u0663", ["xsd:integer", "xsd:byte", "xsd:nonNegativeInteger", "xsd:decimal", "xsd:double"]),
        ("NaN", ["xsd:decimal", "xsd:integer"]), ("INF", ["xsd:decimal", "xsd:int"]), ("Infinity", ["xsd:decimal", "xsd:double", "xsd:float"]),
        ("nan", ["xsd:double", "xsd:float"]), ("1E3", ["xsd:decimal", "xsd:integer"]), ("0x1F", ["xsd:integer", "xsd:double"]), ("--5", ["xsd:integer", "xsd:decimal"]),
        (".", ["xsd:decimal", "xsd:double"]), ("5.0", ["xsd:integer", "xsd:long", "xsd:unsignedByte"]), ("TRUE", ["xsd:boolean"]), ("False", ["xsd:boolean"]),
        ("2", ["xsd:boolean"]), ("-a", ["xsd:Name", "xsd:NCName", "xsd:language"]), ("a b", ["xsd:Name", "xsd:NCName", "xsd:NMTOKEN", "xsd:language"]),
        ("a:b c", ["xsd:Name"]), ("1a", ["xsd:Name", "xsd:NCName"]), ("abcdefghi", ["xsd:language"]), ("en-", ["xsd:language"]), (" a", ["xsd:token"]),
        ("a  b", ["xsd:token"]), ("a\tb", ["xsd:token", "xsd:normalizedString"]), ("a\n", ["xsd:normalizedString", "xsd:token"]),
        ("abc", ["xsd:hexBinary", "xsd:base64Binary", "rdf:PlainLiteral", "xsd:dateTime"]), ("0g", ["xsd:hexBinary"]), ("a===", ["xsd:base64Binary"]),
        ("a-b=", ["xsd:base64Binary"]), ("2001-1-1", ["xsd:date"]), ("2001-02-29", ["xsd:date"]), ("2001-13-01", ["xsd:date"]),
        ("2001-02-03", ["xsd:dateTime", "xsd:time", "xsd:dateTimeStamp"]), ("2001-02-03T04:05:06", ["xsd:dateTimeStamp", "xsd:date"]),
        ("2001-02-03T4:05:06", ["xsd:dateTime"]), ("2001-02-03T04:05", ["xsd:dateTime"]), ("2001-02-30T04:05:06", ["xsd:dateTime"]),
        ("2001-02-03T04:05:06+15:00", ["xsd:dateTime", "xsd:dateTimeStamp"]), ("2001-02-03T24:00:01", ["xsd:dateTime"]),
        ("2001-02-03T04:05:60", ["xsd:dateTime"]), ("2001-02-03T04:05:06.", ["xsd:dateTime"]), ("25:00:00", ["xsd:time"]), ("01:02", ["xsd:time"]),
        ("a@1-", ["rdf:PlainLiteral"]), ("a@toolonglanguage", ["rdf:PlainLiteral"]), ("<a", ["rdf:XMLLiteral"]), ("</a>", ["rdf:XMLLiteral"]),
        ("<a></b>", ["rdf:XMLLiteral"])] for d in ds]
# (RDFLib itself normalises white space in some of the string types)
EDGE_GOOD, EDGE_BAD = ([x for x in pool if not x.endswith(("token", "normalizedString")) or terms.enc(terms.dec(x)) == x]
                       for pool in (EDGE_GOOD, EDGE_BAD))
NUM_LITS = [x for x in GOOD_LITS if x.endswith(("integer", "decimal", ":int", "byte", "long", "short", "Integer"))]
DTS = ["xsd:integer", "xsd:decimal", "xsd:int", "xsd:long", "xsd:short", "xsd:byte", "xsd:nonNegativeInteger",
       "xsd:positiveInteger", "xsd:nonPositiveInteger", "xsd:negativeInteger", "xsd:unsignedLong", "xsd:unsignedInt",
       "xsd:unsignedShort", "xsd:unsignedByte", "xsd:string", "xsd:normalizedString", "xsd:token", "xsd:language", "xsd:Name",
       "xsd:NCName", "xsd:NMTOKEN", "xsd:boolean", "xsd:float", "xsd:double", "xsd:dateTime", "xsd:dateTimeStamp",
       "xsd:date", "xsd:time", "xsd:hexBinary", "xsd:base64Binary", "xsd:anyURI", "rdf:XMLLiteral", "rdf:PlainLiteral",
       "rdf:langString", "rdfs:Literal"]
SC, SP, EC, EP, TY, SA, DF = ("rdfs:subClassOf", "rdfs:subPropertyOf", "owl:equivalentClass", "owl:equivalentProperty",
                              "rdf:type", "owl:sameAs", "owl:differentFrom")


class G:
    def __init__(self, rng, lits=True, bnodes=True, bad=0.08, meta=False, small=False):
        self.r = rng
        self.t = []
        self.nb = 0
        self.lits = lits
        self.bnodes = bnodes
        self.bad = bad
        k = 2 if small else rng.choice([2, 3, 4])
        self.classes = [":C%d" % i for i in range(k + 1)]
        self.props = [":p%d" % i for i in range(k)]
        self.inds = [":a%d" % i for i in range(k + 1)]
        if bnodes:
            self.inds += ["_:b0"]
        self.uses = []

    def add(self, s, p, o):
        t = (s, p, o)
        if t not in self.t:
            self.t.append(t)

    def C(self):
        return self.r.choice(self.classes)

    def P(self):
        return self.r.choice(self.props)

    def I(self):
        return self.r.choice(self.inds)

    def two(self, pool):
        return self.r.sample(pool, 2) if len(pool) > 1 else [pool[0], pool[0]]

    def bn(self, pre="n"):
        self.nb += 1
        return "_:%s%d" % (pre, self.nb)

    def node(self, pre):
        """A structural node (restriction, axiom): IRI or blank."""
        self.nb += 1
        return ("_:%s%d" if self.bnodes and self.r.random() < 0.6 else ":%s%d") % (pre, self.nb)

    def L(self):
        if self.r.random() < self.bad:
            return self.r.choice(BAD_LITS if self.r.random() < 0.5 else EDGE_BAD)
        return self.r.choice(GOOD_LITS if self.r.random() < 0.85 else EDGE_GOOD)

    def O(self, plit=0.25):
        if self.lits and self.r.random() < plit:
            return self.L()
        return self.I()

    def lst(self, els):
        if not els:
            return "rdf:nil"
        head = prev = self.node("l")
        for i, e in enumerate(els):
            self.add(prev, "rdf:first", e)
            if i == len(els) - 1:
                self.add(prev, "rdf:rest", "rdf:nil")
            else:
                n = self.node("l")
                self.add(prev, "rdf:rest", n)
                prev = n
        return head

    def chance(self, p):
        return self.r.random() < p

    def cls_decl(self, c):
        if self.chance(0.3):
            self.add(c, TY, "owl:Class")

    def fact(self, p=None):
        self.add(self.I(), p or self.P(), self.O())


def g_subclass(g):
    n = g.r.choice([1, 2, 3])
    cs = [g.C() for _ in range(n + 1)]
    for a, b in zip(cs, cs[1:]):
        g.add(a, SC, b)
    g.add(g.I(), TY, cs[0])


def g_eqclass(g):
    a, b = g.two(g.classes)
    g.add(a, EC, b)
    g.add(g.I(), TY, g.r.choice([a, b]))


def g_eqclass2(g):
    a, b = g.two(g.classes)
    g.add(a, SC, b)
    g.add(b, SC, a)


def g_domrange(g):
    p = g.P()
    if g.chance(0.7):
        g.add(p, "rdfs:domain", g.C())
    if g.chance(0.7):
        g.add(p, "rdfs:range", g.C() if g.chance(0.8) else g.r.choice(DTS))
    g.fact(p)


def g_subprop(g):
    n = g.r.choice([1, 2, 3])
    ps = [g.P() for _ in range(n + 1)]
    for a, b in zip(ps, ps[1:]):
        g.add(a, SP, b)
    g.fact(ps[0])


def g_eqprop(g):
    a, b = g.two(g.props)
    g.add(a, EP, b)
    g.fact(g.r.choice([a, b]))


def g_inverse(g):
    a, b = g.P(), g.P()
    g.add(a, "owl:inverseOf", b)
    g.add(g.I(), g.r.choice([a, b]), g.I())


def g_propchar(g):
    p = g.P()
    for c in g.r.sample(["owl:SymmetricProperty", "owl:TransitiveProperty", "owl:FunctionalProperty",
                         "owl:InverseFunctionalProperty"], g.r.choice([1, 1, 2])):
        g.add(p, TY, c)
    x = g.I()
    y = g.I()
    g.add(x, p, y)
    g.add(g.r.choice([x, y]), p, g.I())
    if g.chance(0.5):
        g.add(g.I(), p, y)


def g_functional(g):
    p = g.P()
    g.add(p, TY, g.r.choice(["owl:FunctionalProperty", "owl:InverseFunctionalProperty"]))
    x, y = g.two(g.inds)
    if g.chance(0.5):
        z = g.O()
        g.add(x, p, z)
        g.add(y, p, z)
    else:
        if g.lits and g.chance(0.4):
            x, y = g.L(), g.O(0.7)
        z = g.I()
        g.add(z, p, x)
        g.add(z, p, y)


def g_errprop(g):
    p = g.P()
    k = g.r.choice(["irp", "asy"])
    if k == "irp":
        g.add(p, TY, "owl:IrreflexiveProperty")
        x = g.I()
        g.add(x, p, x if g.chance(0.6) else g.I())
    else:
        g.add(p, TY, "owl:AsymmetricProperty")
        x, y = g.two(g.inds)
        if g.chance(0.2):
            y = x
        g.add(x, p, y)
        if g.chance(0.6):
            g.add(y, p, x)


def g_transitive(g):
    p = g.P()
    g.add(p, TY, "owl:TransitiveProperty")
    xs = [g.I() for _ in range(g.r.choice([3, 4]))]
    for a, b in zip(xs, xs[1:]):
        g.add(a, p, b)


def g_chain(g):
    n = g.r.choice([1, 2, 2, 3, 3, 4])
    ps = [g.P() for _ in range(n)]
    g.add(g.P() if g.chance(0.7) else ":q", "owl:propertyChainAxiom", g.lst(ps))
    xs = [g.I() for _ in range(n + 1)]
    skip = g.r.randrange(n) if g.chance(0.15) else -1
    for i, p in enumerate(ps):
        if i != skip:
            g.add(xs[i], p, xs[i + 1])
    if g.chance(0.3):
        g.add(xs[0], ps[0], g.I())


def g_key(g):
    n = g.r.choice([1, 2, 2, 3])
    c = g.C()
    ks = [g.P() for _ in range(n)] if g.chance(0.3) else (g.props + [":k1", ":k2", ":k3"])[-n:]
    g.add(c, "owl:hasKey", g.lst(ks))
    x, y = g.two(g.inds)
    g.add(x, TY, c)
    g.add(y, TY, c)
    miss = g.r.randrange(n) if g.chance(0.4) else -1
    how = g.r.choice(["drop", "differ"])
    for i, k in enumerate(ks):
        v = g.O(0.5)
        g.add(x, k, v)
        if i == miss:
            if how == "differ":
                g.add(y, k, g.O(0.5))
        else:
            g.add(y, k, v)
    if g.chance(0.3):
        g.add(x, ks[-1], g.O(0.5))
    if g.chance(0.4):  # several values of one key, only one of them shared
        k = g.r.choice(ks)
        for i in range(g.r.choice([1, 2, 3])):
            g.add(x, k, ":x%d" % i)
            g.add(y, k, ":y%d" % i)


def g_intersection(g):
    n = g.r.choice([1, 2, 2, 3])
    cs = [g.C() for _ in range(n)]
    c = g.C() if g.chance(0.6) else ":Int"
    g.add(c, "owl:intersectionOf", g.lst(cs))
    x = g.I()
    if g.chance(0.6):
        for k in cs[: n if g.chance(0.7) else n - 1]:
            g.add(x, TY, k)
    else:
        g.add(x, TY, c)


def g_union(g):
    n = g.r.choice([1, 2, 2, 3])
    cs = [g.C() for _ in range(n)]
    c = g.C() if g.chance(0.6) else ":Uni"
    g.add(c, "owl:unionOf", g.lst(cs))
    g.add(g.I(), TY, g.r.choice(cs))


def g_oneof(g):
    n = g.r.choice([1, 2, 3])
    g.add(g.C() if g.chance(0.7) else ":One", "owl:oneOf", g.lst([g.I() for _ in range(n)]))


def g_svf(g):
    r, p = g.node("r"), g.P()
    c = g.C() if g.chance(0.7) else "owl:Thing"
    g.add(r, "owl:onProperty", p)
    g.add(r, "owl:someValuesFrom", c)
    y = g.O(0.15)
    g.add(g.I(), p, y)
    if g.chance(0.6) and not terms.is_lit(y):
        g.add(y, TY, c)
    if g.chance(0.4):
        g.add(r, SC, g.C())


def g_avf(g):
    r, p = g.node("r"), g.P()
    g.add(r, "owl:onProperty", p)
    g.add(r, "owl:allValuesFrom", g.C() if g.chance(0.85) else g.r.choice(DTS))
    x = g.I()
    if g.chance(0.7):
        g.add(x, TY, r)
    else:
        c = g.C()
        g.add(c, SC, r)
        g.add(x, TY, c)
    g.add(x, p, g.O())


def g_hv(g):
    r, p = g.node("r"), g.P()
    v = g.O(0.3)
    g.add(r, "owl:onProperty", p)
    g.add(r, "owl:hasValue", v)
    if g.chance(0.5):
        g.add(g.I(), TY, r)
    else:
        g.add(g.I(), p, v if g.chance(0.8) else g.O())
    if g.chance(0.4):
        g.add(r, SC, g.C())


def g_maxcard(g):
    r, p = g.node("r"), g.P()
    n = g.r.choice(["0", "1", "1", "1", "2"])
    g.add(r, "owl:onProperty", p)
    g.add(r, "owl:maxCardinality", '"%s"^^%s' % (n, g.r.choice([NNI, NNI, "xsd:integer", "xsd:int"])))
    x = g.I()
    if g.chance(0.8):
        g.add(x, TY, r)
    g.add(x, p, g.O(0.15))
    if n != "0" or g.chance(0.3):
        g.add(x, p, g.O(0.15))


def g_maxqcard(g):
    r, p = g.node("r"), g.P()
    n = g.r.choice(["0", "1", "1", "1", "2"])
    c = g.C() if g.chance(0.7) else "owl:Thing"
    g.add(r, "owl:onProperty", p)
    g.add(r, "owl:onClass", c)
    g.add(r, "owl:maxQualifiedCardinality", '"%s"^^%s' % (n, NNI))
    x = g.I()
    if g.chance(0.85):
        g.add(x, TY, r)
    ys = [g.I(), g.I()]
    for y in ys:
        g.add(x, p, y)
        if g.chance(0.75) and c != "owl:Thing":
            g.add(y, TY, c)


def g_disjoint(g):
    a, b = g.two(g.classes)
    g.add(a, g.r.choice(["owl:disjointWith", "owl:complementOf"]), b)
    x = g.I()
    g.add(x, TY, a)
    g.add(x if g.chance(0.6) else g.I(), TY, b)


def g_alldisjc(g):
    n = g.r.choice([2, 3, 3, 4])
    cs = (g.classes + [":D1", ":D2"])[:n]
    g.r.shuffle(cs)
    m = g.node("ad")
    g.add(m, TY, "owl:AllDisjointClasses")
    g.add(m, "owl:members", g.lst(cs))
    if g.chance(0.25):
        # a second list
        g.add(m, "owl:members", g.lst([":D3"] + cs[:1]))
        if g.chance(0.5):
            x = g.I()
            g.add(x, TY, ":D3")
            g.add(x, TY, cs[0])
            return
    i, j = sorted(g.r.sample(range(n), 2))
    if g.chance(0.4):
        i, j = n - 2, n - 1
    x = g.I()
    g.add(x, TY, cs[i])
    g.add(x if g.chance(0.7) else g.I(), TY, cs[j])


def g_alldisjp(g):
    n = g.r.choice([2, 3, 3, 4])
    ps = (g.props + [":d1", ":d2", ":d3"])[:n]
    g.r.shuffle(ps)
    m = g.node("ap")
    g.add(m, TY, "owl:AllDisjointProperties")
    g.add(m, "owl:members", g.lst(ps))
    if g.chance(0.25):
        # a second list
        g.add(m, "owl:members", g.lst([":d4"] + ps[:1]))
        if g.chance(0.5):
            x, y = g.I(), g.I()
            g.add(x, ":d4", y)
            g.add(x, ps[0], y)
            return
    i, j = sorted(g.r.sample(range(n), 2))
    if g.chance(0.4):
        i, j = n - 2, n - 1
    x, y = g.I(), g.I()
    g.add(x, ps[i], y)
    g.add(x, ps[j], y if g.chance(0.7) else g.I())


def g_pdw(g):
    a, b = g.two(g.props)
    g.add(a, "owl:propertyDisjointWith", b)
    x, y = g.I(), g.O(0.2)
    g.add(x, a, y)
    g.add(x, b, y if g.chance(0.7) else g.I())


def g_alldiff(g):
    n = g.r.choice([2, 3, 3, 4])
    xs = ([i for i in g.inds if not i.startswith("_")] + [":e1", ":e2"])[:n]
    g.r.shuffle(xs)
    m = g.node("df")
    g.add(m, TY, "owl:AllDifferent")
    k = g.r.choice(["owl:members", "owl:distinctMembers"])
    g.add(m, k, g.lst(xs))
    if g.chance(0.45):
        # a second list, perhaps under the other property
        ys = [":e3"] + g.r.sample(xs, 1)
        g.r.shuffle(ys)
        g.add(m, g.r.choice(["owl:members", "owl:distinctMembers"]), g.lst(ys))
        if g.chance(0.6):
            g.add(ys[0], SA, ys[1])
            return
    i, j = sorted(g.r.sample(range(n), 2))
    if g.chance(0.4):
        i, j = n - 2, n - 1
    if g.chance(0.65):
        g.add(*((xs[i], SA, xs[j]) if g.chance(0.5) else (xs[j], SA, xs[i])))


def g_diff(g):
    a, b = g.two(g.inds)
    g.add(a, DF, b)
    if g.chance(0.65):
        if g.chance(0.5):
            a, b = b, a
        g.add(a, SA, b)


def g_same(g):
    n = g.r.choice([1, 1, 2])
    xs = [g.I() for _ in range(n + 1)]
    for a, b in zip(xs, xs[1:]):
        g.add(a, SA, b)
    g.fact()


def g_sameschema(g):
    pool = g.r.choice([g.classes, g.props])
    a, b = g.two(pool)
    g.add(a, SA, b)
    if pool is g.props:
        g.fact(a)
    else:
        g.add(g.I(), TY, b)


def g_npa(g):
    n, p = g.node("np"), g.P()
    x, y = g.I(), g.O(0.5)
    g.add(n, TY, "owl:NegativePropertyAssertion")
    g.add(n, "owl:sourceIndividual", x)
    g.add(n, "owl:assertionProperty", p)
    g.add(n, "owl:targetValue" if terms.is_lit(y) else "owl:targetIndividual", y)
    while g.chance(0.45):
        z = g.O(0.9 if terms.is_lit(y) else 0.1)
        g.add(n, *g.r.choice([("owl:targetValue" if terms.is_lit(z) else "owl:targetIndividual", z),
                              ("owl:sourceIndividual", g.I()), ("owl:assertionProperty", g.P())]))
        if g.t[-1][1].startswith("owl:target") and g.chance(0.6):
            y = z
    if g.chance(0.7):
        g.add(x, p, y)


def g_nothing(g):
    if g.chance(0.5):
        g.add(g.I(), TY, "owl:Nothing")
    else:
        c = g.C()
        g.add(c, SC, "owl:Nothing")
        g.add(g.I(), TY, c if g.chance(0.6) else g.C())


def g_decl(g):
    for _ in range(g.r.choice([1, 2])):
        k = g.r.choice(["c", "rc", "op", "dp", "rp", "ap", "dt", "ni"])
        if k == "c":
            g.add(g.C(), TY, "owl:Class")
        elif k == "rc":
            g.add(g.C(), TY, "rdfs:Class")
        elif k == "op":
            g.add(g.P(), TY, "owl:ObjectProperty")
        elif k == "dp":
            g.add(g.P(), TY, "owl:DatatypeProperty")
        elif k == "rp":
            g.add(g.P(), TY, "rdf:Property")
        elif k == "ap":
            g.add(":note", TY, "owl:AnnotationProperty")
            g.add(g.C(), ":note", '"n"')
        elif k == "dt":
            g.add(":myType", TY, "rdfs:Datatype")
        else:
            g.add(g.I(), TY, "owl:NamedIndividual")


def g_scmdom(g):
    p, q = g.two(g.props)
    a, b = g.two(g.classes)
    pr = g.r.choice(["rdfs:domain", "rdfs:range"])
    g.add(p, SP, q)
    g.add(q if g.chance(0.8) else p, pr, a)
    g.add(a, SC, b)


def g_scmrestr(g):
    kind = g.r.choice(["owl:someValuesFrom", "owl:allValuesFrom", "owl:hasValue"])
    c, d = g.node("r"), g.node("r")
    a, b = g.two(g.classes)
    p, q = g.two(g.props)
    if kind == "owl:hasValue":
        i = g.O(0.2)
        g.add(c, kind, i)
        g.add(d, kind, i)
        g.add(c, "owl:onProperty", p)
        g.add(d, "owl:onProperty", q)
        g.add(p, SP, q)
    elif g.chance(0.5):
        g.add(c, kind, a)
        g.add(d, kind, b)
        g.add(c, "owl:onProperty", p)
        g.add(d, "owl:onProperty", p if g.chance(0.85) else q)
        g.add(a, SC, b)
    else:
        g.add(c, kind, a)
        g.add(d, kind, a)
        g.add(c, "owl:onProperty", p)
        g.add(d, "owl:onProperty", q)
        g.add(p, SP, q)
    if g.chance(0.3):
        g.add(g.I(), TY, g.r.choice([c, d]))


def g_lits(g):
    for _ in range(g.r.choice([1, 2, 3])):
        g.add(g.I(), g.P(), g.L() if g.r.random() < 0.7 else g.r.choice(EDGE_GOOD if g.r.random() < 0.6 else EDGE_BAD))


def g_eqlits(g):
    grp = g.r.choice([['"5"^^xsd:integer', '"05"^^xsd:integer', '"5.0"^^xsd:decimal', '"5"^^xsd:int', '"5"^^xsd:byte'],
                      ['"2.50"^^xsd:decimal', '"2.5"^^xsd:decimal'], ['"true"^^xsd:boolean', '"1"^^xsd:boolean'],
                      ['"1"^^xsd:integer', '"1.0"^^xsd:decimal', '"1"^^xsd:boolean', '"1"^^xsd:positiveInteger'],
                      ['"abc"', '"abc"^^xsd:string', '"abc"@en', '"abc"@fr', '"abc"^^xsd:token']])
    a, b = g.r.sample(grp, 2)
    g.add(g.I(), g.P(), a)
    g.add(g.I(), g.P(), b)


def g_dtrange(g):
    p = g.P()
    g.add(p, "rdfs:range", g.r.choice(DTS))
    g.add(g.I(), p, g.L())


def g_dttype(g):
    x = g.I()
    k = g.r.random()
    if k < 0.5:
        g.add(x, TY, g.r.choice(DTS))
    elif k < 0.8:
        g.add(x, SA, g.L())
    else:
        y = g.I()
        g.add(x, TY, g.r.choice(DTS))
        g.add(*((x, SA, y) if g.chance(0.5) else (y, SA, x)))


def g_container(g):
    x = g.bn("bag")
    if g.chance(0.5):
        g.add(x, TY, g.r.choice(["rdf:Bag", "rdf:Seq", "rdf:Alt"]))
    for i in sorted(g.r.sample([1, 2, 3, 4, 9, 10, 12, 99, 100, 101, 1234, 100000], g.r.choice([1, 2, 3]))):
        g.add(x, "rdf:_%d" % i, g.O())


def g_annot(g):
    g.add(g.I(), g.r.choice(["rdfs:label", "rdfs:comment", "rdfs:seeAlso", "rdfs:isDefinedBy", "owl:versionInfo",
                             "owl:deprecated"]), g.O(0.7))


def g_facts(g):
    for _ in range(g.r.choice([1, 2, 3])):
        g.fact()
    if g.chance(0.5):
        g.add(g.I(), TY, g.C())


def g_multi(g):
    """Restrictions and negative assertions with several values of each of their parts."""
    if g.chance(0.2):
        n = g.node("np")
        g.add(n, TY, "owl:NegativePropertyAssertion")
        xs, ps, ys = [g.I() for _ in range(2)], [g.P() for _ in range(2)], [g.O(0.3) for _ in range(2)]
        for x, p, y in zip(xs, ps, ys):
            g.add(n, "owl:sourceIndividual", x)
            g.add(n, "owl:assertionProperty", p)
            g.add(n, "owl:targetValue" if terms.is_lit(y) else "owl:targetIndividual", y)
        if g.chance(0.7):
            g.add(g.r.choice(xs), g.r.choice(ps), g.r.choice(ys))
        return
    r = g.node("r")
    ps = [g.P() for _ in range(g.r.choice([2, 2, 3]))]
    for p in ps:
        g.add(r, "owl:onProperty", p)
    kind = g.r.choice(["owl:someValuesFrom", "owl:allValuesFrom", "owl:hasValue", "owl:maxCardinality", "owl:maxQualifiedCardinality"])
    ys = [g.I() for _ in range(2)]
    cs = [g.C() for _ in range(g.r.choice([1, 2]))]
    if "Card" in kind:
        g.add(r, kind, '"%s"^^%s' % (g.r.choice("011"), NNI))
        if kind == "owl:maxQualifiedCardinality":
            for c in cs:
                g.add(r, "owl:onClass", c)
    elif kind == "owl:hasValue":
        for y in ys[:len(cs)]:
            g.add(r, kind, y)
    else:
        for c in cs:
            g.add(r, kind, c)
    x = g.I()
    if g.chance(0.6) or kind == "owl:allValuesFrom":
        g.add(x, TY, r)
    for y in ys:
        g.add(x, g.r.choice(ps), y)
        if g.chance(0.6):
            g.add(y, TY, g.r.choice(cs))


def g_bnpred(g):
    g.add(g.I(), "_:bp", g.I())
    if g.chance(0.6):
        g.add(g.r.choice(["_:bp"]), g.r.choice([SP, EP, "owl:inverseOf"]), g.P())
    if g.chance(0.4):
        g.add(g.P(), SP, "_:bp")


def g_anonprop(g):
    """Anonymous property expressions (mostly inverses): what holds of them only matters for what follows from it."""
    b, p, q = g.bn("ap"), g.P(), g.P()
    g.add(b, "owl:inverseOf", p) if g.chance(0.7) else g.add(p, "owl:inverseOf", b)
    x, y = g.I(), g.I()
    g.add(x, p, y)
    k = g.r.randrange(7)
    if k == 0:
        g.add(q, "owl:propertyChainAxiom", g.lst(g.r.choice([[p, b], [b, p], [b, b], [b]])))
    elif k == 1:
        z = g.node("re")
        g.add(z, "owl:onProperty", b)
        g.add(z, g.r.choice(["owl:someValuesFrom", "owl:allValuesFrom"]), g.C())
        g.add(g.r.choice([x, y]), TY, g.r.choice([z, g.C()]))
        if g.chance(0.5):
            g.add(z, SC, g.C()) if g.chance(0.5) else g.add(g.C(), SC, z)
    elif k == 2:
        z = g.node("re")
        g.add(z, "owl:onProperty", b)
        g.add(z, "owl:hasValue", x)
        g.add(z, SC, g.C())
    elif k == 3:
        g.add(b, TY, g.r.choice(["owl:FunctionalProperty", "owl:InverseFunctionalProperty"]))
        g.add(x, p, g.I())
        g.add(g.I(), p, y)
    elif k == 4:
        g.add(b, g.r.choice(["rdfs:domain", "rdfs:range"]), g.C())
    elif k == 5:
        g.add(b, g.r.choice([SP, EP, "owl:inverseOf"]), q)
    else:
        g.add(b, TY, g.r.choice(["owl:SymmetricProperty", "owl:TransitiveProperty"]))
        g.add(b, SP, q)
        g.add(y, p, g.I())


def g_self(g):
    z, p = g.node("hs"), g.P()
    g.add(z, "owl:hasSelf", '"true"^^xsd:boolean')
    g.add(z, "owl:onProperty", p)
    x = g.I()
    if g.chance(0.5):
        g.add(x, TY, z)
    else:
        g.add(x, p, x if g.chance(0.8) else g.I())
    if g.chance(0.4):
        g.add(z, SC, g.C())


FACET_SETS = [
    ("xsd:integer", [("xsd:minInclusive", '"%d"^^xsd:integer' % k) for k in (0, 5, 7)]),
    ("xsd:integer", [("xsd:maxInclusive", '"%d"^^xsd:integer' % k) for k in (5, 6, 9)]),
    ("xsd:integer", [("xsd:minExclusive", '"%d"^^xsd:integer' % k) for k in (4, 5)]),
    ("xsd:integer", [("xsd:maxExclusive", '"%d"^^xsd:integer' % k) for k in (5, 6, 10)]),
    ("xsd:decimal", [("xsd:minInclusive", '"2.5"^^xsd:decimal'), ("xsd:maxExclusive", '"5.0"^^xsd:decimal'),
                     ("xsd:minExclusive", '"2.5"^^xsd:decimal'), ("xsd:maxInclusive", '"5.0"^^xsd:decimal')]),
    ("xsd:int", [("xsd:minInclusive", '"5"^^xsd:int'), ("xsd:maxExclusive", '"5"^^xsd:int'), ("xsd:maxInclusive", '"7"^^xsd:int')]),
    ("xsd:short", [("xsd:minExclusive", '"5"^^xsd:short'), ("xsd:maxInclusive", '"7"^^xsd:short')]),
    ("xsd:nonNegativeInteger", [("xsd:maxInclusive", '"7"^^xsd:nonNegativeInteger'), ("xsd:minExclusive", '"0"^^xsd:nonNegativeInteger')]),
    ("xsd:string", [("xsd:length", '"3"^^xsd:integer'), ("xsd:minLength", '"2"^^xsd:integer'), ("xsd:minLength", '"4"^^xsd:integer'),
                    ("xsd:maxLength", '"3"^^xsd:integer'), ("xsd:maxLength", '"2"^^xsd:integer'), ("xsd:length", '"4"^^xsd:integer')]),
    ("xsd:string", [("xsd:pattern", '"a.c"^^xsd:string'), ("xsd:pattern", '"[a-z]+"^^xsd:string'), ("xsd:pattern", '"a"^^xsd:string'),
                    ("xsd:pattern", '"[a-z]{2}"')]),
    ("xsd:token", [("xsd:maxLength", '"3"^^xsd:integer'), ("xsd:minLength", '"4"^^xsd:integer'), ("xsd:pattern", '"ab.*"')]),
    ("xsd:NCName", [("xsd:length", '"3"^^xsd:integer'), ("xsd:maxLength", '"2"^^xsd:integer')]),
    ("xsd:Name", [("xsd:pattern", '"a[bc]+"'), ("xsd:length", '"3"^^xsd:integer')]),
    ("xsd:normalizedString", [("xsd:minLength", '"3"^^xsd:integer'), ("xsd:maxLength", '"2"^^xsd:integer')]),
    ("xsd:language", [("xsd:length", '"2"^^xsd:integer'), ("xsd:minLength", '"3"^^xsd:integer')]),
    ("xsd:NMTOKEN", [("xsd:maxLength", '"3"^^xsd:integer'), ("xsd:minLength", '"4"^^xsd:integer')]),
    ("xsd:float", [("xsd:minInclusive", '"3.5"^^xsd:float'), ("xsd:maxExclusive", '"3.5"^^xsd:float')]),
    ("xsd:double", [("xsd:minInclusive", '"3.5"^^xsd:double'), ("xsd:minExclusive", '"3.5"^^xsd:double')]),
]
FACET_LITS = {
    "xsd:integer": ['"%d"^^xsd:integer' % k for k in (0, 4, 5, 6, 7, 10)] + ['"5"^^xsd:int', '"7"^^xsd:long', '"5"^^xsd:byte'],
    "xsd:decimal": ['"2.5"^^xsd:decimal', '"2.50"^^xsd:decimal', '"5.0"^^xsd:decimal', '"4.99"^^xsd:decimal', '"5"^^xsd:integer'],
    "xsd:int": ['"5"^^xsd:int', '"4"^^xsd:int', '"7"^^xsd:short', '"8"^^xsd:byte'],
    "xsd:short": ['"5"^^xsd:short', '"6"^^xsd:short', '"7"^^xsd:byte', '"8"^^xsd:byte'],
    "xsd:nonNegativeInteger": ['"0"^^xsd:nonNegativeInteger', '"7"^^xsd:positiveInteger', '"8"^^xsd:unsignedByte'],
    "xsd:string": ['"abc"^^xsd:string', '"ab"^^xsd:string', '"abcd"^^xsd:string', '"a"^^xsd:string', '"abc"^^xsd:token', '"AbC"^^xsd:string'],
    "xsd:token": ['"abc"^^xsd:token', '"ab"^^xsd:token', '"abcd"^^xsd:token', '"abc"^^xsd:Name', '"en"^^xsd:language'],
    "xsd:NCName": ['"abc"^^xsd:NCName', '"ab"^^xsd:NCName', '"abcd"^^xsd:NCName'],
    "xsd:Name": ['"abc"^^xsd:Name', '"abc"^^xsd:NCName', '"axc"^^xsd:Name', '"abcb"^^xsd:Name'],
    "xsd:normalizedString": ['"b c"^^xsd:normalizedString', '"ab"^^xsd:normalizedString', '"abc"^^xsd:token'],
    "xsd:language": ['"en"^^xsd:language', '"eng"^^xsd:language'],
    "xsd:NMTOKEN": ['"abc"^^xsd:NMTOKEN', '"1abc"^^xsd:NMTOKEN', '"a.b"^^xsd:NMTOKEN'],
    "xsd:float": ['"3.5"^^xsd:float', '"3.25"^^xsd:float', '"4.5"^^xsd:float'],
    "xsd:double": ['"3.5"^^xsd:double', '"3.25"^^xsd:double', '"4.5"^^xsd:double'],
}


def g_facet(g, which=None):
    base, fs = FACET_SETS[which % len(FACET_SETS)] if which is not None else g.r.choice(FACET_SETS)
    dt = ":T%d" % (g.nb + 1) if g.chance(0.85) else "_:T%d" % (g.nb + 1)
    g.nb += 1
    g.add(dt, TY, "rdfs:Datatype")
    g.add(dt, "owl:onDatatype", base)
    pool = list(fs)
    for b2, f2 in FACET_SETS:
        if b2 == base:
            pool += [x for x in f2 if x not in pool]
    sel = g.r.sample(pool, min(len(pool), g.r.choice([1, 1, 2, 3])))
    if len(sel) == 1 and which is not None:
        sel = [g.r.choice(fs)]
    els = []
    for f, v in sel:
        if els and g.chance(0.25):
            g.add(els[-1], f, v)
        else:
            n = g.bn("f")
            g.add(n, f, v)
            els.append(n)
    g.add(dt, "owl:withRestrictions", g.lst(els))
    lits = FACET_LITS[base]
    p = g.P()
    for l in g.r.sample(lits, min(len(lits), g.r.choice([1, 2, 3]))):
        g.add(g.I(), p, l)
    k = g.r.random()
    if k < 0.3:
        r = g.node("r")
        g.add(r, "owl:onProperty", p)
        g.add(r, "owl:allValuesFrom", dt)
        g.add(g.t[-3][0] if not g.t[-3][0].startswith("_:f") else g.I(), TY, r)
    elif k < 0.5:
        lex, d, lang = terms.lit_parts(g.r.choice(lits))
        if d == base and dt[0] == ":":
            g.add(g.I(), p, '"%s"^^%s' % (lex, dt))
    elif k < 0.65:
        r = g.node("r")
        g.add(r, "owl:onProperty", p)
        g.add(r, "owl:someValuesFrom", dt)


RATIONALS = ["1/2", "2/4", "-3/6", "+1/3", "0/7", "007/010", "123456789012345678901234567890/7", "1/1"]
NO_RATIONALS = ["1/0", "1/+2", "1/-2", "a/2", "1/b", "1/2/3", "", "/", "1/", "/2", "0.5/2", "1/2.0", "1//2", "one", "1/2x"]


def g_rational(g):
    g.add(g.I(), g.P(), g.r.choice(NUM_LITS))
    for _ in range(g.r.choice([0, 1, 1, 2])):
        g.add(g.I(), g.P(), '"%s"^^owl:rational' % g.r.choice(NO_RATIONALS if g.chance(g.bad) else RATIONALS))
    if g.chance(0.4):
        g.add(g.P(), "rdfs:range", "owl:rational")


META = ["rdf:type", SC, SP, "rdfs:domain", "rdfs:range", SA, EC, EP, "owl:inverseOf", DF, "owl:disjointWith"]


def g_meta(g):
    """Built-in vocabulary used as ordinary terms."""
    k = g.r.choice(["sp", "sp", "spr", "ep", "inv", "sym", "trans", "dom", "cls", "chain"])
    v = g.r.choice(META)
    p = g.P()
    if k == "sp":
        g.add(p, SP, v)
        a, b = g.C(), g.C()
        g.add(a if v != "rdf:type" else g.I(), p, b)
    elif k == "spr":
        g.add(v, SP, p)
    elif k == "ep":
        g.add(p, EP, v)
        g.add(g.C(), p, g.C())
    elif k == "inv":
        g.add(p, "owl:inverseOf", g.r.choice([SC, "rdf:type", SP]))
        g.add(g.C(), p, g.C())
    elif k == "sym":
        g.add(g.r.choice([SC, SP, DF, "owl:inverseOf", "owl:disjointWith"]), TY, "owl:SymmetricProperty")
    elif k == "trans":
        g.add(g.r.choice([SC, "owl:inverseOf", "rdf:type"]), TY, "owl:TransitiveProperty")
    elif k == "dom":
        g.add(v, g.r.choice(["rdfs:domain", "rdfs:range"]), g.C())
    elif k == "cls":
        g.add(g.C(), SC, g.r.choice(["owl:FunctionalProperty", "owl:SymmetricProperty", "owl:TransitiveProperty", "rdf:Property"]))
        g.add(p, TY, g.t[-1][0])
        g.fact(p)
    else:
        g.add(g.r.choice(["rdf:type", SC, p]), "owl:propertyChainAxiom", g.lst([p, g.r.choice([SC, "rdf:type", p])]))
        g.add(g.I(), p, g.C())


def g_trivial(g):
    """Trivial statements that are asserted nevertheless."""
    for _ in range(g.r.choice([1, 1, 2])):
        k = g.r.choice(["sa", "sc", "sp", "ec", "ep", "th", "no", "re"])
        if k == "sa":
            x = g.r.choice([g.I(), g.C(), g.P(), "_:b0"]) if g.bnodes else g.I()
            g.add(x, SA, x)
        elif k in ("sc", "ec"):
            c = g.r.choice([g.C(), "_:c0"]) if g.bnodes else g.C()
            g.add(c, SC if k == "sc" else EC, c)
            g.add(g.I(), TY, c)
        elif k in ("sp", "ep"):
            x = g.P()
            g.add(x, SP if k == "sp" else EP, x)
            g.fact(x)
        elif k == "th":
            g.add(*g.r.choice([(g.C(), SC, "owl:Thing"), (g.I(), TY, "owl:Thing"), ("owl:Thing", TY, "owl:Class")]))
        elif k == "no":
            g.add(*g.r.choice([("owl:Nothing", SC, g.C()), ("owl:Nothing", TY, "owl:Class")]))
        else:
            g.add(*g.r.choice([(g.I(), TY, "rdfs:Resource"), (g.C(), SC, "rdfs:Resource")]))


def g_deep(g):
    """Long derivations: chains, recursion, a ladder in which every rung needs the one below."""
    k = g.r.choice(["sc", "sp", "tr", "rec", "lad", "lad"])
    n = g.r.choice([4, 5, 6, 8])
    if k == "sc":
        for i in range(n):
            g.add(":S%d" % i, SC, ":S%d" % (i + 1))
        g.add(g.I(), TY, ":S0")
    elif k == "sp":
        for i in range(n):
            g.add(":s%d" % i, SP, ":s%d" % (i + 1))
        g.add(g.I(), ":s0", g.I())
    elif k == "tr":
        p = g.P()
        g.add(p, TY, "owl:TransitiveProperty")
        for i in range(n):
            g.add(":z%d" % i, p, ":z%d" % (i + 1))
    elif k == "rec":
        p = g.P()
        g.add(p, "owl:propertyChainAxiom", g.lst([p, ":step"] if g.chance(0.7) else [":step", p]))
        for i in range(n - 1):
            g.add(":z%d" % i, ":step", ":z%d" % (i + 1))
        g.add(":y", p, ":z0")
        g.add(":z%d" % (n - 1), p, ":y2")
    else:
        ladder(g, n // 2 + 1)


def ladder(g, n):
    """Every rung takes two cycles."""
    g.add(g.I(), TY, ":R0")
    for i in range(n):
        g.add(":R%d" % i, "owl:onProperty", ":q%d" % i)
        g.add(":R%d" % i, "owl:hasValue", ":v")
        g.add(":q%d" % i, "rdfs:domain", ":R%d" % (i + 1))
    g.add(":R%d" % n, SC, g.C())


def g_ladder(g):
    ladder(g, g.r.choice([9, 12, 16, 20]))


# One line per rule of the semantics: the statements that make it fire. ?c-?f classes, ?p-?q properties, ?r ?s restrictions, ?n axiom nodes,
# ?i ?j individuals, ?x-?z anything, [..] lists.
_OWL_BODIES = """
eq-trans ?x owl:sameAs ?y ; ?y owl:sameAs ?z
eq-rep-s ?i owl:sameAs ?j ; ?i ?p ?y
eq-rep-p ?p owl:sameAs ?q ; ?i ?p ?y
eq-rep-o ?i owl:sameAs ?y ; ?j ?p ?y
prp-dom ?p rdfs:domain ?c ; ?i ?p ?y
prp-rng ?p rdfs:range ?c ; ?i ?p ?y
prp-fp ?p rdf:type owl:FunctionalProperty ; ?i ?p ?x ; ?i ?p ?y
prp-ifp ?p rdf:type owl:InverseFunctionalProperty ; ?i ?p ?y ; ?j ?p ?y
prp-symp ?p rdf:type owl:SymmetricProperty ; ?i ?p ?y
prp-trp ?p rdf:type owl:TransitiveProperty ; ?i ?p ?j ; ?j ?p ?y
prp-spo1 ?p rdfs:subPropertyOf ?q ; ?i ?p ?y
prp-spo2 ?q owl:propertyChainAxiom [?p ?w] ; ?i ?p ?j ; ?j ?w ?y
prp-spo2c ?q owl:propertyChainAxiom [?p ?w ?p] ; ?i ?p ?j ; ?j ?w ?k ; ?k ?p ?y
prp-eqp ?p owl:equivalentProperty ?q ; ?i ?p ?y ; ?j ?q ?y
prp-inv ?p owl:inverseOf ?q ; ?i ?p ?x ; ?j ?q ?y
prp-key ?c owl:hasKey [?p] ; ?i rdf:type ?c ; ?j rdf:type ?c ; ?i ?p ?y ; ?j ?p ?y
prp-key2 ?c owl:hasKey [?p ?q] ; ?i rdf:type ?c ; ?j rdf:type ?c ; ?i ?p ?y ; ?j ?p ?y ; ?i ?q ?x ; ?j ?q ?x
prp-key3 ?c owl:hasKey [?p ?q ?w] ; ?i rdf:type ?c ; ?j rdf:type ?c ; ?i ?p ?y ; ?j ?p ?y ; ?i ?q ?x ; ?j ?q ?x ; ?i ?w ?z ; ?j ?w ?z
cls-int1 ?c owl:intersectionOf [?d ?e] ; ?i rdf:type ?d ; ?i rdf:type ?e
cls-int1b ?c owl:intersectionOf [?d ?e ?f] ; ?i rdf:type ?d ; ?i rdf:type ?e ; ?i rdf:type ?f
cls-int2 ?c owl:intersectionOf [?d ?e] ; ?i rdf:type ?c
cls-uni ?c owl:unionOf [?d ?e] ; ?i rdf:type ?e
cls-svf1 ?r owl:someValuesFrom ?c ; ?r owl:onProperty ?p ; ?i ?p ?j ; ?j rdf:type ?c
cls-svf2 ?r owl:someValuesFrom owl:Thing ; ?r owl:onProperty ?p ; ?i ?p ?y
cls-avf ?r owl:allValuesFrom ?c ; ?r owl:onProperty ?p ; ?i rdf:type ?r ; ?i ?p ?y
cls-hv1 ?r owl:hasValue ?y ; ?r owl:onProperty ?p ; ?i rdf:type ?r
cls-hv2 ?r owl:hasValue ?y ; ?r owl:onProperty ?p ; ?i ?p ?y
cls-maxc2 ?r owl:maxCardinality "1"^^xsd:nonNegativeInteger ; ?r owl:onProperty ?p ; ?i rdf:type ?r ; ?i ?p ?x ; ?i ?p ?y
cls-maxqc3 ?r owl:maxQualifiedCardinality "1"^^xsd:nonNegativeInteger ; ?r owl:onProperty ?p ; ?r owl:onClass ?c ; ?i rdf:type ?r ; ?i ?p ?j ; ?j rdf:type ?c ; ?i ?p ?k ; ?k rdf:type ?c
cls-maxqc4 ?r owl:maxQualifiedCardinality "1"^^xsd:nonNegativeInteger ; ?r owl:onProperty ?p ; ?r owl:onClass owl:Thing ; ?i rdf:type ?r ; ?i ?p ?x ; ?i ?p ?y
cls-oo ?c owl:oneOf [?x ?y]
cax-sco ?c rdfs:subClassOf ?d ; ?i rdf:type ?c
cax-eqc ?c owl:equivalentClass ?d ; ?i rdf:type ?c ; ?j rdf:type ?d
scm-sco ?c rdfs:subClassOf ?d ; ?d rdfs:subClassOf ?e
scm-eqc2 ?c rdfs:subClassOf ?d ; ?d rdfs:subClassOf ?c
scm-spo ?p rdfs:subPropertyOf ?q ; ?q rdfs:subPropertyOf ?w
scm-eqp2 ?p rdfs:subPropertyOf ?q ; ?q rdfs:subPropertyOf ?p
scm-dom1 ?p rdfs:domain ?c ; ?c rdfs:subClassOf ?d
scm-dom2 ?p rdfs:domain ?c ; ?q rdfs:subPropertyOf ?p
scm-rng1 ?p rdfs:range ?c ; ?c rdfs:subClassOf ?d
scm-rng2 ?p rdfs:range ?c ; ?q rdfs:subPropertyOf ?p
scm-hv ?r owl:hasValue ?y ; ?r owl:onProperty ?p ; ?s owl:hasValue ?y ; ?s owl:onProperty ?q ; ?p rdfs:subPropertyOf ?q
scm-svf1 ?r owl:someValuesFrom ?c ; ?r owl:onProperty ?p ; ?s owl:someValuesFrom ?d ; ?s owl:onProperty ?p ; ?c rdfs:subClassOf ?d
scm-svf2 ?r owl:someValuesFrom ?c ; ?r owl:onProperty ?p ; ?s owl:someValuesFrom ?c ; ?s owl:onProperty ?q ; ?p rdfs:subPropertyOf ?q
scm-avf1 ?r owl:allValuesFrom ?c ; ?r owl:onProperty ?p ; ?s owl:allValuesFrom ?d ; ?s owl:onProperty ?p ; ?c rdfs:subClassOf ?d
scm-avf2 ?r owl:allValuesFrom ?c ; ?r owl:onProperty ?p ; ?s owl:allValuesFrom ?c ; ?s owl:onProperty ?q ; ?p rdfs:subPropertyOf ?q
scm-int ?c owl:intersectionOf [?d ?e]
scm-uni ?c owl:unionOf [?d ?e]
"""
_ERR_BODIES = """
eq-diff1 ?i owl:sameAs ?j ; ?i owl:differentFrom ?j
eq-diff2 ?n rdf:type owl:AllDifferent ; ?n owl:members [?i ?j ?k] ; ?i owl:sameAs ?k
eq-diff23 ?n rdf:type owl:AllDifferent ; ?n owl:members [?i ?m] ; ?n owl:distinctMembers [?j ?k] ; ?k owl:sameAs ?j
eq-diff32 ?n rdf:type owl:AllDifferent ; ?n owl:distinctMembers [?i ?m] ; ?n owl:members [?j ?k] ; ?k owl:sameAs ?j
eq-diff3 ?n rdf:type owl:AllDifferent ; ?n owl:distinctMembers [?i ?j ?k] ; ?k owl:sameAs ?j
prp-irp ?p rdf:type owl:IrreflexiveProperty ; ?i ?p ?i
prp-asyp ?p rdf:type owl:AsymmetricProperty ; ?i ?p ?j ; ?j ?p ?i
prp-pdw ?p owl:propertyDisjointWith ?q ; ?i ?p ?y ; ?i ?q ?y
prp-adp ?n rdf:type owl:AllDisjointProperties ; ?n owl:members [?p ?q ?w] ; ?i ?q ?y ; ?i ?w ?y
prp-npa1 ?n owl:sourceIndividual ?i ; ?n owl:assertionProperty ?p ; ?n owl:targetIndividual ?j ; ?i ?p ?j
prp-npa2 ?n owl:sourceIndividual ?i ; ?n owl:assertionProperty ?p ; ?n owl:targetValue ?l ; ?i ?p ?l
cls-com ?c owl:complementOf ?d ; ?i rdf:type ?c ; ?i rdf:type ?d
cls-maxc1 ?r owl:maxCardinality "0"^^xsd:nonNegativeInteger ; ?r owl:onProperty ?p ; ?i rdf:type ?r ; ?i ?p ?y
cls-maxqc1 ?r owl:maxQualifiedCardinality "0"^^xsd:nonNegativeInteger ; ?r owl:onProperty ?p ; ?r owl:onClass ?c ; ?i rdf:type ?r ; ?i ?p ?j ; ?j rdf:type ?c
cls-maxqc2 ?r owl:maxQualifiedCardinality "0"^^xsd:nonNegativeInteger ; ?r owl:onProperty ?p ; ?r owl:onClass owl:Thing ; ?i rdf:type ?r ; ?i ?p ?y
cax-dw ?c owl:disjointWith ?d ; ?i rdf:type ?c ; ?i rdf:type ?d
cax-adc ?n rdf:type owl:AllDisjointClasses ; ?n owl:members [?c ?d ?e] ; ?i rdf:type ?d ; ?i rdf:type ?e
"""
_RDFS_BODIES = """
rdfs2 ?p rdfs:domain ?c ; ?i ?p ?y
rdfs3 ?p rdfs:range ?c ; ?i ?p ?y
rdfs5 ?p rdfs:subPropertyOf ?q ; ?q rdfs:subPropertyOf ?w
rdfs7 ?p rdfs:subPropertyOf ?q ; ?i ?p ?y
rdfs9 ?c rdfs:subClassOf ?d ; ?i rdf:type ?c
rdfs10 ?c rdf:type rdfs:Class
rdfs11 ?c rdfs:subClassOf ?d ; ?d rdfs:subClassOf ?e
rdfs12 ?p rdf:type rdfs:ContainerMembershipProperty ; ?i ?p ?y
rdfs13 ?c rdf:type rdfs:Datatype
"""
_EXT_BODIES = """
self1 ?r owl:hasSelf "true"^^xsd:boolean ; ?r owl:onProperty ?p ; ?i rdf:type ?r
self2 ?r owl:hasSelf "true"^^xsd:boolean ; ?r owl:onProperty ?p ; ?i ?p ?i
"""


def _bodies(txt):
    out = []
    for line in txt.strip().splitlines():
        name, rest = line.split(" ", 1)
        atoms = []
        for a in rest.split(" ; "):
            s, p, o = a.split(" ", 2)
            atoms.append((s, p, o[1:-1].split() if o[0] == "[" else o))
        out.append((name, atoms))
    return out


def _rule_gadget(name, atoms):
    names = sorted({x for a in atoms for y in a for x in (y if isinstance(y, list) else [y]) if x[0] == "?"})

    def draw(g, v):
        k = v[1]
        if k in "cdef":
            return g.C() if g.chance(0.8) else ":D%s" % k
        if k in "pqw":
            return g.P() if g.chance(0.8) else ":d%s" % k
        if k in "rsn":
            return g.node(k)
        if k == "l":
            return g.L() if g.lits else g.I()
        if k in "xyz":
            return g.O(0.3)
        return g.I()

    def put(g, env, skip=None):
        for i, (s, p, o) in enumerate(atoms):
            if i == skip:
                continue
            o = g.lst([env[x] for x in o]) if isinstance(o, list) else env.get(o, o)
            if not terms.is_lit(env.get(s, s)):
                g.add(env.get(s, s), env.get(p, p), o)

    def gadget(g):
        env = {v: draw(g, v) for v in names}
        for v in names:  # mostly distinct things
            for _ in range(3):
                if [env[w] for w in names].count(env[v]) > 1 and g.chance(0.8):
                    env[v] = draw(g, v)
        put(g, env, g.r.randrange(len(atoms)) if g.chance(0.08) else None)
        if g.chance(0.6):
            # two values in one place: both complete the match, or only one of them does
            v = g.r.choice(names)
            other = dict(env)
            other[v] = draw(g, v)
            at = [i for i, a in enumerate(atoms) if v in a or any(isinstance(y, list) and v in y for y in a)]
            if other != env:
                put(g, other, g.r.choice(at) if g.chance(0.7) and len(at) > 1 else None)
        for _ in range(g.r.choice([0, 0, 1, 1, 2])):
            # the same with other things in some of the places: more matches, and near misses
            other = dict(env)
            keep = g.r.choice([0.5, 0.75, 0.9])
            for v in names:
                if not g.chance(keep):
                    other[v] = draw(g, v)
            if other != env:
                put(g, other, g.r.randrange(len(atoms)) if g.chance(0.6) else None)
    gadget.__name__ = "g_rule_" + name
    return gadget


OWL_RULES, ERR_RULES, RDFS_RULES, EXT_RULES = (
    [_rule_gadget(n, a) for n, a in _bodies(txt)] for txt in (_OWL_BODIES, _ERR_BODIES, _RDFS_BODIES, _EXT_BODIES))

OWL_GADGETS = [
    g_subclass, g_eqclass, g_eqclass2, g_domrange, g_subprop, g_eqprop, g_inverse, g_propchar, g_functional, g_transitive, g_chain,
    g_key, g_intersection, g_union, g_oneof, g_svf, g_avf, g_hv, g_maxcard, g_maxqcard, g_same, g_sameschema, g_decl, g_scmdom,
    g_scmrestr, g_lits, g_eqlits, g_dtrange, g_dttype, g_annot, g_facts, g_container, g_trivial, g_deep, g_multi, g_anonprop,
]
ERR_GADGETS = [g_errprop, g_disjoint, g_alldisjc, g_alldisjp, g_pdw, g_alldiff, g_diff, g_npa, g_nothing]
RDFS_GADGETS = [g_subclass, g_domrange, g_subprop, g_decl, g_lits, g_eqlits, g_dtrange, g_container, g_annot, g_facts, g_eqclass2,
                g_scmdom, g_trivial, g_deep]
EXT_GADGETS = [g_self, g_facet, g_rational]


def listy(t):
    return t[1] in ("rdf:first", "rdf:rest") or t[1] in ("owl:withRestrictions", "owl:onDatatype")


def graph(rng, gadgets, first=None, n=None, meta=0.0, drop=0.12, defer=0.15, many=0.15, **kw):
    g = G(rng, **kw)
    n = n or rng.choice([1, 2, 2, 3, 3, 4, 5])
    if first is not None:
        first(g)
        n -= 1
    for _ in range(max(0, n)):
        rng.choice(gadgets)(g)
    if rng.random() < meta:
        g_meta(g)
    t = g.t
    if rng.random() < 0.1:
        t = merged(rng, t)
    if rng.random() < many:
        t = thick(rng, t)
    if rng.random() < 0.35:
        t = [x for x in t if listy(x) or rng.random() >= drop]
    if rng.random() < defer:
        t = [tuple(x) for x in late(rng, t)]
    t = [[terms.enc(terms.dec(e)) for e in x] for x in dict.fromkeys(t)]  # the lexical forms rdflib really holds
    rng.shuffle(t)
    return t


THICK = ("owl:onProperty", "owl:hasValue", "owl:someValuesFrom", "owl:allValuesFrom", "owl:maxCardinality", "owl:maxQualifiedCardinality",
         "owl:onClass", "owl:members", "owl:distinctMembers", "owl:intersectionOf", "owl:unionOf", "owl:oneOf", "owl:hasKey",
         "owl:propertyChainAxiom", "owl:sourceIndividual", "owl:assertionProperty", "owl:targetIndividual", "owl:targetValue", "owl:inverseOf",
         SC, SP, EC, EP, "rdfs:domain", "rdfs:range", "owl:complementOf", "owl:disjointWith", "owl:propertyDisjointWith")


def merged(rng, ts):
    """Two of the nodes that carry the schema become one."""
    cells = {t[0] for t in ts if t[1] in ("rdf:first", "rdf:rest")} | {t[2] for t in ts if t[1] == "rdf:rest"}
    nodes = sorted({t[0] for t in ts if t[1].startswith("owl:") and t[0] not in cells and t[0][:1] in ":_"})
    if len(nodes) < 2:
        return ts
    a, b = rng.sample(nodes, 2)
    return [tuple(a if e == b else e for e in t) for t in ts]


def thick(rng, ts):
    """A second value (or a second subject) for one or two of the statements that make up the schema."""
    pick = [t for t in ts if t[1] in THICK]
    out = list(ts)
    for s, p, o in rng.sample(pick, min(len(pick), rng.choice([1, 2]))):
        same = [t for t in ts if t[1] == p and t[2] != o]
        if rng.random() < 0.7 and same:
            out.append((s, p, rng.choice(same)[2]))
        elif o[0] == ":" and o[1:2] in ("C", "p", "a"):
            out.append((s, p, o[:2] + str(rng.randrange(3))))
        elif s[0] == ":" and s[1:2] in ("C", "p", "a"):
            out.append((s[:2] + str(rng.randrange(3)), p, o))
    return out


def swapped(rng, ts):
    """The same statements with classes, properties and individuals permuted among themselves."""
    ren = {}
    for pre in (":C", ":p", ":a"):
        names = sorted({e for t in ts for e in t if e.startswith(pre) and e[2:].isdigit()} | {pre + "0", pre + "1"})
        other = names[:]
        rng.shuffle(other)
        ren.update(zip(names, other))
    out = [[ren.get(e, e) for e in t] for t in ts]
    return [list(t) for t in dict.fromkeys(map(tuple, out))]


def retuned(rng, ts):
    """The same statements with other literals (facet values, cardinalities, data) of the same datatypes."""
    by = {}
    for l in GOOD_LITS + EDGE_GOOD + [v for _, fs in FACET_SETS for _, v in fs] + [l for ls in FACET_LITS.values() for l in ls]:
        by.setdefault(terms.lit_parts(l)[1:], []).append(l)
    out = []
    for s, p, o in ts:
        if terms.is_lit(o) and rng.random() < 0.6:
            lex, dt, lang = terms.lit_parts(o)
            pool = [v for _, fs in FACET_SETS for f, v in fs if f == p and terms.lit_parts(v)[1] == dt] or by.get((dt, lang), [])
            if p.startswith(("owl:max", "owl:hasSelf")):
                pool = ['"%d"^^%s' % (k, dt) for k in (0, 1, 2)] if "boolean" not in str(dt) else []
            if pool:
                o = terms.enc(terms.dec(rng.choice(pool)))
        out.append((s, p, o))
    return [list(t) for t in dict.fromkeys(out)]


def late(rng, ts, n=None):
    """The same graph with one or two statements derivable only after n further cycles of rules (works under all semantics)."""
    ts = [list(t) for t in ts]
    pick = [i for i, t in enumerate(ts) if not listy(t) and not terms.is_bn(t[1]) and t[2] != "rdf:nil" and not t[1].startswith("owl:on")
            and t[0][0] != '"']
    if not pick:
        return ts
    n = n or rng.choice([1, 1, 2, 3, 4, 6])
    for k in rng.sample(pick, min(len(pick), rng.choice([1, 1, 2]))):
        s, p, o = ts[k]
        late_p = ":late%d" % (k % 3)
        if [late_p, SP, p] not in ts and [late_p, ":t%d" % (n - 1), p] not in ts:
            if n > 1:
                ts.append([late_p, ":t%d" % (n - 1), p])
            else:
                ts.append([late_p, SP, p])
        ts[k] = [s, late_p, o]
    if n > 1:  # :t0, :t1, ... become subproperties of rdfs:subPropertyOf one per cycle
        ts.append([":t0", SP, SP])
        for i in range(1, n):
            ts.append([":t%d" % i, ":t%d" % (i - 1), SP])
    rng.shuffle(ts)
    return [list(t) for t in dict.fromkeys(map(tuple, ts))]


def cap_merge(rng, a, b):
    """a plus a few statements of b (kept well-formed: no list triples)."""
    extra = [t for t in b if not listy(t) and t[1] not in ("rdf:first", "rdf:rest") and t[2] != "rdf:nil"]
    have = {tuple(t) for t in a}
    pick = rng.sample(extra, min(len(extra), 3))
    return a + [t for t in pick if tuple(t) not in have]
