"""C16: expansion is total: whatever the graph, it finishes, without an exception, and keeps what it was given."""
from .closure import *  # noqa: F401,F403

RUNS = {"quick": 900, "thorough": 30000}
SPEC = {"rule": "Each run draws a hostile graph: rule gadgets whose structural statements are dropped, duplicated, rewired or given literals and "
                "blank nodes in wrong places (broken, branching and cyclic lists, odd cardinalities and facets, ill-typed literals, vocabulary used "
                "as data), under a seeded schedule. Non-trivial: the graph differs from a well-formed one or vocabulary is used as data."}
VOC = ["rdf:type", "rdfs:subClassOf", "rdfs:subPropertyOf", "rdfs:domain", "rdfs:range", "owl:sameAs", "owl:differentFrom", "owl:equivalentClass",
       "owl:equivalentProperty", "owl:inverseOf", "owl:propertyChainAxiom", "owl:hasKey", "owl:intersectionOf", "owl:unionOf", "owl:oneOf",
       "owl:onProperty", "owl:someValuesFrom", "owl:allValuesFrom", "owl:hasValue", "owl:maxCardinality", "owl:maxQualifiedCardinality",
       "owl:onClass", "owl:disjointWith", "owl:members", "owl:distinctMembers", "owl:complementOf", "owl:propertyDisjointWith",
       "owl:sourceIndividual", "owl:targetIndividual", "owl:targetValue", "owl:assertionProperty", "rdf:first", "rdf:rest", "owl:hasSelf",
       "owl:onDatatype", "owl:withRestrictions", "xsd:minInclusive", "xsd:maxExclusive", "xsd:length", "xsd:minLength", "xsd:pattern",
       "rdf:langRange", "rdfs:isDefinedBy", "rdf:_1", "rdf:_0", "rdf:_01", "rdf:_x", "rdf:_7", "rdf:value", "owl:imports", "rdf:_"]
TYPES = ["owl:Class", "owl:TransitiveProperty", "owl:SymmetricProperty", "owl:AsymmetricProperty", "owl:IrreflexiveProperty",
         "owl:FunctionalProperty", "owl:InverseFunctionalProperty", "owl:AllDifferent", "owl:AllDisjointClasses", "owl:AllDisjointProperties",
         "owl:Restriction", "rdfs:Datatype", "owl:Nothing", "owl:Thing", "rdf:List", "rdfs:ContainerMembershipProperty", "rdf:Property",
         "owl:NegativePropertyAssertion", "owl:DatatypeProperty", "owl:ObjectProperty", "rdfs:Class", "xsd:integer", "xsd:string", "owl:rational"]
ODD = ['"1"^^xsd:boolean', '"-1"^^xsd:integer', '"0.5"^^xsd:decimal', '"one"', '"0"^^xsd:nonNegativeInteger', '"1"^^xsd:nonNegativeInteger',
       '"0"^^xsd:double', '"NaN"^^xsd:double', '"x"^^xsd:nonNegativeInteger', '"0"@en', '""', '"("', '"["^^xsd:string', '"*"', '"en-*"', '"*-"',
       '"99999999999999999999"^^xsd:integer', '"x"^^:unknown', '"true"^^xsd:boolean', '"2011-01-01"^^xsd:date', '"1/0"^^owl:rational',
       '"1/3"^^owl:rational', '"<a>"^^rdf:XMLLiteral', '"a@"^^rdf:PlainLiteral', '"\\\\p{L}"']


def hostile(rng):
    from ..gen import GOOD_LITS, BAD_LITS, EDGE_GOOD, EDGE_BAD
    pool = G.OWL_GADGETS + G.ERR_GADGETS + G.RDFS_GADGETS + G.EXT_GADGETS * 5
    ts = G.graph(rng, pool, n=rng.choice([0, 1, 1, 2]), bad=0.3, meta=0.3) if rng.random() < 0.85 else []
    names = sorted({e for t in ts for e in t if not terms.is_lit(e)} | {":a0", ":C0", ":p0", "_:z"})
    nodes = [n for n in names if not n.startswith(("owl:", "rdfs:", "xsd:"))] or [":a0"]

    def anyobj():
        r = rng.random()
        if r < 0.45:
            return rng.choice(nodes)
        if r < 0.6:
            return rng.choice(ODD)
        if r < 0.7:
            return rng.choice(rng.choice([GOOD_LITS, BAD_LITS, EDGE_GOOD, EDGE_BAD]))
        if r < 0.85:
            return rng.choice(TYPES)
        if r < 0.92:
            return "rdf:nil"
        return rng.choice(VOC)

    def anysub():
        return rng.choice(nodes) if rng.random() < 0.85 else rng.choice(VOC + TYPES + ["rdf:nil"])

    for _ in range(rng.randrange(1, 6)):
        k = rng.random()
        if ts and k < 0.2:
            ts.pop(rng.randrange(len(ts)))
        elif ts and k < 0.45:
            i = rng.randrange(len(ts))
            s, p, o = ts[i]
            ts[i] = [s, p, anyobj()]
        elif ts and k < 0.6:
            s, p, o = rng.choice(ts)
            ts.append([s, p, anyobj()])
        elif ts and k < 0.68:
            # close or branch a list
            cells = [t for t in ts if t[1] == "rdf:rest"]
            if cells:
                c = rng.choice(cells)
                heads = [t[0] for t in cells]
                ts.append([c[0], "rdf:rest", rng.choice(heads + ["rdf:nil", '"x"'])])
                if rng.random() < 0.6:
                    ts.remove(c)
        elif k < 0.74:
            c = rng.choice(nodes)
            ts += [[c, "rdf:first", anyobj()], [c, "rdf:rest", c]]
        elif k < 0.8:
            ts.append([anysub(), "_:bp", anyobj()])
        elif k < 0.88:
            ts.append([anysub(), "rdf:type", rng.choice(TYPES)])
        else:
            ts.append([anysub(), rng.choice(VOC), anyobj()])
    ts = [[terms.enc(terms.dec(e)) for e in x] for x in dict.fromkeys(map(tuple, ts))]
    rng.shuffle(ts)
    return ts[:26]


def gen(rng, idx, tier):
    scen = {"profile": rng.choice(["owl", "owl", "rdfs", "comb", "ext", "ext", "trim"]), "ax": int(rng.random() < 0.08), "dax": int(rng.random() < 0.2),
            "rdfs": rng.choice([0, 0, 1]), "improved": rng.choice([1, 1, 1, 0]), "kind": rng.choice(KINDS), "sched": core.random_sched(rng)}
    for _ in range(20):
        scen["triples"] = hostile(rng)
        # metamodelling can make a closure explode; the size of the answer bounds the work, so ask for a bounded answer
        if bounded(scen):
            break
    else:
        scen["triples"] = [[":a0", "rdf:rest", ":a0"]]
    if scen["kind"].startswith("ds"):
        scen["place"] = core.place(rng, scen["triples"])
    return scen


def bounded(scen, cap=420):
    try:
        c = model.closure([tuple(t) for t in scen["triples"]], scen["profile"], bool(scen["ax"]), bool(scen["dax"]), bool(scen["rdfs"]),
                          bool(scen["improved"]), limit=3 * cap, want_errors=False)
    except model.ModelTooBig:
        return False
    except model.Malformed:
        # sized without its lists
        try:
            c = model.closure([tuple(t) for t in scen["triples"] if t[1] not in ("rdf:first", "rdf:rest") and t[1] != "owl:withRestrictions"],
                              scen["profile"], bool(scen["ax"]), bool(scen["dax"]), bool(scen["rdfs"]), bool(scen["improved"]), limit=3 * cap,
                              want_errors=False)
        except (model.ModelTooBig, model.Malformed):
            return False
    return len(c.hi) <= cap + 600 * scen["ax"]


def circular(ts):
    nxt = {}
    for s, p, o in ts:
        if p == "rdf:rest":
            nxt.setdefault(s, set()).add(o)
    for start in nxt:
        seen, todo = set(), list(nxt[start])
        while todo:
            n = todo.pop()
            if n == start:
                return True
            if n not in seen:
                seen.add(n)
                todo += nxt.get(n, ())
    return False


def run(scen):
    viol, st = [], {"profile:" + scen["profile"]: 1, "layout:" + scen["kind"]: 1}
    w = World(scen)
    given = w.all()
    before = len(given)
    try:
        w.expand()
    except (Exception, StepBudget) as e:
        if isinstance(e, ValueError) and "recursive" in str(e) and circular(w.all()):
            # a list that runs into itself is refused by RDFLib, explicitly; what was asserted must still be there
            st["refused_circular_list"] = 1
            lost = {t for t in given - w.all() if not terms.is_bn(t[1])}
            return result([("lost", terms.show(lost, 4))] if lost else [], w.ctl, st, nontrivial=False)
        return result([crash_viol(e)], w.ctl, st)
    got = w.all()
    lost = {t for t in given - got if not terms.is_bn(t[1])}
    if lost and scen["profile"] != "trim":
        viol.append(("lost", "asserted triples lost: %s" % terms.show(lost, 4)))
    litp = {t for t in got if terms.is_lit(t[1])}
    if litp:
        viol.append(("ill-formed", "literal as predicate: %s" % terms.show(litp, 3)))
    rest, msgs, bad = core.split_errors(w.context(w.target), given)
    if bad:
        viol.append(("error-shape", "error node without exactly one message: %s" % bad[:3]))
    names = {e for t in given for e in t}
    if scen["profile"] in ("rdfs", "owl") and not scen["ax"] and not scen["dax"]:
        # nothing is invented: every user-level term of the result was in the input
        new = {e for t in rest for e in t if e.startswith((":", "_:")) and e not in names}
        if new:
            viol.append(("invented", "terms that are not in the input: %s" % sorted(new)[:4]))
    cyc = any(t[1] == "rdf:rest" and t[2] == t[0] for t in scen["triples"])
    st["cyclic_list"] = int(cyc)
    return result(viol, w.ctl, st, canon=(sorted(rest), sorted(msgs)), sig=digest(sorted(rest)), nontrivial=len(got) > before,
                  sample={"triples": scen["triples"][:10], "profile": scen["profile"]})
