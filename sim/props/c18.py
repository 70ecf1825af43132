"""C18: trimming takes away exactly the documented by-products from the results, and nothing else."""
from .closure import *  # noqa: F401,F403

RUNS = {"quick": 330, "thorough": 9000}
SPEC = {"rule": GRAPH_RULE + "Plus statements that are by-products or differ from one in a single term. The trimming semantics run in every layout, half of "
                             "the runs with one store fault or crash (often in the trimming step itself) followed by a repetition. Non-trivial: something was "
                             "trimmed and something else was derived."}
LAY = ["graph", "graph", "ds", "gdest", "dsdest", "dsdestg", "dsdeststr"]
BY = [
    (":C0", "rdfs:subClassOf", ":C0"), (":C0", "rdfs:subClassOf", "owl:Thing"), (":C0", "rdfs:subClassOf", "rdfs:Resource"),
    ("owl:Nothing", "rdfs:subClassOf", ":C0"), (":a0", "rdf:type", "rdfs:Resource"), (":a0", "owl:sameAs", ":a0"),
    (":p0", "rdfs:subPropertyOf", ":p0"), (":C0", "owl:equivalentClass", ":C0"), ("owl:Thing", "rdf:type", "owl:Class"),
    ("xsd:gYear", "rdf:type", "rdfs:Datatype"), ("xsd:int", "rdf:type", "owl:DataRange"), ("xsd:int", "owl:disjointWith", ":C0"),
    (":C0", "owl:disjointWith", "xsd:token"), ("xsd:boolean", "owl:disjointWith", "xsd:hexBinary"), ("rdfs:label", "rdf:type", "owl:AnnotationProperty"),
    ("owl:Thing", "owl:equivalentClass", "rdfs:Resource"), ("rdfs:Class", "rdfs:subClassOf", "owl:Class"), ("owl:rational", "rdf:type", "rdfs:Datatype"),
]
NEAR = [
    (":C0", "rdfs:subClassOf", ":C1"), (":C0", "rdfs:subClassOf", "rdfs:Class"), (":C0", "rdfs:subClassOf", "owl:Class"),
    ("owl:Thing", "rdfs:subClassOf", ":C0"), (":C0", "rdfs:subClassOf", "owl:Nothing"), ("rdfs:Resource", "rdfs:subClassOf", ":C0"),
    (":a0", "rdf:type", "owl:Thing"), (":a0", ":p0", "rdfs:Resource"), (":a0", "owl:sameAs", ":a1"), (":a0", ":p0", ":a0"),
    (":a0", "owl:differentFrom", ":a1"), (":p0", "rdfs:subPropertyOf", ":p1"), (":p0", "owl:equivalentProperty", ":p0"),
    (":p0", "owl:inverseOf", ":p0"), (":C0", "owl:disjointWith", ":C1"), (":C0", "owl:disjointWith", "xsd:int"), ("_:b0", "rdf:type", "xsd:token"),
    (":a0", "rdf:type", "xsd:int"), (":a0", ":p0", '"5"^^xsd:byte'), (":MyType", "rdf:type", "rdfs:Datatype"), ("xsd:gYear", "rdf:type", "owl:Class"),
    ("rdfs:label", "rdf:type", "owl:DatatypeProperty"), (":note", "rdf:type", "owl:AnnotationProperty"), (":a0", "rdfs:label", '"x"'),
    ("owl:Nothing", "rdf:type", ":C0"), ("owl:Thing", "rdf:type", ":C0"), ("owl:Class", "rdfs:subClassOf", ":C0"), (":C0", "owl:equivalentClass", "owl:Thing"),
    (":p0", "rdfs:range", "xsd:int"), (":p0", "rdfs:domain", "owl:Thing"), (":p0", "rdfs:range", "rdfs:Resource"), (":a0", ":p0", "owl:Thing"),
    ("xsd:int", "rdfs:subClassOf", ":C0"), (":T", "rdfs:subClassOf", "xsd:int"), ("rdfs:Datatype", "rdfs:subClassOf", ":C0"),
]


def gen(rng, idx, tier):
    pool = G.OWL_GADGETS + G.ERR_GADGETS + G.EXT_GADGETS
    scen = make(rng, idx, "trim", pool, 330, bad=0.08, rdfs=(0, 0, 1), ax=(0, 0, 0, 1), dax=(0, 0, 1), n=rng.choice([1, 1, 2, 3]))
    extra = [list(BY[idx % len(BY)])] + [list(rng.choice(BY)) for _ in range(rng.choice([0, 0, 1]))]
    extra += [list(rng.choice(NEAR)) for _ in range(rng.choice([1, 1, 2, 3]))]
    pick = [t for t in extra if t not in scen["triples"] and not (t[0] == "_:b0" and rng.random() < 0.5)]
    while True:
        scen2 = dict(scen, triples=[list(x) for x in dict.fromkeys(map(tuple, scen["triples"] + pick))])
        if not pick or not core.oversized(scen2, 1500):
            break
        pick.pop()  # (everything a class, everything nothing ... makes an enormous answer)
    scen["triples"] = scen2["triples"]
    rng.shuffle(scen["triples"])
    scen["kind"] = LAY[idx % len(LAY)] if rng.random() < 0.5 else rng.choice(LAY)
    if scen["kind"] == "graph":
        scen.pop("place", None)
    elif scen["kind"] == "gdest":
        scen["place"] = [3 if rng.random() < 0.2 else 0 for _ in scen["triples"]]
    else:
        scen["place"] = [rng.choice([0, 0, 1, 2] + ([3] if scen["kind"] != "ds" else [])) for _ in scen["triples"]]
    if rng.random() < 0.5:
        scen["fault"] = [rng.choice(sorted(FAULTS)), round(1 - rng.random() * (0.1 if rng.random() < 0.3 else 1), 4), round(rng.random(), 4)]
        scen["bysite"] = int(rng.random() < 0.5)
    return scen


ALIEN = "http://g/alien"  # lives in the same store, takes no part


def byproduct(t, rl_dt):
    return not model.trim({t}, rl_dt, ())


def judge(w, before, cl, what):
    """Contents of all graphs after a completed expansion with trimming."""
    viol = []
    after = w.by_context()
    target = str(w.target.identifier)
    other = set()
    for c in sorted(set(before) | set(after)):
        if c == target:
            continue
        a, b = before.get(c, set()), after.get(c, set())
        if c != ALIEN:
            other |= b
        if a != b:
            viol.append(("source-changed", "%sgraph %s changed: gone %s, new %s" % (what, c, terms.show(a - b, 3), terms.show(b - a, 3))))
    if cl is None:
        return viol, set(), []
    got = after.get(target, set())
    rest, msgs, bad = core.split_errors(got, before.get(target, ()))
    if bad:
        viol.append(("error-shape", "%serror node without exactly one message: %s" % (what, bad[:2])))
    miss = cl.lo - rest - other
    if miss:
        viol.append(("missing", "%s%d triple(s) of the trimmed closure missing: %s" % (what, len(miss), terms.show(miss, 4))))
    extra = rest - cl.hi
    if extra:
        left = extra & cl.full_hi
        viol.append(("untrimmed" if left else "unsound", "%s%d triple(s) too many: %s" % (what, len(extra), terms.show(left or extra, 4))))
    viol += core.explain_errors(cl, msgs)
    return viol, rest, msgs


def model_for(scen, triples):
    try:
        cl = core.model_of(scen, sorted(triples), limit=60000)
    except (model.Malformed, model.ModelTooBig):
        return None
    return None if core.lists_equated(cl) else cl


def run(scen):
    viol, st = [], {"layout:" + scen["kind"]: 1}
    w = World(scen)
    before = w.by_context()
    fault = scen.get("fault")
    failed = False
    if fault:
        try:
            n, sites = core.census(scen)
        except (Exception, StepBudget) as e:
            return result([crash_viol(e)], w.ctl, st)
        at = core.pick_op(sites, fault[1], fault[2])[0] if scen.get("bysite") else 1 + int(fault[1] * (n - 1))
        w = World(scen)
        w.ctl.fault = {"kind": fault[0], "at": at}
        try:
            w.expand()
        except INJECTED:
            failed = True
        except (Exception, StepBudget) as e:
            return result([crash_viol(e)], w.ctl, st)
        w.ctl.fault = None
        if failed:
            after = w.by_context()
            target = str(w.target.identifier)
            rl = list(model.RL_DT) + ["owl:rational"] + [t[0] for t in scen["triples"] if t[1] == "owl:onDatatype"]
            for c in before:
                lost = {t for t in before[c] - after.get(c, set()) if c != target or not byproduct(t, rl)}
                if lost:
                    viol.append(("lost", "after a fault: asserted statement(s) lost from %s that are no by-products: %s" % (c, terms.show(lost, 4))))
            for c in set(after) - {target}:
                if after[c] - before.get(c, set()):
                    viol.append(("source-changed", "after a fault: %s was written to" % c))
            before = after
            st["repeated_after_fault"] = 1
    have = set().union(*[ts for c, ts in before.items() if c != ALIEN])
    cl = model_for(scen, have)
    if not viol:
        try:
            w.expand()
        except (Exception, StepBudget) as e:
            return result([crash_viol(e)], w.ctl, st)
        v, rest, msgs = judge(w, before, cl, "repeated: " if failed else "")
        viol += v
    else:
        rest, msgs = set(), []
    if cl is None:
        return {"viol": [[c, d[:900]] for c, d in viol], "stats": {"outside_domain": 1}, "digest": "skip", "nontrivial": False}
    trimmed = len(cl.full_lo - cl.lo)
    st["trimmed_triples"] = trimmed
    return result(viol, w.ctl, st, canon=(sorted(rest), sorted(msgs)), sig=digest(sorted(cl.lo)),
                  nontrivial=trimmed > 0 and len(cl.lo - cl.input) > 0,
                  sample={"triples": scen["triples"][:8], "kind": scen["kind"], "fault": fault})


from .c06 import reductions  # noqa: E402,F401
