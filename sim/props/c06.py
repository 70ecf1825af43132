"""C06: expansion never loses or alters what the user asserted - at any moment, also when it fails half-way."""
from .closure import *  # noqa: F401,F403

RUNS = {"quick": 450, "thorough": 8000}
KEEP = ["graph", "ds", "ds", "dsdest", "dsdestg", "gdest", "dsdeststr"]
PLAIN = ["rdfs:comment", "rdfs:comment", "rdfs:comment", "rdfs:label", "rdfs:label", "rdfs:seeAlso", "rdfs:isDefinedBy", "rdfs:member", "rdf:value", "rdf:subject", "rdf:predicate",
         "rdf:object", "owl:versionInfo", "owl:deprecated", "owl:priorVersion", "owl:imports", "owl:topDataProperty",
         "owl:topObjectProperty", "owl:annotatedSource", "owl:minCardinality", "owl:cardinality", "owl:onDataRange", ":note", ":note"]
SPEC = {"rule": GRAPH_RULE + "Two runs in three inject one store fault or process crash at a call site chosen uniformly. Non-trivial: "
                             "triples were derived or a fault fired."}


def gen(rng, idx, tier):
    profile = ["owl", "rdfs", "comb", "ext"][idx % 4]
    pool = {"owl": G.OWL_GADGETS + G.ERR_GADGETS + [G.g_bnpred, G.g_bnpred, G.g_trivial], "rdfs": G.RDFS_GADGETS + [G.g_bnpred]}.get(
        profile, G.OWL_GADGETS + G.ERR_GADGETS + G.EXT_GADGETS + [G.g_bnpred])
    scen = make(rng, idx // 4, profile, pool, 300, meta=0.1, bad=0.15, rdfs=(0, 1) if profile == "ext" else (0,))
    if rng.random() < 0.3:
        # asserted, although any expansion derives it - about the nodes the graph speaks of, blank nodes included
        nodes = sorted({t[0] for t in scen["triples"]} | {t[2] for t in scen["triples"] if not terms.is_lit(t[2])})
        blank = [x for x in nodes if terms.is_bn(x)]
        for _ in range(rng.choice([1, 2])):
            x = rng.choice(blank if blank and rng.random() < 0.6 else nodes)
            t = [x, rng.choice(["owl:sameAs", "owl:sameAs", "rdfs:subClassOf", "rdfs:subPropertyOf", "owl:equivalentClass"]), x]
            if t not in scen["triples"]:
                scen["triples"].append(t)
    if rng.random() < 0.6:
        # statements that mean little to the rules, but they are the user's
        nodes = sorted({t[0] for t in scen["triples"]} | {t[2] for t in scen["triples"]})
        for _ in range(rng.choice([1, 2, 3, 4])):
            s = rng.choice([x for x in nodes if not terms.is_lit(x)])
            o = rng.choice(nodes) if rng.random() < 0.4 else rng.choice(rng.choice([G.BAD_LITS, G.GOOD_LITS, G.EDGE_BAD, G.EDGE_GOOD]))
            t = [s, rng.choice(PLAIN), terms.enc(terms.dec(o))]
            if t not in scen["triples"]:
                scen["triples"].append(t)
    scen["kind"] = rng.choice(KEEP)
    if scen["kind"].startswith("ds") or scen["kind"] == "gdest":
        dst = [] if scen["kind"] == "ds" else [3]
        scen["place"] = [rng.choice(([0, 0, 1, 2] if scen["kind"] != "gdest" else [0, 0, 0]) + dst) for _ in scen["triples"]]
    if rng.random() < 0.66:
        scen["fault"] = [rng.choice(sorted(FAULTS)), round(rng.random(), 4), round(rng.random(), 4)]
    return scen


def excused(scen, t, in_target):
    """Documented: the OWL profiles take statements with a blank node as predicate out of what they process (a separate
    source is never touched)."""
    return scen["profile"] != "rdfs" and terms.is_bn(t[1]) and (in_target or scen["kind"] in ("graph", "ds"))


def run(scen):
    viol, st = [], {"profile:" + scen["profile"]: 1, "layout:" + scen["kind"]: 1}
    w = World(scen)
    before = w.by_context()
    fault = scen.get("fault")
    if fault:
        try:
            n, sites = core.census(scen)
        except (Exception, StepBudget) as e:
            return result([crash_viol(e)], w.ctl, st)
        at, site = core.pick_op(sites, fault[1], fault[2])
        w = World(scen)
        w.ctl.fault = {"kind": fault[0], "at": at}
        st["fault_sites"] = 1
    w.ctl.writes = []
    failed = None
    try:
        w.expand()
    except (Exception, StepBudget, SimCrash, KeyboardInterrupt) as e:
        failed = e
        if not isinstance(e, INJECTED):
            viol.append(crash_viol(e))
    after = w.by_context()
    target = str(w.target.identifier)
    for c, ts in before.items():
        lost = {t for t in ts - after.get(c, set()) if not excused(scen, t, c == target)}
        if lost:
            viol.append(("lost", "asserted triple(s) lost from %s%s: %s" % (c, " after a fault" if failed else "", terms.show(lost, 4))))
    for c, ts in after.items():
        if c != target and ts - before.get(c, set()):
            viol.append(("altered", "graph %s was written to, although results belong into %s: %s" % (
                c, target, terms.show(ts - before.get(c, set()), 4))))
    given = set().union(*before.values()) if before else set()
    for op, t, c in w.ctl.writes:
        if op == "remove":
            e = terms.enc3(t)
            if e in given and not excused(scen, e, str(getattr(c, "identifier", c)) == target):
                viol.append(("removed", "an asserted triple was removed on the way: %s" % (" ".join(e),)))
                break
    derived = sum(len(v) for v in after.values()) - sum(len(v) for v in before.values())
    return result(viol, w.ctl, st, canon=sorted(after.get(target, ())), sig=digest(sorted(after.get(target, ()))),
                  nontrivial=derived > 0 or failed is not None,
                  sample={"triples": scen["triples"][:8], "kind": scen["kind"], "fault": fault})


def reductions(scen):
    from ..run import default_reductions
    if scen.get("fault"):
        c = dict(scen)
        c.pop("fault")
        yield c
    yield from default_reductions(scen)
