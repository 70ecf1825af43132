"""C07: with a separate destination the source stays exactly as it was and the destination receives the full closure."""
from .closure import *  # noqa: F401,F403

RUNS = {"quick": 480, "thorough": 8000}
LAY = ["dsdest", "dsdestg", "gdest", "dsdeststr"]
SPEC = {"rule": GRAPH_RULE + "Layouts: a Dataset with the destination given as IRI, string or graph object; two plain graphs of one store. "
                             "The destination may already hold triples. Half of the runs inject a store fault. Non-trivial: something was "
                             "derived or a fault fired."}


def gen(rng, idx, tier):
    profile = ["owl", "rdfs", "comb", "ext", "trim"][idx % 5]
    pool = {"rdfs": G.RDFS_GADGETS, "owl": G.OWL_GADGETS + G.ERR_GADGETS}.get(profile, G.OWL_GADGETS + G.ERR_GADGETS + G.EXT_GADGETS)
    scen = make(rng, idx // 5, profile, pool, 300, bad=0.1)
    if profile != "rdfs" and rng.random() < 0.15:
        scen["triples"].append([":a0", "_:bp", ":a1"])
    scen["kind"] = LAY[(idx // 5) % 4] if rng.random() < 0.7 else rng.choice(LAY)
    mode = rng.random()
    if scen["kind"] == "gdest":
        scen["place"] = [3 if mode < 0.5 and rng.random() < 0.35 else 0 for _ in scen["triples"]]
    else:
        scen["place"] = [rng.choice([0, 0, 1, 2, 3] if mode < 0.5 else [0, 1, 2]) for _ in scen["triples"]]
    if rng.random() < 0.4:
        scen["fault"] = [rng.choice(sorted(FAULTS)), round(rng.random(), 4), round(rng.random(), 4)]
    return scen


def run(scen):
    viol, st = [], {"profile:" + scen["profile"]: 1, "layout:" + scen["kind"]: 1}
    bnp = any(terms.is_bn(t[1]) for t in scen["triples"])
    try:
        cl = core.model_of(scen) if not bnp else None
    except (model.Malformed, model.ModelTooBig):
        return {"viol": [], "stats": {"outside_domain": 1}, "digest": "skip", "nontrivial": False}
    w = World(scen)
    before = w.by_context()
    fault = scen.get("fault")
    if fault:
        try:
            n, sites = core.census(scen)
        except (Exception, StepBudget) as e:
            return result([crash_viol(e)], w.ctl, st)
        at, site = core.pick_op(sites, fault[1], fault[2])
        w = World(scen)
        w.ctl.fault = {"kind": fault[0], "at": at}
    failed = None
    try:
        w.expand()
    except (Exception, StepBudget, SimCrash, KeyboardInterrupt) as e:
        failed = e
        if not isinstance(e, INJECTED):
            viol.append(crash_viol(e))
    after = w.by_context()
    target = str(w.target.identifier)
    for c in sorted(set(before) | set(after)):
        if c == target:
            continue
        a, b = before.get(c, set()), after.get(c, set())
        if a != b:
            viol.append(("source-changed", "source graph %s changed: gone %s, new %s" % (c, terms.show(a - b, 3), terms.show(b - a, 3))))
    lost = before.get(target, set()) - after.get(target, set())
    if lost and scen["profile"] != "trim" and not bnp:
        viol.append(("dest-lost", "what the destination already held was lost: %s" % terms.show(lost, 4)))
    got = after.get(target, set())
    rest, msgs, bad = core.split_errors(got, before.get(target, ()))
    if failed is None and not viol and cl is not None:
        everything = rest | cl.input
        if scen["profile"] != "trim":
            viol += core.judge_closure(cl, everything)
            viol += core.explain_errors(cl, msgs)
            echo = rest & (cl.input - before.get(target, set()))
            st["source_triples_repeated_in_destination"] = len(echo)
            if echo:
                viol.append(("echo", "source triples copied into the destination: %s" % terms.show(echo, 4)))
    return result(viol, w.ctl, st, canon=(sorted(rest), sorted(msgs)), sig=digest(sorted(rest)),
                  nontrivial=len(got) > 0 or failed is not None,
                  sample={"triples": scen["triples"][:8], "kind": scen["kind"], "place": scen["place"][:8], "fault": fault})


from .c06 import reductions  # noqa: E402,F401
