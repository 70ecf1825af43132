"""C15: adding statements and expanding again always reaches the closure of everything said so far."""
from .closure import *  # noqa: F401,F403

RUNS = {"quick": 260, "thorough": 8000}
SPEC = {"rule": GRAPH_RULE + "Each run is a history: two to four batches of statements, after each one or two expansions (same or changing "
                             "semantics, fresh or reused reasoner object, in place or into a destination); some histories retract derived "
                             "statements or suffer a store fault before the next expansion. After every expansion the whole store is compared with "
                             "the reference closure of what it held before. Non-trivial: two expansions derived something."}


def gen(rng, idx, tier):
    profile = ["owl", "rdfs", "comb", "ext"][idx % 4]
    mixed = rng.random() < 0.25
    pool = G.RDFS_GADGETS if profile == "rdfs" and not mixed else G.OWL_GADGETS + G.ERR_GADGETS + (G.EXT_GADGETS * 3 if profile == "ext" else [])
    scen = make(rng, idx // 4, "ext" if mixed else profile, pool, 230, bad=0.08, rdfs=(0, 1) if profile == "ext" else (0,),
                ax=(0,) * 11 + (1,), dax=(0, 0, 0, 1), n=rng.choice([1, 2, 2, 3]))
    scen["profile"] = profile
    nb = rng.choice([2, 2, 3, 4])
    # structural statements (lists, facets) stay together in the batch of the list's first element
    scen["batch"] = [rng.randrange(nb) for _ in scen["triples"]]
    if any(G.listy(t) for t in scen["triples"]):
        b = rng.randrange(nb)
        for i, t in enumerate(scen["triples"]):
            if G.listy(t) or t[1].startswith("owl:") and t[2] in {x[0] for x in scen["triples"] if x[1] == "rdf:first"}:
                scen["batch"][i] = b
    scen["steps"] = []
    for k in range(nb):
        scen["steps"].append({"batch": k, "reuse": int(rng.random() < 0.5), "sched": core.random_sched(rng),
                              "profile": rng.choice(["owl", "rdfs", "comb", "ext"]) if mixed else profile,
                              "fault": [rng.choice(sorted(set(FAULTS) - {"crash"})), round(rng.random() ** 2, 4)] if rng.random() < 0.2 else None,
                              "forget": [round(rng.random(), 3), rng.randrange(1 << 30)] if rng.random() < 0.2 else None,
                              "again": int(rng.random() < 0.3)})
    if scen["kind"].startswith("ds") and "place" not in scen:
        scen["place"] = core.place(rng, scen["triples"])
    return scen


def run(scen):
    import random
    viol, st, dig = [], {"profile:" + scen["profile"]: 1, "layout:" + scen["kind"]: 1}, []
    w = World(dict(scen, triples=[], place=[]), Ctl({"mode": "none"}))
    place = scen.get("place") or [0] * len(scen["triples"])
    if w.kind.startswith("ds"):
        ctxs = [w.graph.default_context, w.graph.graph(core.URIRef("http://g/n1")), w.graph.graph(core.URIRef("http://g/n2")), w.target]
    else:
        ctxs = [w.graph, w.graph, w.graph, w.target]
    engines = {}
    asserted = set()
    rounds = 0
    ops = 0
    said = set()
    for k, step in enumerate(scen["steps"]):
        s = dict(scen, profile=step["profile"])
        for t, b, p in zip(scen["triples"], scen["batch"], place):
            if b == step["batch"]:
                ctxs[p].add(terms.dec3(t))
                asserted.add(tuple(t))
        for again in range(1 + step["again"]):
            before = w.all()
            if step["forget"] and k and not again:
                # an application drops derived statements; they follow from the rest and must come back
                r = random.Random(step["forget"][1])
                for t in sorted(before - asserted):
                    if r.random() < step["forget"][0] and not terms.is_bn(t[0]):
                        w.store.remove(terms.dec3(t), None)
                        st["forgotten"] = st.get("forgotten", 0) + 1
                before = w.all()
            ctl = w.ctl = w.store.ctl = Ctl(step["sched"], budget=4000000)
            w.store._live, w.store._mat = ctl.live, ctl.mat
            try:
                cl = model.closure(sorted(before), step["profile"], bool(scen["ax"]), bool(scen["dax"]), bool(scen["rdfs"]), bool(scen["improved"]),
                                   limit=60000)
                if core.lists_equated(cl):
                    raise model.Malformed()
            except (model.Malformed, model.ModelTooBig):
                st["unjudged_steps"] = st.get("unjudged_steps", 0) + 1
                cl = None
            if step["fault"] and not again:
                ctl.fault = {"kind": step["fault"][0], "at": 1 + int(step["fault"][1] * 20000)}
            if step["reuse"]:
                if step["profile"] not in engines:
                    engines[step["profile"]] = core.reason(s)
                eng = engines[step["profile"]]
            else:
                eng = core.reason(s)
            try:
                w.expand(eng)
            except INJECTED:
                st["fault:" + step["fault"][0]] = st.get("fault:" + step["fault"][0], 0) + 1
                after = w.all()
                if before - after:
                    viol.append(("lost", "step %d (failed): statements lost: %s" % (k, terms.show(before - after, 4))))
                if cl is not None and {t for t in after - cl.hi - before if not rep(t) and not terms.is_bn(t[1])}:
                    viol.append(("unsound", "step %d (failed): %s" % (k, terms.show(after - cl.hi - before, 4))))
                # the application tries again
                ctl.fault = None
                before2 = after
                try:
                    cl = model.closure(sorted(before2), step["profile"], bool(scen["ax"]), bool(scen["dax"]), bool(scen["rdfs"]),
                                       bool(scen["improved"]), limit=60000) if cl is not None else None
                    before = before2
                except (model.Malformed, model.ModelTooBig):
                    cl = None
                try:
                    w.expand(eng)
                except (Exception, StepBudget) as e:
                    viol.append(crash_viol(e))
                    break
            except (Exception, StepBudget) as e:
                viol.append(crash_viol(e))
                break
            ops += ctl.ops
            st["reordered_enumerations"] = st.get("reordered_enumerations", 0) + ctl.shuffled
            after = w.all()
            dig.append((ctl.digest, len(after)))
            rounds += after != before
            lost = {t for t in before - after if not terms.is_bn(t[1])}
            if lost:
                viol.append(("lost", "step %d: statements lost: %s" % (k, terms.show(lost, 4))))
            if cl is not None:
                rest, msgs, bad = core.split_errors(after, before)
                viol += core.judge_closure(cl, rest | cl.input, "step %d (%s): " % (k, step["profile"]))
                viol += core.explain_errors(cl, msgs) if step["profile"] != "rdfs" else []
                said |= set(msgs)
                if bad:
                    viol.append(("error-shape", str(bad[:2])))
            if viol:
                break
        if viol:
            break
    st["ops"] = ops
    st["expansions_that_changed_something"] = rounds
    return {"viol": [[c, d[:900]] for c, d in viol], "stats": st, "nontrivial": rounds > 1, "sched": digest(dig), "sig": digest(sorted(w.all())),
            "digest": digest(dig, viol), "sample": {"triples": scen["triples"][:8], "batch": scen["batch"], "steps": [
                (x["profile"], x["reuse"], x["fault"], x["forget"]) for x in scen["steps"]], "kind": scen["kind"]}}


def rep(t):
    return t[1] == "err:error" or t[1] == "rdf:type" and t[2] == "err:ErrorMessage"


def reductions(scen):
    from ..run import default_reductions, shrink_list
    for i in range(len(scen["steps"])):
        s = scen["steps"][i]
        for key in ("fault", "forget", "again", "reuse"):
            if s[key]:
                yield dict(scen, steps=scen["steps"][:i] + [dict(s, **{key: None if key in ("fault", "forget") else 0})] + scen["steps"][i + 1:])
        if s["sched"].get("mode") != "none":
            yield dict(scen, steps=scen["steps"][:i] + [dict(s, sched={"mode": "none"})] + scen["steps"][i + 1:])
    for ys, i, k in shrink_list(scen["triples"]):
        c = dict(scen, triples=ys, batch=scen["batch"][:i] + scen["batch"][i + k:])
        if scen.get("place"):
            c["place"] = scen["place"][:i] + scen["place"][i + k:]
        yield c
    if len(scen["steps"]) > 1:
        for i in range(len(scen["steps"])):
            yield dict(scen, steps=scen["steps"][:i] + scen["steps"][i + 1:])
    for c in default_reductions({k: v for k, v in scen.items() if k != "triples"}):
        yield dict(c, triples=scen["triples"])
