"""C10: the process-wide literal conversions change only when the user switches them."""
from .history import *  # noqa: F401,F403

RUNS = {"quick": 240, "thorough": 8000}
SPEC = {"rule": "Each run is a history of three to eight library calls in one process (expansions of all semantics, with and without improved "
                "conversions, with store faults and interrupts, rejected calls, explicit switches, user-registered datatypes). After every call "
                "- and at seeded moments inside expansions - about 120 literals are converted and compared with a pristine process in the "
                "expected state. Non-trivial: at least one expansion ran.",
        "measure": "schedule = checksum of all ordering decisions; state = the history of calls",
        "stub": "store (SimStore)"}


def gen(rng, idx, tier):
    ops = []
    for _ in range(rng.randrange(3, 9)):
        r = rng.random()
        if r < 0.2:
            ops.append({"op": "alt"})
        elif r < 0.4:
            ops.append({"op": "rdflib"})
        elif r < 0.46:
            ops.append({"op": "bind"})
        elif r < 0.53:
            ops.append({"op": "reject", "how": rng.choice(["class", "none", "dest", "convert", "format", "store"])})
        else:
            profile = rng.choice(["owl", "rdfs", "comb", "ext", "ext", "trim"])
            op = small(rng, profile, POOLS[profile], fault_p=0.4)
            op["op"] = "expand"
            op["made"] = rng.randrange(len(ops) + 1)  # the reasoner object is created before that call
            op["when"] = [round(rng.random(), 3) for _ in range(2)]
            ops.append(op)
    return {"ops": ops}


def reject(how):
    """Calls the library refuses; none of them may leave a trace."""
    g = rdflib.Graph()
    g.add((URIRef("http://x/a"), rdflib.RDF.type, URIRef("http://x/B")))

    class O:
        sources = []
        text = "@prefix : <http://x/> . :a :p :b ."
        owlClosure = "yes"
        rdfsClosure = owlExtras = axioms = daxioms = trimming = "no"
        iformat = "turtle"
        format = "turtle"

    o = O()
    try:
        if how == "class":
            owlrl.DeductiveClosure("not a class")
        elif how == "none":
            owlrl.DeductiveClosure(None).expand(g)
        elif how == "dest":
            owlrl.DeductiveClosure(owlrl.OWLRL_Semantics).expand(g, destination="http://x/dest")
        elif how == "store":
            owlrl.DeductiveClosure(owlrl.OWLRL_Extension).expand(g, destination=rdflib.Graph())
        elif how == "convert":
            o.text = ""
            owlrl.convert_graph(o)
        elif how == "format":
            o.sources = ["nothing"]
            o.iformat = "bogus"
            owlrl.convert_graph(o)
    except Exception:
        return True
    return False


def run(scen):
    viol, st = [], {}
    state, bound = "rdflib", False
    dig = []
    # everything known about a process that does nothing else is found out before this one has made any call
    ref = {(s, b): in_fork(probe_in, s, b) for s in ("rdflib", "alt")
           for b in ((False, True) if any(o["op"] == "bind" for o in scen["ops"]) else (False,))}
    ats = {k: in_fork(prepare, o, "rdflib") for k, o in enumerate(scen["ops"]) if o["op"] == "expand" and o.get("fault")}

    def want(s, b):
        return ref[(s, b)]

    expansions = 0
    engines = {}
    for k, op in enumerate(scen["ops"]):
        for j, o in enumerate(scen["ops"]):
            if o["op"] == "expand" and j > k and o.get("made") == k:
                engines[j] = core.reason(o)
        kind = op["op"]
        st["call:" + kind] = st.get("call:" + kind, 0) + 1
        if kind == "alt":
            owlrl.DeductiveClosure.use_improved_datatypes_conversions()
            state = "alt"
        elif kind == "rdflib":
            owlrl.DeductiveClosure.use_rdflib_datatypes_conversions()
            state = "rdflib"
        elif kind == "bind":
            if not bound:
                rdflib.term.bind(MYDT, None, constructor=my_conv)
                bound = True
        elif kind == "reject":
            reject(op["how"])
        else:
            expansions += 1
            op = dict(op)
            if op.get("fault"):
                op["at"] = ats[k]
                if op["at"] is None:
                    op.pop("fault")
            inside = "alt" if (state == "alt" or op["improved"]) else "rdflib"
            exps = [want(inside, bound)]
            if op["profile"] in ("ext", "trim"):
                # registering the extension's datatypes brings the improved conversions in for the duration of the call
                exps.append(want("alt", bound))
            # probing positions: sparse, by operation number
            marks = {int(u * 2000) + 1 for u in op["when"]}
            seen = []
            ctr = [0]

            def hook():
                ctr[0] += 1
                if ctr[0] in marks:
                    got = probe()
                    seen.append(min(([(a, b) for a, b in difference(got, exp) if a.startswith(("XMLSchema#", "22-rdf"))]
                                     for exp in exps), key=len))

            out = do_expand(op, engines.get(k), hook=hook)
            dig.append((out["how"], out["ops"], out["digest"]))
            st["ops"] = st.get("ops", 0) + out["ops"]
            if out["fired"]:
                st["fault:" + op["fault"][0]] = st.get("fault:" + op["fault"][0], 0) + 1
            st["probes_inside"] = st.get("probes_inside", 0) + len(seen)
            for own in seen:
                if own:
                    viol.append(["inside", "during call %d (improved=%s, process switched to %s) literals convert differently: %s" % (
                        k, op["improved"], state, own[:3])])
                    break
            if not out["how"].startswith(("ok", "injected")):
                viol.append(["exception", "call %d: %s" % (k, out["how"])])
        got = probe()
        d = difference(got, want(state, bound))
        if d:
            viol.append(["leak", "after call %d (%s%s) literal conversion is not that of a process in state '%s': %s" % (
                k, kind, "/" + op.get("profile", op.get("how", "")) if kind in ("expand", "reject") else "", state, d[:3])])
        if viol:
            break
    hist = digest([(o["op"], o.get("profile"), o.get("improved"), bool(o.get("fault"))) for o in scen["ops"]])
    return {"viol": viol, "stats": st, "nontrivial": expansions > 0, "sched": digest(dig), "sig": hist,
            "digest": digest(dig, viol), "sample": [(o["op"], o.get("profile"), o.get("improved"), o.get("fault")) for o in scen["ops"]]}


def reductions(scen):
    from ..run import default_reductions, shrink_list
    yield from default_reductions(scen)
    for i, op in enumerate(scen["ops"]):
        if op["op"] == "expand":
            for ys, _, _ in shrink_list(op["triples"]):
                o = dict(op, triples=ys)
                o.pop("place", None)
                yield dict(scen, ops=scen["ops"][:i] + [o] + scen["ops"][i + 1:])
            if op.get("fault"):
                o = {k: v for k, v in op.items() if k != "fault"}
                yield dict(scen, ops=scen["ops"][:i] + [o] + scen["ops"][i + 1:])
