"""C11: the result of an expansion does not depend on what the process did before."""
from .history import *  # noqa: F401,F403

RUNS = {"quick": 200, "thorough": 5000}
SPEC = {"rule": "Each run is a history of two to five expansions (all semantics, restricted datatypes, faults, shared or fresh reasoner objects, "
                "conversion switches and rejected calls in between) in one process; every outcome - contents per named graph, reports, or the "
                "error raised - is compared with the same call made first thing in a pristine process. Non-trivial: at least two expansions.",
        "measure": "schedule = checksum of all ordering decisions; state = checksum of the outcomes",
        "stub": "store (SimStore)"}


def gen(rng, idx, tier):
    ops = []
    same = rng.random() < 0.5
    prof = rng.choice(["owl", "rdfs", "comb", "ext", "ext", "trim"])
    n = rng.randrange(2, 6)
    while sum(o["op"] == "expand" for o in ops) < n:
        r = rng.random()
        if r < 0.1:
            ops.append({"op": rng.choice(["alt", "rdflib"])})
        elif r < 0.15:
            ops.append({"op": "reject", "how": rng.choice(["class", "none", "dest", "convert", "format", "store"])})
        else:
            profile = prof if same else rng.choice(["owl", "rdfs", "comb", "ext", "ext", "trim"])
            prev = [o for o in ops if o["op"] == "expand"]
            op = small(rng, profile, POOLS[profile], fault_p=0.3, cap=120, n=rng.choice([1, 1, 2]), bad=0.2)
            if prev and rng.random() < 0.35:
                # the same names and structures with other literals: facets, cardinalities, data
                op["triples"] = G.retuned(rng, (rng.choice(prev) if same else prev[-1])["triples"])
                op["profile"] = prev[-1]["profile"]
                op.pop("place", None)
            elif prev and rng.random() < 0.4:
                # the same structure about other things: list heads, restrictions and axiom nodes keep their names
                op["triples"] = G.swapped(rng, prev[-1]["triples"])
                op.pop("place", None)
            elif prev and rng.random() < 0.4:
                # the same names again, with other statements: anything cached by name shows
                op["triples"] = G.cap_merge(rng, op["triples"], prev[-1]["triples"])
                op.pop("place", None)
            op["op"] = "expand"
            if op["profile"] in ("owl", "rdfs", "comb") and rng.random() < 0.12:
                op["direct"] = 1
            op["reuse"] = bool(same and rng.random() < 0.7)
            ops.append(op)
    if same:
        base = [o for o in ops if o["op"] == "expand"][0]
        for o in ops:
            if o["op"] == "expand" and o["reuse"]:
                for k in ("ax", "dax", "rdfs", "improved"):
                    o[k] = base[k]
    return {"ops": ops, "early": int(rng.random() < 0.5)}


def alone(op, state):
    if state == "alt":
        owlrl.DeductiveClosure.use_improved_datatypes_conversions()
    out = do_expand(op)
    out["probe"] = digest(probe())
    return out


def run(scen):
    from .c10 import reject
    viol, st, dig = [], {}, []
    # what each call does first thing in a process is found out before this one has made any call
    refs, ats, state = {}, {}, "rdflib"
    for k, op in enumerate(scen["ops"]):
        if op["op"] in ("alt", "rdflib"):
            state = op["op"]
        elif op["op"] == "expand":
            op = dict(op)
            if op.get("fault"):
                op["at"] = ats[k] = in_fork(prepare, op, state)
                if op["at"] is None:
                    op.pop("fault")
            refs[k] = in_fork(alone, op, state)
    state = "rdflib"
    engine = None
    n = 0
    if scen.get("early"):  # the reasoner object is older than the first call
        engine = core.reason([o for o in scen["ops"] if o["op"] == "expand" and o["reuse"]][0]) if any(
            o["op"] == "expand" and o["reuse"] for o in scen["ops"]) else None
    for k, op in enumerate(scen["ops"]):
        kind = op["op"]
        st["call:" + kind] = st.get("call:" + kind, 0) + 1
        if kind == "alt":
            owlrl.DeductiveClosure.use_improved_datatypes_conversions()
            state = "alt"
        elif kind == "rdflib":
            owlrl.DeductiveClosure.use_rdflib_datatypes_conversions()
            state = "rdflib"
        elif kind == "reject":
            reject(op["how"])
        else:
            op = dict(op)
            if op.get("fault"):
                op["at"] = ats[k]
                if op["at"] is None:
                    op.pop("fault")
            ref = refs[k]
            if engine is None and op["reuse"]:
                engine = core.reason(op)
                st["reused_engine"] = 1
            out = do_expand(op, engine if op["reuse"] else None)
            n += 1
            st["ops"] = st.get("ops", 0) + out["ops"]
            if out["fired"]:
                st["fault:" + op["fault"][0]] = st.get("fault:" + op["fault"][0], 0) + 1
            if out["how"] != ref["how"]:
                viol.append(["history", "call %d: '%s' here, but '%s' in a fresh process" % (k, out["how"], ref["how"])])
            elif out["content"] != ref["content"]:
                viol.append(["history", "call %d (%s) gives another result than in a fresh process: %s" % (
                    k, op["profile"], compare(out["content"], ref["content"]))])
            elif not out["how"].startswith(("ok", "injected")):
                viol.append(["exception", "call %d: %s" % (k, out["how"])])
            dig.append((out["how"], out["ops"], out["digest"]))
            if viol:
                break
    return {"viol": viol, "stats": st, "nontrivial": n > 1, "sched": digest(dig), "sig": digest(scen["ops"]),
            "digest": digest(dig, viol), "sample": [(o["op"], o.get("profile"), len(o.get("triples", ())), o.get("fault"), o.get("reuse"))
                                                   for o in scen["ops"]]}


def compare(a, b):
    for c in sorted(set(a) | set(b)):
        x, y = a.get(c, [[], [], 0]), b.get(c, [[], [], 0])
        xs, ys = {tuple(t) for t in x[0]}, {tuple(t) for t in y[0]}
        if xs != ys:
            return "in %s only here %s, only there %s" % (c, terms.show(xs - ys, 4), terms.show(ys - xs, 4))
        if x[1:] != y[1:]:
            return "reports here %s, there %s" % (x[1][:3], y[1][:3])
    return ""


def reductions(scen):
    from .c10 import reductions as r
    yield from r(scen)
