"""Shared by C01-C04: simulate one expansion under a seeded store schedule and compare with the reference model."""
from .common import *  # noqa: F401,F403

KINDS = ["graph", "graph", "ds", "dsdest", "dsdestg", "gdest", "dsdeststr"]


def make(rng, idx, profile, gadgets, cap, first_pool=None, bad=0.05, meta=0.0, ax=(0, 0, 0, 1), dax=(0, 0, 0, 1), rdfs=(0,),
         improved=(1,), n=None, many=0.15, aliases=False):
    pool = first_pool or gadgets
    first = pool[idx % len(pool)]
    scen = {"profile": profile, "ax": rng.choice(ax), "dax": rng.choice(dax), "rdfs": rng.choice(rdfs),
            "improved": rng.choice(improved), "kind": rng.choice(KINDS)}
    opts = dict(lits=rng.random() < 0.85, bnodes=rng.random() < 0.8, bad=bad if rng.random() < 0.5 else 0.0)
    big = cap + (500 if scen["ax"] or scen["dax"] else 0)
    sub = gadgets if rng.random() < 0.5 else rng.sample(gadgets, min(len(gadgets), 4))
    if idx % 90 == 45 and profile not in ("rdfs", None):
        first, n = G.g_ladder, rng.choice([1, 1, 2])  # derivations that take dozens of cycles
    scen["triples"] = core.gen_sized(lambda: G.graph(rng, sub, first=first, meta=meta, n=n, many=many, **opts), profile, big,
                                     axioms=bool(scen["ax"]), daxioms=bool(scen["dax"]), rdfs=bool(scen["rdfs"]), aliases=aliases)
    if scen["kind"].startswith("ds"):
        scen["place"] = core.place(rng, scen["triples"])
    elif rng.random() < 0.25:
        scen["alien"] = 1
    scen["sched"] = core.random_sched(rng)
    return scen


def simulate(scen):
    """(viol, world, model closure, closure triples, messages)"""
    cl = core.model_of(scen)
    w = World(scen)
    viol = []
    before = w.context(w.alien) if w.alien is not None else None
    try:
        w.expand()
    except Exception as e:
        return [crash_viol(e)], w, cl, set(), []
    except StepBudget as e:
        return [crash_viol(e)], w, cl, set(), []
    got = w.context(w.target)
    if before is not None and w.context(w.alien) != before:
        viol.append(("alien", "a graph that merely lives in the same store was changed: %s" % terms.show(w.context(w.alien) ^ before, 4)))
    if w.kind in ("dsdest", "dsdestg", "dsdeststr", "gdest"):
        pass
    got |= cl.input
    rest, msgs, bad = core.split_errors(got, cl.input)
    if bad:
        viol.append(("error-shape", "error node without exactly one message: %s" % bad[:3]))
    return viol, w, cl, rest, msgs


def run_closure(scen, spec_errors=False):
    try:
        viol, w, cl, rest, msgs = simulate(scen)
    except (model.Malformed, model.ModelTooBig):
        return {"viol": [], "stats": {"outside_domain": 1}, "digest": "skip", "nontrivial": False}
    if not viol:
        if spec_errors:
            viol += core.explain_errors(cl, msgs)
        else:
            viol += core.judge_closure(cl, rest)
    derived = len(cl.lo - cl.input)
    st = {"derived_triples": derived, "reports": len(msgs), "profile:" + scen["profile"]: 1, "layout:" + scen["kind"]: 1}
    if w.alien is not None:
        st["layout:with_unrelated_graph"] = 1
    if spec_errors:
        for e in cl.errlo:
            st["derivable:" + e[0]] = st.get("derivable:" + e[0], 0) + 1
    return result(viol, w.ctl, st, canon=(sorted(rest), sorted(msgs)), sig=digest(sorted(cl.lo)),
                  nontrivial=derived > 3,
                  sample={"triples": scen["triples"][:8], "sched": scen["sched"], "kind": scen["kind"], "derived": derived})
