"""C05: the closure does not depend on enumeration order, cursor kind or hash seed (confluence)."""
from .closure import *  # noqa: F401,F403

MULTI = 2
RUNS = {"quick": 200, "thorough": 3000}
SPEC = {"rule": GRAPH_RULE + "Vocabulary may be used as ordinary terms (metamodelling). Each graph is expanded under four schedules in "
                             "two interpreters with different hash seeds. Non-trivial: at least one enumeration was reordered.",
        "measure": "schedule = checksum of the ordering decisions of all schedules of the run; state = checksum of the closure"}
POOL = G.OWL_GADGETS + G.ERR_GADGETS + G.EXT_GADGETS + [G.g_multi] * 4 + [G.g_meta, G.g_meta, G.g_bnpred, G.g_bnpred]

FIRST = {"rdfs": G.RDFS_GADGETS + [G.g_meta, G.g_bnpred], "ext": G.EXT_GADGETS * 4 + POOL, "trim": G.EXT_GADGETS * 4 + POOL}


def gen(rng, idx, tier):
    profile = ["owl", "rdfs", "owl", "ext", "comb", "owl", "trim", "ext"][idx % 8]
    scen = make(rng, idx // 8 * 3 + idx % 3, profile, POOL, 260, first_pool=FIRST.get(profile), meta=0.4, bad=0.2, rdfs=(0, 0, 1) if profile in ("ext", "trim") else (0,),
                ax=(0, 0, 0, 0, 0, 1), dax=(0, 0, 0, 0, 0, 1), n=rng.choice([1, 2, 2, 3]), many=0.4)
    scen["mat"] = int(rng.random() < 0.25)
    scen["scheds"] = [{"mode": "rev"}] + [{"mode": mode, "seed": rng.randrange(1 << 30), "cursor": rng.choice(["snap", "live"]), "mat": rng.choice([False, "names"])}
                                          for mode in ("perm", "hash", "hash")]
    scen.pop("sched")
    return scen


def one(scen, sched):
    w = World(scen, Ctl(dict(sched, mat=bool(scen["mat"]) or sched.get("mat")), budget=4000000))
    try:
        w.expand()
    except (Exception, StepBudget) as e:
        return "exception " + type(e).__name__, None, None, w.ctl
    got = w.context(w.target)
    rest, msgs, bad = core.split_errors(got, scen["triples"])
    return "ok", rest, sorted(msgs), w.ctl


def run(scen):
    viol = []
    st = {"ops": 0}
    ref = None
    dig = []
    for sched in scen["scheds"]:
        how, rest, msgs, ctl = one(scen, sched)
        st["ops"] += ctl.ops
        st["reordered_enumerations"] = st.get("reordered_enumerations", 0) + ctl.shuffled
        st["live_extend"] = st.get("live_extend", 0) + ctl.kinds["live_extend"]
        dig.append("%08x" % ctl.digest)
        if ref is None:
            ref = (how, rest, msgs, sched)
            continue
        if how != ref[0]:
            viol.append(["divergence", "%s under %s but %s under %s" % (ref[0], ref[3], how, sched)])
        elif how == "ok" and rest != ref[1]:
            a, b = ref[1] - rest, rest - ref[1]
            viol.append(["divergence", "the closure depends on the schedule: only in one %s, only in the other %s" % (
                terms.show(a, 4), terms.show(b, 4))])
        elif how == "ok" and msgs != ref[2]:
            a, b = set(ref[2]) ^ set(msgs), ()
            viol.append(["report-divergence", "the reports depend on the schedule: %s" % (sorted(a)[:4],)])
        if viol:
            break
    canon = digest(ref[0], sorted(ref[1] or ()), ref[2])
    st["profile:" + scen["profile"]] = 1
    return {"viol": viol, "stats": st, "nontrivial": len(scen["triples"]) > 1 and st["reordered_enumerations"] > 0, "sched": "-".join(dig),
            "sig": canon, "canon": canon, "digest": digest(canon, dig, viol),
            "sample": {"triples": scen["triples"][:8], "scheds": scen["scheds"], "profile": scen["profile"]}}


def reductions(scen):
    from ..run import default_reductions
    for c in default_reductions(scen):
        yield c
    if len(scen["scheds"]) > 2:
        for i in range(len(scen["scheds"])):
            yield dict(scen, scheds=scen["scheds"][:i] + scen["scheds"][i + 1:])
