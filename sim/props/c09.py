"""C09: after a crash at any point, expanding again from what was durable reaches exactly the closure of the input."""
from .closure import *  # noqa: F401,F403
from ..isolate import in_fork
from ..store import rebuild  # noqa: F401

RUNS = {"quick": 160, "thorough": 4000}
SPEC = {"rule": GRAPH_RULE + "Each run crashes one to three times at seeded operations (call site first); writes after a seeded sync point "
                             "are lost, all or a random subset; every restart is a pristine process with another schedule. Non-trivial: at "
                             "least one crash happened after the first derived write.",
        "stub": "store enumeration order, cursors, term identity, crash points and durability (SimStore)"}


def gen(rng, idx, tier):
    profile = ["owl", "rdfs", "comb", "ext"][idx % 4]
    pool = {"rdfs": G.RDFS_GADGETS, "owl": G.OWL_GADGETS + G.ERR_GADGETS}.get(
        profile, G.OWL_GADGETS + G.ERR_GADGETS + G.EXT_GADGETS)
    late = profile != "rdfs" and rng.random() < 0.3
    if late:
        pool = G.ERR_GADGETS
    scen = make(rng, idx // 4, profile, pool, 260, bad=0.08, rdfs=(0, 1) if profile == "ext" else (0,),
                ax=(0,) * 9 + (1,), dax=(0, 0, 0, 1), n=rng.choice([3, 4]) if late else rng.choice([1, 2, 2, 3]))
    scen["crashes"] = [{"u1": round(rng.random(), 4), "u2": round(rng.random(), 4), "loss": rng.choice(["none", "tail", "subset"]),
                        "n": rng.choice([1, 3, 10, 40]), "seed": rng.randrange(1 << 30), "sched": core.random_sched(rng)}
                       for _ in range(rng.choice([1, 1, 2, 3]))]
    if late:
        # the process dies while it writes its reports
        scen["crashes"] = [dict(c, late=1, loss=rng.choice(["none", "none", "tail"]), n=1) for c in scen["crashes"][:1]]
    if profile != "rdfs" and rng.random() < 0.12:
        # the process dies while the axioms are being written
        scen["ax"] = 1
        scen["crashes"] = [dict(c, early=1, loss=rng.choice(["none", "tail", "subset"])) for c in scen["crashes"][:2]]
    scen["extra"] = []
    return scen


def attempt(scen, base, crash):
    """One process life: expand from the given store content and crash.  -> durable content by context"""
    import random as _r
    s = dict(scen, triples=[t for t, k in base], place=[k for t, k in base], sched=crash["sched"])
    try:
        n, sites = core.census(s)
    except (Exception, StepBudget):
        return {"base": base, "ops": 0, "site": "none", "writes": 0, "digest": 0}
    at, site = core.pick_op(sites, crash["u1"], crash["u2"])
    if crash.get("late"):
        writes = sorted((op, k) for k, ops in sites.items() if k[1] == "add" for op in ops)[-12:]
        if writes:
            at, site = writes[min(int(crash["u2"] * len(writes)), len(writes) - 1)]
            site = "%s/%s" % site
    if crash.get("early"):
        writes = sorted((op, k) for k, ops in sites.items() if k[1] == "add" for op in ops)[:80]
        if writes:
            at, site = writes[min(int(crash["u2"] * len(writes)), len(writes) - 1)]
            site = "%s/%s" % site
    w = World(s)
    w.ctl.fault = {"kind": "crash", "at": at}
    w.ctl.writes = []
    try:
        w.expand()
    except SimCrash:
        pass
    except (Exception, StepBudget):
        pass  # an error of the library itself: final() reports it
    log = [(terms.enc3(t), str(getattr(c, "identifier", c))) for op, t, c in w.ctl.writes if op == "add"]
    r = _r.Random(crash["seed"])
    if crash["loss"] == "tail" and log:
        cut = log[max(0, len(log) - crash["n"]):]
        log = log[: len(log) - len(cut)]
    elif crash["loss"] == "subset" and log:
        tail = set(range(max(0, len(log) - 4 * crash["n"]), len(log)))
        log = [x for i, x in enumerate(log) if i not in tail or r.random() < 0.5]
    tgt = 3 if scen["kind"] in ("dsdest", "dsdestg", "dsdeststr", "gdest") else 0
    have = {(tuple(t), k) for t, k in base}
    out = [[list(t), k] for t, k in base]
    for t, c in log:
        if (t, tgt) not in have:
            have.add((t, tgt))
            out.append([list(t), tgt])
    return {"base": out, "ops": w.ctl.ops, "site": site, "writes": len(log), "digest": w.ctl.digest}


def final(scen, base):
    s = dict(scen, triples=[t for t, k in base], place=[k for t, k in base])
    w = World(s)
    try:
        w.expand()
    except (Exception, StepBudget) as e:
        return {"viol": list(crash_viol(e)), "ops": w.ctl.ops}
    return {"got": sorted(w.all()), "ops": w.ctl.ops, "digest": w.ctl.digest}


def sound(scen, hi, before, after):
    """Triples an (interrupted) life added that are entailed neither by the original input nor by what that life started from.
    The second bound matters: one-time datatype rules of a new life see the statements of the old one."""
    # (what is said with a blank node as its predicate is only ever taken out at the end)
    bad = {t for t in after if t not in hi and t not in before and not is_report(t) and not terms.is_bn(t[1])}
    if bad:
        try:
            cl = model.closure(sorted(before), scen["profile"], bool(scen.get("ax", 0)), bool(scen.get("dax", 0)),
                               bool(scen.get("rdfs", 0)), bool(scen.get("improved", 1)), want_errors=False)
        except (model.Malformed, model.ModelTooBig):
            return set(), True
        bad -= cl.hi
    return bad, False


def is_report(t):
    return t[1] == "err:error" or (t[1] == "rdf:type" and t[2] == "err:ErrorMessage")


def run(scen):
    viol, st = [], {"profile:" + scen["profile"]: 1, "layout:" + scen["kind"]: 1}
    try:
        cl = core.model_of(scen)
    except (model.Malformed, model.ModelTooBig):
        return {"viol": [], "stats": {"outside_domain": 1}, "digest": "skip", "nontrivial": False}
    place = scen.get("place") or [0] * len(scen["triples"])
    base = [[list(t), k] for t, k in zip(scen["triples"], place)]
    hi = cl.hi | cl.input
    dig = []
    ops = writes = 0
    for c in scen["crashes"]:
        out = in_fork(attempt, scen, base, c)
        st["fault:crash"] = st.get("fault:crash", 0) + 1
        if c["loss"] != "none":
            st["fault:lost_writes_" + c["loss"]] = st.get("fault:lost_writes_" + c["loss"], 0) + 1
        before = {tuple(t) for t, k in base}
        base = out["base"]
        ops += out["ops"]
        writes += out["writes"]
        dig.append((out["site"], out["ops"], out["digest"], len(base)))
        bad, skipped = sound(scen, hi, before, {tuple(t) for t, k in base})
        if skipped:
            st["unjudged_lives"] = st.get("unjudged_lives", 0) + 1
        if bad:
            viol.append(("unsound-partial", "crash at %s left triples that are not entailed: %s" % (out["site"], terms.show(bad, 4))))
    out = in_fork(final, scen, base)
    ops += out["ops"]
    if "viol" in out:
        viol.append(tuple(out["viol"]))
    else:
        got = {tuple(t) for t in out["got"]} | cl.input
        before = {tuple(t) for t, k in base}
        stale = any(is_report(t) for t in before)
        nodes = {t[0] for t in got if is_report(t)}
        msgs = [terms.lit_parts(t[2])[0] for t in got if t[1] == "err:error"]
        miss = cl.lo - got
        if miss:
            viol.append(("missing", "after restart: %d derivable triple(s) missing: %s" % (len(miss), terms.show(miss, 4))))
        if stale:
            # reports of an earlier life are data of the next one: what follows about them is legitimate
            mine = nodes | {"err:ErrorMessage", "err:error"} | {t[2] for t in got if t[1] == "err:error"}
            st["stale_reports"] = 1
        else:
            mine = nodes
        extra, skipped = sound(scen, hi, before, {t for t in got if not (set(t) & mine)})
        if extra:
            viol.append(("unsound", "after restart: %d triple(s) not entailed: %s" % (len(extra), terms.show(extra, 4))))
        errs = core.explain_errors(cl, msgs)
        if before - cl.input - cl.lo:
            # reports may stem from what an earlier life derived within the upper bound only
            errs = [e for e in errs if e[0] != "error-spurious"]
        viol += errs
        dig.append((out["digest"], len(got)))
    st["ops"] = ops
    return {"viol": [list(v) for v in viol], "stats": st, "nontrivial": writes > 0, "sched": digest(dig), "sig": digest(sorted(cl.lo)),
            "digest": digest(dig, viol), "sample": {"triples": scen["triples"][:8], "crashes": scen["crashes"], "kind": scen["kind"]}}


def reductions(scen):
    from ..run import default_reductions
    if len(scen["crashes"]) > 1:
        for i in range(len(scen["crashes"])):
            yield dict(scen, crashes=[scen["crashes"][i]])
    for i, c in enumerate(scen["crashes"]):
        for alt in (dict(c, loss="none"), dict(c, sched={"mode": "none"})):
            if alt != c:
                yield dict(scen, crashes=scen["crashes"][:i] + [alt] + scen["crashes"][i + 1:])
    yield from default_reductions(scen)
