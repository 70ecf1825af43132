"""C08: a store failure is never turned into a silently incomplete or wrong closure."""
from .closure import *  # noqa: F401,F403

RUNS = {"quick": 170, "thorough": 4000}
SPEC = {"rule": GRAPH_RULE + "Each run rehearses once to learn which library code issues which store operation, then replays the run with up "
                             "to six single faults, each at a call site chosen uniformly. Non-trivial: at least one fault fired.",
        "level": "exploration"}
KINDS_F = sorted(set(FAULTS) - {"crash"})


def gen(rng, idx, tier):
    profile = ["owl", "rdfs", "comb", "ext", "trim"][idx % 5]
    pool = {"rdfs": G.RDFS_GADGETS, "owl": G.OWL_GADGETS + G.ERR_GADGETS * 3}.get(
        profile, G.EXT_GADGETS * 6 + G.OWL_GADGETS + G.ERR_GADGETS * 3)
    scen = make(rng, idx // 5, profile, pool, 220, bad=0.15, rdfs=(0, 1) if profile in ("ext", "trim") else (0,),
                ax=(0, 0, 0, 0, 1), dax=(0, 0, 0, 0, 1), n=rng.choice([1, 2, 2, 3]))
    scen["faults"] = [[rng.choice(KINDS_F), round(rng.random(), 4), round(rng.random(), 4)] for _ in range(6)]
    return scen


def run(scen):
    viol, st = [], {"profile:" + scen["profile"]: 1}
    try:
        cl = core.model_of(scen)
    except (model.Malformed, model.ModelTooBig):
        return {"viol": [], "stats": {"outside_domain": 1}, "digest": "skip", "nontrivial": False}
    w = World(scen)
    try:
        n, sites = core.census(scen)
    except (Exception, StepBudget) as e:
        return result([crash_viol(e)], w.ctl, st)
    st["sites_available"] = len(sites)
    ops = n
    dig = []
    hit = set()
    for kind, u1, u2 in scen["faults"]:
        at, site = core.pick_op(sites, u1, u2)
        w = World(scen)
        w.ctl.fault = {"kind": kind, "at": at}
        failed = None
        try:
            w.expand()
        except (Exception, StepBudget, KeyboardInterrupt) as e:
            failed = e
        ops += w.ctl.ops
        what = "%s at operation %d (%s)" % (kind, at, site)
        if w.ctl.fired is None:
            viol.append(["nondet", "the fault did not fire: the run is not repeatable: " + what])
            break
        st["fault:" + kind] = st.get("fault:" + kind, 0) + 1
        hit.add(site)
        got = w.context(w.target) | cl.input
        rest, msgs, bad = core.split_errors(got, cl.input)
        if failed is None:
            v = core.judge_closure(cl, rest) + core.explain_errors(cl, msgs)
            viol.append(["swallowed", "%s was swallowed, the expansion returned normally%s" % (what, " with a wrong result: " + v[0][1] if v else "")])
        else:
            if not isinstance(failed, INJECTED) and not isinstance(_root(failed), INJECTED):
                viol.append(["masked", "%s surfaced as %s%s" % (what, core.describe(failed), where(failed))])
            extra = rest - (cl.full_hi if scen["profile"] == "trim" else cl.hi)
            extra = {t for t in extra if not terms.is_bn(t[1])}  # only ever taken out at the end
            if extra:
                viol.append(["unsound-partial", "%s left triples that are not entailed: %s" % (what, terms.show(extra, 4))])
            keep = cl.input & cl.lo if scen["profile"] == "trim" else cl.input
            miss = keep - {t for t in w.all()}
            if miss:
                viol.append(["lost", "%s lost input: %s" % (what, terms.show(miss, 4))])
            if msgs and not cl.errhi:
                viol.append(["spurious-report", "%s became an inconsistency report: %s" % (what, msgs[:2])])
            if u2 > 0.5 and not viol:
                # the store works again: the same expansion, repeated, completes what the failed one left
                w.ctl.fault, w.ctl.fired = None, None
                st["retries"] = st.get("retries", 0) + 1
                try:
                    w.expand()
                except (Exception, StepBudget) as e:
                    viol.append(["retry-crash", "repeated after %s: %s%s" % (what, core.describe(e), where(e))])
                else:
                    rest, _, _ = core.split_errors(w.context(w.target) | cl.input, cl.input)
                    miss = cl.lo - rest
                    if miss:
                        viol.append(["retry-incomplete", "repeated after %s, %d triple(s) are missing: %s" % (what, len(miss), terms.show(miss, 4))])
        dig.append((at, type(failed).__name__, len(got)))
        if viol:
            break
    st["sites_hit"] = len(hit)
    st["ops"] = ops
    return {"viol": viol, "stats": st, "nontrivial": bool(hit), "sched": digest(dig), "sig": digest(sorted(cl.lo)),
            "digest": digest(dig, viol), "sample": {"triples": scen["triples"][:8], "faults": scen["faults"], "kind": scen["kind"]}}


def _root(e):
    while e.__cause__ is not None or e.__context__ is not None:
        e = e.__cause__ or e.__context__
    return e


def reductions(scen):
    from ..run import default_reductions
    for i in range(len(scen["faults"])):
        if len(scen["faults"]) > 1:
            yield dict(scen, faults=[scen["faults"][i]])
    yield from default_reductions(scen)
