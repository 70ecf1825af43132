"""C12: expansions in different threads do not influence one another (linearizability of the library's process-wide state)."""
import itertools
import random

from .history import *  # noqa: F401,F403
from .. import simlock

RUNS = {"quick": 170, "thorough": 6000}
SPEC = {"rule": "Each run starts two to four simulated threads with one to three library calls each (expansions of tiny graphs with different "
                "semantics, restricted datatypes and conversion options, explicit conversion switches, sometimes rule classes used without the wrapper, sometimes one reasoner object shared by the threads, one of them perhaps failing by an injected "
                "store fault). A baton scheduler decides at every library line, store operation and lock operation who runs next. The history must "
                "be linearizable against the model of one shared switch, with each call's outcome as in a pristine process. Non-trivial: at least "
                "one context switch inside a call.",
        "measure": "schedule = the sequence of context switches; state = checksum of the outcomes",
        "stub": "store (SimStore), thread scheduling and locks (baton scheduler)"}
PS = [0.002, 0.01, 0.05, 0.2, 0.6]


def gen(rng, idx, tier):
    threads = []
    n = rng.choice([2, 2, 2, 3, 3, 4])
    direct = rng.random() < 0.25  # the rule classes used without the wrapper: no switch of conversions is involved
    for _ in range(n):
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3]) if n < 3 else 1):
            if not direct and rng.random() < 0.15:
                calls.append({"op": rng.choice(["alt", "rdflib"])})
                continue
            profile = rng.choice(["rdfs", "rdfs", "rdfs", "owl", "ext", "comb", "trim"])
            if direct:
                profile = rng.choice(["owl", "owl", "rdfs", "comb"])
            elif threads and rng.random() < 0.3:
                profile = next((c["profile"] for t in threads for c in t if c["op"] == "expand"), profile)
            pool = {"rdfs": [G.g_eqlits, G.g_eqlits, G.g_lits, G.g_subclass, G.g_domrange],
                    "owl": [G.g_lits, G.g_eqlits, G.g_dttype, G.g_maxcard, G.g_dtrange], "comb": [G.g_eqlits, G.g_lits, G.g_subclass, G.g_maxcard]}.get(profile, [G.g_facet] * 4 + [G.g_lits, G.g_eqlits, G.g_rational])
            if direct:
                pool = G.RDFS_GADGETS if profile == "rdfs" else G.OWL_GADGETS + G.ERR_GADGETS
            op = small(rng, profile, pool, cap=110, n=1, kinds=("graph",), bad=0.35, ax=(0,))
            op["dax"] = 0
            op["improved"] = rng.choice([0, 1])
            if direct:
                op["direct"] = 1
            other = [c for t in threads for c in t if c["op"] == "expand"]
            if other and rng.random() < (0.5 if direct else 0.1):
                # the same names and structures at the same time in another thread
                op.update({k: other[0][k] for k in ("profile", "rdfs", "ax")}, triples=G.swapped(rng, other[0]["triples"]))
            op["op"] = "expand"
            calls.append(op)
        threads.append(calls)
    if not any(c["op"] == "expand" for t in threads for c in t):
        threads[0].append(dict(small(rng, "rdfs", [G.g_eqlits], cap=110, n=1, kinds=("graph",), ax=(0,)), op="expand"))
    exps = [c for t in threads for c in t if c["op"] == "expand"]
    if not direct and len(exps) > 1 and rng.random() < 0.3:
        # one reasoner object, made before the threads start and used by all of them
        first = exps[0]
        for c in exps:
            if c is first or (c["profile"] == first["profile"] and rng.random() < 0.8):
                c.update({k: first[k] for k in ("ax", "dax", "rdfs", "improved")}, engine=1)
    if rng.random() < 0.3:
        cand = [c for t in threads for c in t if c["op"] == "expand"]
        rng.choice(cand)["fault"] = [rng.choice(sorted(set(FAULTS) - {"crash"})), round(rng.random(), 4), round(rng.random(), 4)]
    return {"threads": threads, "policy": {"mode": "rand", "p": rng.choice(PS)}, "seed": rng.randrange(1 << 30)}


def outcome(out):
    return digest(out["how"], out["content"])


def alone(op, state):
    w = World(op, Ctl(op.get("sched"), budget=1500000))
    if state == "alt":
        owlrl.DeductiveClosure.use_improved_datatypes_conversions()
    out = do_expand(op, w=w)
    return {"o": outcome(out), "how": out["how"], "content": out["content"]}


def run(scen):
    viol, st, dig = [], {}, []
    base = {"rdflib": in_fork(probe_in, "rdflib", False), "alt": in_fork(probe_in, "alt", False)}
    threads = [[dict(c) for c in t] for t in scen["threads"]]
    refs = {}
    for a, t in enumerate(threads):
        for b, c in enumerate(t):
            if c["op"] != "expand":
                continue
            if c.get("fault"):
                c["at"] = in_fork(prepare, c, "rdflib")
                if c["at"] is None:
                    c.pop("fault")
            for s in ("rdflib", "alt"):
                refs[(a, b, s)] = in_fork(alone, c, s)
    sched = simlock.Scheduler(random.Random(scen["seed"]), scen["policy"], 30_000_000, boot.OWLRL_DIR)
    clock = [0]
    hist = []
    # the graphs exist before the threads start: a literal built by the application while another thread expands is
    # converted by whatever table is active (a documented property of RDFLib's process-wide table)
    worlds = {(a, b): World(c, Ctl(c.get("sched"), budget=1500000))
              for a, t in enumerate(threads) for b, c in enumerate(t) if c["op"] == "expand"}

    common = [c for t in threads for c in t if c.get("engine")]
    engine = core.reason(common[0]) if common else None
    if len(common) > 1:
        st["shared_reasoner_calls"] = len(common)

    def body(a):
        def f():
            for b, c in enumerate(threads[a]):
                clock[0] += 1
                rec = {"who": (a, b), "op": c["op"], "start": clock[0], "end": None, "out": None}
                hist.append(rec)
                if c["op"] == "alt":
                    owlrl.DeductiveClosure.use_improved_datatypes_conversions()
                elif c["op"] == "rdflib":
                    owlrl.DeductiveClosure.use_rdflib_datatypes_conversions()
                else:
                    rec["out"] = do_expand(c, engine=engine if c.get("engine") else None, w=worlds[(a, b)])
                clock[0] += 1
                rec["end"] = clock[0]
        return f

    tasks = sched.run([body(a) for a in range(len(threads))])
    st["ops"] = sched.npoints
    st["context_switches"] = len(sched.switches)
    for k, v in sched.stats.items():
        st[k] = v
    if sched.abort:
        viol.append([sched.abort, "the threads do not all finish: %s" % sched.abort])
    for t in tasks:
        if t.exc is not None and not isinstance(t.exc, simlock.SimAbort):
            viol.append(["exception", "thread %d died: %s%s" % (t.idx, core.describe(t.exc), where(t.exc))])
    if not viol:
        for r in hist:
            o = r["out"]
            if o is None:
                continue
            dig.append((o["how"], o["ops"], o["digest"]))
            if o["fired"]:
                st["fault:" + o["fired"]] = st.get("fault:" + o["fired"], 0) + 1
            a, b = r["who"]
            if outcome(o) not in (refs[(a, b, "rdflib")]["o"], refs[(a, b, "alt")]["o"]):
                from .c11 import compare
                ref = refs[(a, b, "rdflib")]
                viol.append(["interference", "call %d of thread %d (%s, improved=%s) gives another outcome than alone: %s" % (
                    b, a, threads[a][b]["profile"], threads[a][b]["improved"],
                    "%s instead of %s" % (o["how"], ref["how"]) if o["how"] != ref["how"] else compare(o["content"], ref["content"]))])
                break
    if not viol:
        p = probe()
        final = [s for s in base if not difference(p, base[s])]
        if not final:
            viol.append(["leak", "after all threads finished, literal conversion is in none of its two states: %s" % (
                difference(p, base["rdflib"])[:3],)])
        elif not linearizable(hist, refs, final):
            viol.append(["linearizability", "no order of the calls explains outcomes and final conversion state (%s): %s" % (
                final, [(r["who"], r["op"], r["start"], r["end"]) for r in hist])])
    return {"viol": viol, "stats": st, "nontrivial": len(sched.switches) > len(threads),
            "sched": digest(sched.switches), "sig": digest([d[0] for d in dig], sorted(map(str, refs))),
            "digest": digest(sched.switches, dig, viol),
            "sample": {"threads": [[(c["op"], c.get("profile"), c.get("improved"), c.get("fault")) for c in t] for t in scen["threads"]],
                       "policy": scen["policy"], "switches": len(sched.switches)}}


def linearizable(hist, refs, final):
    n = len(hist)
    seen = set()

    def go(done, state):
        if len(done) == n:
            return state in final
        if (done, state) in seen:
            return False
        seen.add((done, state))
        for i, r in enumerate(hist):
            if i in done:
                continue
            # everything that ended before r started must be done already
            if any(j not in done and hist[j]["end"] < r["start"] for j in range(n) if j != i):
                continue
            if r["op"] == "expand":
                a, b = r["who"]
                if outcome(r["out"]) != refs[(a, b, state)]["o"]:
                    continue
                s = state
            else:
                s = r["op"]
            if go(done | {i}, s):
                return True
        return False

    return go(frozenset(), "rdflib")


def reductions(scen):
    from ..run import shrink_list
    ts = scen["threads"]
    for i in range(len(ts)):
        if len(ts) > 1:
            yield dict(scen, threads=ts[:i] + ts[i + 1:])
        for j in range(len(ts[i])):
            if len(ts[i]) > 1:
                yield dict(scen, threads=ts[:i] + [ts[i][:j] + ts[i][j + 1:]] + ts[i + 1:])
            c = ts[i][j]
            if c["op"] == "expand":
                for ys, _, _ in shrink_list(c["triples"]):
                    yield dict(scen, threads=ts[:i] + [ts[i][:j] + [dict(c, triples=ys)] + ts[i][j + 1:]] + ts[i + 1:])
                if c.get("fault"):
                    d = {k: v for k, v in c.items() if k != "fault"}
                    yield dict(scen, threads=ts[:i] + [ts[i][:j] + [d] + ts[i][j + 1:]] + ts[i + 1:])
                if c.get("sched", {}).get("mode") != "none":
                    yield dict(scen, threads=ts[:i] + [ts[i][:j] + [dict(c, sched={"mode": "none"})] + ts[i][j + 1:]] + ts[i + 1:])
    for p in PS:
        if scen["policy"]["mode"] == "rand" and p < scen["policy"]["p"]:
            yield dict(scen, policy={"mode": "rand", "p": p})
