"""C14: the conversion entry point and the command line do what their options say, or fail loudly."""
import io
import os
import random
import runpy
import sys

import owlrl
import rdflib
from rdflib import Graph

from .common import *  # noqa: F401,F403
from .. import boot, simio

RUNS = {"quick": 800, "thorough": 25000}
SPEC = {"rule": "Each run draws documents (several formats, imports, duplicates, standard input, inline text), an option combination and an entry "
                "point (function or command line), behind a simulated network, file system and store, with one network, file or store fault in "
                "40 % of the runs. What is serialised is compared with the reference closure of what the sources say. Non-trivial: output was "
                "produced.",
        "stub": "network, file system, standard streams (simio), store (SimStore)"}
FMT = {"turtle": [".ttl", ".n3"], "xml": [".rdf", ".owl", ""], "json-ld": [".json", ".jsonld"]}
YES = ["yes", True, "Yes", "True", "true"]
NO = ["no", False, "No", "False"]


def gen(rng, idx, tier):
    flags = {k: int(rng.random() < p) for k, p in (("owl", 0.55), ("rdfs", 0.5), ("extras", 0.35), ("axioms", 0.12), ("daxioms", 0.15), ("trim", 0.3))}
    scen = {"flags": flags, "cli": int(rng.random() < 0.45), "maximal": 0}
    if scen["cli"] and rng.random() < 0.15:
        scen["maximal"] = 1
    if not scen["cli"] and rng.random() < 0.2:
        scen["closure"] = rng.choice(["owl", "rdfs", "comb", "ext", "trim"])  # the closureClass argument overrides the options
    eff = effective(scen)
    profile = scen.get("closure") or prof(eff)
    if profile is None:
        eff["axioms"] = eff["daxioms"] = 0
    pool = {"rdfs": G.RDFS_GADGETS, "owl": G.OWL_GADGETS + G.ERR_GADGETS, None: G.RDFS_GADGETS}.get(profile, G.OWL_GADGETS + G.EXT_GADGETS * 4)
    lits = rng.random() < 0.7
    scen["triples"] = core.gen_sized(
        lambda: named(G.graph(rng, pool, first=pool[idx % len(pool)], n=rng.choice([1, 2, 2]), lits=lits, bnodes=False, bad=0.1)),
        profile or "rdfs", 200 + 500 * (flags["axioms"] or flags["daxioms"]),
        axioms=bool(flags["axioms"]), daxioms=bool(flags["daxioms"]), rdfs=bool(flags["rdfs"]))
    n = rng.choice([1, 1, 2, 3])
    forced = rng.choice([None, None, None, "turtle", "xml", "json"])
    docs = []
    for i in range(n):
        fmt = {"turtle": "turtle", "xml": "xml", "json": "json-ld"}.get(forced) or rng.choice(["turtle", "turtle", "xml", "json-ld"])
        sfx = rng.choice(FMT[fmt]) if forced is None else rng.choice([".ttl", ".rdf", ""])
        name = rng.choice(["http://sim/d%d%s", "/sim/d%d%s", "http://sim/v%d/onto%s", "/sim/%d/onto%s", "http://s%d.sim/onto%s", "/sim/my d%d%s"]) % (i, sfx)
        if i == 0 and (forced is None and fmt == "turtle" or forced) and rng.random() < 0.15:
            name = "-"
        docs.append({"name": name, "fmt": fmt, "imports": [rng.randrange(n) for _ in range(rng.choice([0, 0, 0, 1, 2]))]})
    scen["docs"] = docs
    scen["where"] = [rng.randrange(n + 1) for _ in scen["triples"]]  # n: inline text
    srcs = [i for i in range(n) if rng.random() < 0.75] or [0]
    if rng.random() < 0.2:
        srcs.append(srcs[0])
    scen["sources"] = srcs
    scen["text"] = int(not scen["cli"] and rng.random() < 0.4)
    if scen["text"] and rng.random() < 0.5:
        scen["timports"] = [rng.randrange(n)]  # the inline text imports documents, perhaps all there is
        scen["only_text"] = int(rng.random() < 0.5)
    scen["iformat"] = forced or "auto"
    scen["format"] = rng.choice(["turtle", "turtle", "xml", "json"] + ([] if scen["cli"] else ["rdfxml"]))
    scen["spell"] = rng.randrange(1 << 30)
    scen["old_source"] = int(rng.random() < 0.15)
    scen["sched"] = core.random_sched(rng)
    scen["seed"] = rng.randrange(1 << 30)
    scen["short"] = int(rng.random() < 0.4)
    r = rng.random()
    if r < 0.2:
        scen["netfault"] = [rng.randrange(n), rng.choice(simio.OPEN_FAULTS + simio.READ_FAULTS), round(rng.random(), 3)]
    elif r < 0.4:
        scen["fault"] = [rng.choice(sorted(set(FAULTS) - {"crash"})), round(rng.random(), 4), round(rng.random(), 4)]
    return scen


def named(ts):
    """Parsers rename blank nodes; the documents use names throughout."""
    return [[":b_" + e[2:] if terms.is_bn(e) else e for e in t] for t in ts]


def effective(scen):
    f = dict(scen["flags"])
    if scen["maximal"]:
        f.update(owl=1, rdfs=1, extras=1, trim=1)
    return f


def prof(f):
    if f["owl"]:
        if f["extras"]:
            return "trim" if f["trim"] else "ext"
        return "comb" if f["rdfs"] else "owl"
    return "rdfs" if f["rdfs"] else None


def docs_of(scen):
    docs, text = {}, ""
    n = len(scen["docs"])
    for i, d in enumerate(scen["docs"]):
        ts = [t for t, k in zip(scen["triples"], scen["where"]) if k == i]
        for k in d["imports"]:
            if k < n and scen["docs"][k]["name"] != "-":
                nm = scen["docs"][k]["name"]
                ts.append([":doc%d" % i, "owl:imports", "<%s>" % (nm if nm.startswith("http") else "file://" + nm.replace(" ", "%20"))])
        docs[d["name"]] = {"fmt": d["fmt"], "data": simio.serialise(ts, d["fmt"])}
    ts = [t for t, k in zip(scen["triples"], scen["where"]) if k >= n]
    for k in scen.get("timports", ()):
        if k < n and scen["docs"][k]["name"] != "-":
            nm = scen["docs"][k]["name"]
            ts.append([":t", "owl:imports", "<%s>" % (nm if nm.startswith("http") else "file://" + nm.replace(" ", "%20"))])
    # line ends mean something
    text = "# inline\n" + simio.serialise(ts + [[":t", ":t", ":t"]], "turtle")
    return docs, text


def meaning(scen, docs, text):
    """The statements the sources make (imports followed when OWL is on), by rdflib's own parsers."""
    f = effective(scen)
    n = len(scen["docs"])
    todo = ([i for i in scen["sources"] if i < n] or [0]) if not only_text(scen) else []
    seen = []
    out = set()
    if scen["text"]:
        g = Graph(store="Memory")
        g.parse(data=text, format="turtle")
        out |= {terms.enc3(t) for t in g}
        if f["owl"]:
            out = {t for t in out if t[1] != "owl:imports"}
            todo += [j for j in scen.get("timports", ()) if j < n and scen["docs"][j]["name"] != "-"]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.append(k)
        d = docs[scen["docs"][k]["name"]]
        g = Graph(store="Memory")
        g.parse(data=d["data"], format=d["fmt"])
        ts = {terms.enc3(t) for t in g}
        if f["owl"]:
            ts = {t for t in ts if t[1] != "owl:imports"}
            todo += [j for j in scen["docs"][k]["imports"] if j < n and scen["docs"][j]["name"] != "-"]
        out |= ts
    return out, seen


def only_text(scen):
    return bool(scen["text"] and scen.get("only_text"))


class Opt:
    pass


def argv(scen, rng):
    f = scen["flags"]
    out = []
    for k, long, sh in (("owl", "owlrl", "-w"), ("rdfs", "rdfs", "-r"), ("extras", "extras", "-e"), ("axioms", "axioms", "-a"),
                        ("daxioms", "daxioms", "-d"), ("trim", "trimming", "-t")):
        if f[k]:
            out.append([rng.choice(["--%s=yes" % long, sh])])
        elif rng.random() < 0.2:
            out.append(["--%s=no" % long])
    if scen["maximal"]:
        out.append([rng.choice(["-m", "--maximal"])])
    out.append(rng.choice([["-o", scen["format"]], ["--serialization=" + scen["format"]], ["-s", scen["format"]]]))
    if scen["iformat"] != "auto":
        out.append(["-i", scen["iformat"]])
    rng.shuffle(out)
    a = [x for y in out for x in y]
    names = [scen["docs"][i]["name"] for i in scen["sources"] if i < len(scen["docs"])] or [scen["docs"][0]["name"]]
    if scen["old_source"]:
        a += ["-f", names[0]]
        names = names[1:]
    if names == ["-"]:
        names = rng.choice([[], ["-"]])
    return a + names


def options(scen, text, rng):
    o = Opt()
    f = scen["flags"]
    names = [scen["docs"][i]["name"] for i in scen["sources"] if i < len(scen["docs"])] or [scen["docs"][0]["name"]]
    o.sources = names
    if scen["old_source"]:
        o.source = names[0]
        o.sources = names[1:] or [names[0]]
    if only_text(scen):
        o.sources = []
        if scen["old_source"]:
            o.source = None
    o.text = text if scen["text"] else rng.choice([None, ""])
    for k, a in (("owl", "owlClosure"), ("rdfs", "rdfsClosure"), ("extras", "owlExtras"), ("axioms", "axioms"), ("daxioms", "daxioms"),
                 ("trim", "trimming")):
        setattr(o, a, rng.choice(YES if f[k] else NO))
    if not f["trim"] and rng.random() < 0.2:
        del o.trimming
    o.format = scen["format"]
    o.iformat = scen["iformat"]
    if o.iformat == "auto" and rng.random() < 0.2:
        del o.iformat
    return o


def invoke(scen, docs, text, ctl, net):
    """-> (exception, output, captured [(triples, format, text)])"""
    boot.reset_ids("x")
    rng = random.Random(scen["spell"])
    caught = []
    orig = Graph.serialize

    def spy(self, destination=None, format="turtle", *a, **k):
        was, ctl.armed = ctl.armed, False
        ts = {terms.enc3(t) for t in self.triples((None, None, None))}
        ctl.armed = was
        out = orig(self, destination, format, *a, **k)
        caught.append((ts, format, out))
        return out

    Graph.serialize = spy
    out = err = None
    saved = sys.argv, sys.stdout, sys.stderr
    cap = io.StringIO()
    limit = 40
    uo, op = net.urlopen, net.open

    def count(f):
        def w(*a, **k):
            if len(net.opens) > limit:
                raise StepBudget("more than %d documents requested" % limit)
            return f(*a, **k)
        return w

    net.urlopen, net.open = count(uo), count(op)
    ctl.armed = True
    try:
        with net:
            if scen["cli"]:
                sys.argv = ["owlrl"] + argv(scen, rng)
                sys.stdout, sys.stderr = cap, io.StringIO()
                runpy.run_path(os.path.join(boot.REPO, "scripts", "owlrl"), run_name="__main__")
            else:
                out = owlrl.convert_graph(options(scen, text, rng), *([core.CLS[scen["closure"]]] if scen.get("closure") else []))
    except (Exception, StepBudget, KeyboardInterrupt, SystemExit) as e:
        err = e
    finally:
        ctl.armed = False
        Graph.serialize = orig
        sys.argv, sys.stdout, sys.stderr = saved
    if scen["cli"]:
        out = cap.getvalue()
    return err, out, caught


def run(scen):
    viol, st = [], {}
    docs, text = docs_of(scen)
    f = effective(scen)
    profile = scen.get("closure") or prof(f)
    inp, used = meaning(scen, docs, text)
    st["profile:%s" % profile] = 1
    st["entry:" + ("cli" if scen["cli"] else "function")] = 1
    cl = None
    if profile:
        try:
            cl = model.closure(sorted(inp), profile, bool(f["axioms"]), bool(f["daxioms"]), bool(f["rdfs"]), True)
        except (model.Malformed, model.ModelTooBig):
            return {"viol": [], "stats": {"outside_domain": 1}, "digest": "skip", "nontrivial": False}
        if core.lists_equated(cl):
            return {"viol": [], "stats": {"outside_domain": 1}, "digest": "skip", "nontrivial": False}
    at = None
    fault = scen.get("fault")
    if fault:
        ctl = Ctl(scen["sched"])
        ctl.sites = {}
        invoke(scen, docs, text, ctl, simio.World(docs, random.Random(scen["seed"]), None, scen["short"], ctl))
        if ctl.sites:
            at, _ = core.pick_op(ctl.sites, fault[1], fault[2])
    ctl = Ctl(scen["sched"])
    if at:
        ctl.fault = {"kind": fault[0], "at": at}
    nf = scen.get("netfault")
    faults = {}
    if nf and nf[0] < len(scen["docs"]):
        faults[scen["docs"][nf[0]]["name"]] = {"kind": nf[1], "frac": nf[2], "times": 1}
    net = simio.World(docs, random.Random(scen["seed"]), faults, scen["short"], ctl)
    err, out, caught = invoke(scen, docs, text, ctl, net)
    fired = ctl.fired is not None or any(k != "truncate" for k in net.fired)
    soft = "truncate" in net.fired
    for k, v in net.fired.items():
        st["fault:net_" + k] = v
    if scen["short"]:
        st["fault:short_reads"] = 1
    names = [scen["docs"][k]["name"] for k in used]
    if err is not None:
        if isinstance(err, StepBudget):
            viol.append(crash_viol(err))
        elif not fired and not soft:
            viol.append(("exception", "fails without a fault (%s, options %s): %s%s" % (
                "command line" if scen["cli"] else "function", f, core.describe(err), where(err))))
        if scen["cli"] and out.strip():
            viol.append(("partial-output", "the command failed (%s) but printed %r..." % (core.describe(err), out[:80])))
    else:
        if fired:
            viol.append(("swallowed", "output was produced although %s failed" % (dict(net.fired) or "store operation '%s'" % ctl.fired,)))
        elif not soft:
            opened = [x for x in net.opens]
            if [x for x in set(opened) if opened.count(x) > 2]:
                viol.append(("refetched", "a source was read again and again: %s" % sorted(opened)))
            unneeded = set(opened) - set(names)
            if unneeded:
                viol.append(("unneeded", "documents read that are no source and not to be imported: %s" % sorted(unneeded)))
            if caught:
                ts, fmt, txt = caught[-1]
                if profile is None:
                    if ts != inp:
                        viol.append(("conversion", "plain conversion changed the graph: lost %s, new %s" % (
                            terms.show(inp - ts, 3), terms.show(ts - inp, 3))))
                else:
                    rest, msgs, bad = core.split_errors(ts, inp)
                    viol += core.judge_closure(cl, rest, "options %s -> %s closure: " % (f, profile))
                    viol += core.explain_errors(cl, msgs) if profile != "rdfs" else []
                    if bad:
                        viol.append(("error-shape", str(bad[:2])))
                got = out
                if isinstance(txt, bytes):
                    txt = txt.decode("utf8")
                if isinstance(got, bytes):
                    got = got.decode("utf8")
                if got.strip() != txt.strip():
                    viol.append(("output", "what is returned or printed is not the serialised graph"))
                st["captured"] = 1
            back = parse_back(out, scen["format"])
            lits = any(terms.is_lit(t[0]) or not plain(t) for t in (caught[-1][0] if caught else inp)) or not caught
            if not lits and not viol:
                st["parsed_back"] = 1
                if back is None:
                    viol.append(("format", "the output is not %s: %r" % (scen["format"], str(out)[:120])))
                elif not same(back, caught[-1][0]):
                    viol.append(("format", "the output says something else than the expanded graph: %s" % (
                        terms.show({t for t in back ^ caught[-1][0] if not any(map(terms.is_bn, t))}, 4),)))
    return result(viol, ctl, st, canon=(sorted(caught[-1][0]) if caught else None, str(type(err))),
                  sig=digest(sorted(caught[-1][0]) if caught else None, scen["flags"], scen["format"]), nontrivial=bool(caught),
                  sample={"flags": scen["flags"], "cli": scen["cli"], "docs": [(d["name"], d["imports"]) for d in scen["docs"]],
                          "sources": scen["sources"], "format": scen["format"], "fault": fault or nf})


def plain(t):
    """Can every target syntax carry this triple (XML names as predicates, no odd literals)?"""
    import re
    if t[1] == "rdf:first":  # RDFLib's serialisers write list nodes that have a name without it
        return False
    return bool(re.fullmatch(r"(:|rdf:|rdfs:|owl:|err:)[A-Za-z]\w*", t[1])) and not (terms.is_lit(t[2]) and "^^" in t[2])


def same(a, b):
    strip = lambda x: {t for t in x if not terms.is_bn(t[0]) and not terms.is_bn(t[2])}
    return strip(a) == strip(b) and len(a) == len(b)


def parse_back(out, fmt):
    g = Graph(store="Memory")
    try:
        g.parse(data=out, format={"turtle": "turtle", "json": "json-ld"}.get(fmt, "xml"))
    except Exception:
        return None
    return {terms.enc3(t) for t in g}


def reductions(scen):
    from ..run import default_reductions, shrink_list
    for key in ("fault", "netfault", "closure"):
        if scen.get(key) is not None:
            yield {k: v for k, v in scen.items() if k != key}
    for key in ("short", "old_source", "text"):
        if scen[key]:
            yield dict(scen, **{key: 0})
    for i, d in enumerate(scen["docs"]):
        if d["imports"]:
            yield dict(scen, docs=scen["docs"][:i] + [dict(d, imports=[])] + scen["docs"][i + 1:])
    ts = scen["triples"]
    for ys, i, k in shrink_list(ts):
        yield dict(scen, triples=ys, where=scen["where"][:i] + scen["where"][i + k:])
    for k in scen["flags"]:
        if scen["flags"][k]:
            yield dict(scen, flags=dict(scen["flags"], **{k: 0}))
    for c in default_reductions({k: v for k, v in scen.items() if k not in ("docs", "triples")}):
        yield dict(c, docs=scen["docs"], triples=scen["triples"])
