"""C13: owl:imports - the result is the union of everything reachable, whatever the network does."""
import random
import urllib.parse

import owlrl
import rdflib
from rdflib import Graph, URIRef

from .common import *  # noqa: F401,F403
from .. import simio

RUNS = {"quick": 9000, "thorough": 150000}
SPEC = {"rule": "Each run draws a graph of one to seven documents (Turtle, RDF/XML, JSON-LD; http and file names; cycles, diamonds, self-imports, "
                "imports given as IRIs or strings) behind a simulated network and file system, a store schedule, and perhaps one network, file or "
                "store fault that later heals. Non-trivial: at least one document was fetched.",
        "stub": "network, file system (simio), store (SimStore)"}
FMT = {"turtle": [".ttl", ".n3"], "xml": [".rdf", ".owl", ""], "json-ld": [".json", ".jsonld"]}


class Runaway(BaseException):
    pass


def spelled(rng):
    """0: an IRI, 1: a string, 2 and 3: an IRI with a fragment."""
    return rng.choice([0, 0, 0, 0, 0, 1, 1, 2, 3])


def gen(rng, idx, tier):
    n = rng.randrange(1, 8)
    forced = rng.choice([None, None, None, "turtle", "xml", "json"])
    docs, names = [], []
    for i in range(n):
        fmt = {"turtle": "turtle", "xml": "xml", "json": "json-ld"}.get(forced) or rng.choice(["turtle", "turtle", "xml", "json-ld"])
        sfx = rng.choice(FMT[fmt]) if forced is None else rng.choice([".ttl", ".rdf", ""])
        names.append(rng.choice(["http://sim/d%d%s", "http://sim/v/d%d%s", "/sim/d%d%s", "https://sim/d%d%s", "http://sim/q?v=1&d=%d%s",
                                 "http://sim:8080/a%%20b/d%d%s", "/sim/my docs/d%d%s", "http://sim/v%d/onto%s", "http://s%d.sim/onto%s", "/sim/%d/onto%s", "http://sim/ö/d%d%s"]) % (i, sfx))
        docs.append({"name": names[-1], "fmt": fmt, "triples": [], "imports": []})
    for i, d in enumerate(docs):
        for _ in range(rng.randrange(0, 4)):
            o = rng.choice([":o%d" % rng.randrange(4), '"v%d"' % rng.randrange(4), '"%d"^^xsd:integer' % rng.randrange(9), ":C"])
            d["triples"].append([":s%d_%d" % (i, rng.randrange(3)), rng.choice([":p", ":q", "rdf:type", "rdfs:label"]), o])
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            d["imports"].append([rng.randrange(n), spelled(rng)])
        if d["name"].startswith("http") and d["fmt"] != "json-ld" and rng.random() < 0.35:
            # statements about things the document names relative to itself
            d["rel"] = [[rng.choice(["", "", "#it", "other", "sub/x#y", "../up"]), ":p", ":o%d" % rng.randrange(4)] for _ in range(rng.choice([1, 2]))]
    root = {"triples": [[":r%d" % rng.randrange(3), ":p", ":o%d" % rng.randrange(3)] for _ in range(rng.randrange(0, 3))],
            "imports": [[rng.randrange(n), spelled(rng)] for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]}
    scen = {"docs": docs, "root": root, "iformat": forced or "auto", "sched": core.random_sched(rng), "seed": rng.randrange(1 << 30),
            "short": int(rng.random() < 0.5), "subject": rng.choice([":onto", "_:b"])}
    r = rng.random()
    if r < 0.5:
        scen["netfault"] = [rng.randrange(n), rng.choice(simio.OPEN_FAULTS + simio.READ_FAULTS * 2), round(rng.random(), 3), rng.choice([1, 1, 2])]
    elif r < 0.75:
        scen["fault"] = [rng.choice(sorted(set(FAULTS) - {"crash"})), round(rng.random(), 4), round(rng.random(), 4)]
    if rng.random() < 0.15:
        scen["self"] = 1
    if rng.random() < 0.1:
        scen["missing"] = rng.randrange(n)
    return scen


def imports_of(scen, d, subj):
    out = []
    for k, how in d["imports"]:
        if k >= len(scen["docs"]):
            continue
        name = scen["docs"][k]["name"]
        if how == 1:
            ref = '"%s"' % name
        else:
            ref = name if name.startswith("http") else "file://" + name.replace(" ", "%20")
            if how > 1 and name.startswith("http") and (scen["iformat"] != "auto" or scen["docs"][k]["fmt"] == "xml"):
                ref += ["#", "#it"][how - 2]
            ref = "<%s>" % ref
        # (what is imported may be the very thing that imports it)
        out.append([ref if scen.get("self") and ref[0] == "<" else subj, "owl:imports", ref])
    return out


def world(scen):
    docs = {}
    for i, d in enumerate(scen["docs"]):
        if scen.get("missing") == i:
            continue
        ts = d["triples"] + imports_of(scen, d, ":doc%d" % i)
        docs[d["name"]] = {"fmt": d["fmt"], "data": relative(d, simio.serialise(ts, d["fmt"]))}
    return docs


def relative(d, text):
    for ref, p, o in d.get("rel", ()):
        p, o = terms.dec_iri(p), terms.dec_iri(o)
        if d["fmt"] == "turtle":
            text += "\n<%s> <%s> <%s> .\n" % (ref, p, o)
        else:
            ns, name = p.rsplit("/", 1)
            text = text.replace("</rdf:RDF>", '<rdf:Description rdf:about="%s"><z:%s xmlns:z="%s/" rdf:resource="%s"/></rdf:Description></rdf:RDF>' % (
                ref, name, ns, o))
    return text


def relatives(d):
    return {(terms.enc_iri(urllib.parse.urljoin(d["name"], ref)), p, o) for ref, p, o in d.get("rel", ())}


def reach(scen):
    todo = [k for k, _ in scen["root"]["imports"] if k < len(scen["docs"])]
    seen = []
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.append(k)
        todo += [j for j, _ in scen["docs"][k]["imports"] if j < len(scen["docs"])]
    return sorted(seen)


def spellings(scen, name):
    """In how many ways the imports spell this document (a path as a string and as a file: IRI are two)."""
    refs = set()
    for d in scen["docs"] + [scen["root"]]:
        for (j, how), t in zip([x for x in d["imports"] if x[0] < len(scen["docs"])], imports_of(scen, d, "")):
            if scen["docs"][j]["name"] == name:
                refs.add(t[2].strip('<>"'))
    return max(1, len(refs))


def build(scen, ctl):
    boot.reset_ids("x")
    g = Graph(store=SimStore(ctl), identifier=URIRef("http://g/src"))
    for t in scen["root"]["triples"] + imports_of(scen, scen["root"], scen["subject"]):
        g.add(terms.dec3(t))
    return g


def call(scen, g, ctl, net):
    ctl.armed = True
    limit = 12 * (len(scen["docs"]) + 1)
    orig_open, orig_url = net.open, net.urlopen

    def count(f):
        def w(*a, **k):
            if len(net.opens) > limit:
                raise Runaway("more than %d documents requested" % limit)
            return f(*a, **k)
        return w

    net.open, net.urlopen = count(orig_open), count(orig_url)
    try:
        with net:
            owlrl.interpret_owl_imports(scen["iformat"], g)
        return None
    except (Exception, StepBudget, Runaway, KeyboardInterrupt) as e:
        return e
    finally:
        ctl.armed = False


def enc_all(g):
    return {terms.enc3(t) for t in g.triples((None, None, None))}


def run(scen):
    import random as _r
    viol, st = [], {}
    docs = world(scen)
    reachable = reach(scen)
    seeds = _r.Random(scen["seed"])
    fault = scen.get("fault")
    at = None
    if fault:
        ctl = Ctl(scen["sched"])
        ctl.sites = {}
        g = build(scen, ctl)
        call(scen, g, ctl, simio.World(docs, _r.Random(scen["seed"]), short=scen["short"]))
        if ctl.sites:
            at, site = core.pick_op(ctl.sites, fault[1], fault[2])
    ctl = Ctl(scen["sched"])
    g = build(scen, ctl)
    given = enc_all(g)
    nf = scen.get("netfault")
    faults = {}
    if nf and nf[0] < len(scen["docs"]):
        faults[scen["docs"][nf[0]]["name"]] = {"kind": nf[1], "frac": nf[2], "times": nf[3]}
    if at:
        ctl.fault = {"kind": fault[0], "at": at}
    net = simio.World(docs, _r.Random(scen["seed"]), faults, scen["short"])
    want = {tuple(t) for t in scen["root"]["triples"]}
    for k in reachable:
        want |= {tuple(t) for t in scen["docs"][k]["triples"]} | relatives(scen["docs"][k])
    missing = scen.get("missing") in reachable
    attempts = 0
    dig = []
    fetched = 0
    while True:
        attempts += 1
        before = enc_all(g)
        nopen = len(net.opens)
        fired0 = sum(net.fired.values()) + (ctl.fired is not None)
        err = call(scen, g, ctl, net)
        after = enc_all(g)
        opened = net.opens[nopen:]
        fetched += len(opened)
        fired = sum(net.fired.values()) + (ctl.fired is not None) - fired0
        hard = fired and any(k != "truncate" for k in net.fired) or ctl.fired is not None and fired
        dig.append((type(err).__name__, len(after), tuple(opened)))
        if isinstance(err, Runaway):
            viol.append(("hang", "following the imports does not end: %s ..." % (net.opens[-6:],)))
            break
        if isinstance(err, StepBudget):
            viol.append(crash_viol(err))
            break
        twice = {x for x in opened if opened.count(x) > spellings(scen, x)}
        if twice:
            viol.append(("refetched", "document fetched %d times in one call: %s" % (max(opened.count(x) for x in twice), sorted(twice))))
        lost = {t for t in before - after if t[1] != "owl:imports"}
        if lost:
            viol.append(("lost", "triples lost: %s" % terms.show(lost, 4)))
        extra = {t for t in after - want if t[1] != "owl:imports"}
        if extra:
            viol.append(("extra", "triples from nowhere: %s" % terms.show(extra, 4)))
        if err is None:
            if hard:
                viol.append(("swallowed", "the call returned although %s" % (dict(net.fired) or ctl.fired,)))
            if missing:
                viol.append(("swallowed", "the call returned although an imported document does not exist"))
            left = {t for t in after if t[1] == "owl:imports"}
            if left:
                viol.append(("import-left", "import statement still there after success: %s" % terms.show(left, 4)))
            gone = want - after
            if gone and not net.fired.get("truncate"):
                viol.append(("missing", "imported triples missing after %d attempt(s): %s" % (attempts, terms.show(gone, 4))))
            unneeded = {x for x in opened} - {scen["docs"][k]["name"] for k in reachable}
            if unneeded:
                viol.append(("unneeded", "documents fetched that nobody imports: %s" % sorted(unneeded)))
            break
        # failed: the way to the rest must still be open
        if not fired and not missing and not net.fired:
            viol.append(("exception", "fails without a fault: " + core.describe(err) + where(err)))
            break
        if viol:
            break
        todo = {("http://sim", t[2]) for t in after if t[1] == "owl:imports"}
        if not todo and want - after:
            viol.append(("import-lost", "a failed import cannot be retried: its import statement is gone (failure: %s), missing %s" % (
                core.describe(err), terms.show(want - after, 3))))
            break
        if missing and not fired:
            break
        if attempts > 6:
            viol.append(("stuck", "still failing after the faults healed: " + core.describe(err)))
            break
        ctl.fault = None
        ctl.fired = None
    for k, v in net.fired.items():
        st["fault:net_" + k] = v
    if scen["short"]:
        st["fault:short_reads"] = 1
    st["documents_fetched"] = fetched
    st["attempts"] = attempts
    seeds.random()
    return result(viol, ctl, st, canon=sorted(enc_all(g)), sig=digest(sorted(enc_all(g)), dig), nontrivial=fetched > 0,
                  sample={"docs": [(d["name"], d["imports"]) for d in scen["docs"]], "root": scen["root"]["imports"], "netfault": nf})


def reductions(scen):
    from ..run import default_reductions, shrink_list
    for key in ("fault", "netfault", "missing"):
        if scen.get(key) is not None:
            yield {k: v for k, v in scen.items() if k != key}
    if scen["short"]:
        yield dict(scen, short=0)
    for i, d in enumerate(scen["docs"]):
        for key in ("triples", "imports"):
            for ys, _, _ in shrink_list(d[key]):
                yield dict(scen, docs=scen["docs"][:i] + [dict(d, **{key: ys})] + scen["docs"][i + 1:])
    for key in ("triples", "imports"):
        for ys, _, _ in shrink_list(scen["root"][key]):
            yield dict(scen, root=dict(scen["root"], **{key: ys}))
    for i, d in enumerate(scen["docs"]):
        if d.get("rel"):
            yield dict(scen, docs=scen["docs"][:i] + [{k: v for k, v in d.items() if k != "rel"}] + scen["docs"][i + 1:])
    if len(scen["docs"]) > 1:
        yield dict(scen, docs=scen["docs"][:-1])
    for c in default_reductions({k: v for k, v in scen.items() if k != "docs"}):
        yield dict(c, docs=scen["docs"])
