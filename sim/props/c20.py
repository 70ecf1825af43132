"""C20: the web service answers every request with one complete response: the right graph, or an error page."""
import io
import os
import random
import runpy
import sys
import urllib.parse
import warnings

from .c14 import *  # noqa: F401,F403
from . import c14

RUNS = {"quick": 700, "thorough": 20000}
SPEC = {"rule": "Each run is one CGI request (GET, form post or multipart post; fields in any order, some repeated, hostile markup in some) to the "
                "service script behind a simulated network, standard streams and store, with one network or store fault in 35 % of the runs and "
                "an invalid request in 15 %. The response is parsed as an HTTP server would. Non-trivial: a response with a graph was judged, or "
                "a fault or invalid request was answered.",
        "stub": "network, standard streams, CGI environment (simio), store (SimStore)"}
MARK = "<script>x</script>"
TYPES = {"turtle": "text/turtle", "xml": "application/rdf+xml", "rdfxml": "application/rdf+xml", "json": "application/ld+json"}


def gen(rng, idx, tier):
    scen = c14.gen(rng, idx, tier)
    scen["cli"] = scen["maximal"] = scen["old_source"] = 0
    scen["flags"]["trim"] = 0
    scen["full"] = int(rng.random() < 0.12)
    if scen["full"]:
        scen["flags"] = dict(dict.fromkeys(scen["flags"], 0), owl=1, rdfs=1)
        scen["noise"] = [rng.choice(["axioms", "daxioms", "owlExtras"]) for _ in range(rng.choice([0, 1]))]
    if scen["iformat"] == "json":
        scen["iformat"] = "auto"
        scen["docs"] = [dict(d, fmt="turtle", name="http://sim/d%d.ttl" % i) for i, d in enumerate(scen["docs"])]
    for i, d in enumerate(scen["docs"]):
        if not d["name"].startswith("http"):
            last = d["name"].rsplit("/", 1)[-1]
            sfx = ".ttl" if d["name"] == "-" else "." + last.rsplit(".", 1)[1] if "." in last else ""
            d["name"] = "http://sim/d%d%s" % (i, sfx)
    scen["text"] = int(rng.random() < 0.5)
    scen["format"] = rng.choice(["turtle", "turtle", "xml", "json", "rdfxml", None])
    scen["method"] = rng.choice(["get", "post", "multipart"])
    scen["repeat"] = int(rng.random() < 0.15)
    scen["broken"] = rng.choice(["none", "text", "missing", "format"]) if rng.random() < 0.2 else None
    scen["hostile"] = int(rng.random() < 0.3)
    return scen


def effective(scen):
    return dict(scen["flags"])


def fields(scen, docs, text):
    """-> [(name, value)] of the form"""
    rng = random.Random(scen["spell"])
    f = scen["flags"]
    out = []
    n = len(scen["docs"])
    names = [scen["docs"][i]["name"] for i in dict.fromkeys(scen["sources"]) if i < n] or [scen["docs"][0]["name"]]
    slots = ["source_1", "source_2", "uri", "source"]
    rng.shuffle(slots)
    if scen["broken"] == "none" or c14.only_text(scen):
        names = []
    if scen["broken"] == "missing":
        names = names[:2] + ["http://sim/missing?" + (MARK if scen["hostile"] else "")]
    for nm, sl in zip(names, slots):
        out.append((sl, nm))
    if scen["broken"] == "text":
        out.append(("text", text + "\n:a :b %s ," % (MARK if scen["hostile"] else "")))
    elif scen["text"] and scen["broken"] != "none":
        out.append(("text", text))
    fmt = scen["format"]
    if scen["broken"] == "format":
        fmt = "n3" + (MARK if scen["hostile"] else "")
    if fmt is not None:
        out.append(("format", fmt))
    if scen["iformat"] != "auto" or rng.random() < 0.3:
        out.append(("iformat", scen["iformat"]))
    if scen["full"]:
        out.append(("fullClosure", "yes"))
        for k in scen["noise"]:
            out.append((k, "yes"))
    else:
        if rng.random() < 0.2:
            out.append(("fullClosure", "no"))
        for k, a in (("owl", "owlClosure"), ("rdfs", "rdfsClosure"), ("extras", "owlExtras"), ("axioms", "axioms"), ("daxioms", "daxioms")):
            if f[k]:
                out.append((a, "yes"))
            elif rng.random() < 0.3:
                out.append((a, "no" + (MARK if scen["hostile"] and rng.random() < 0.5 else "")))
    if scen["repeat"] and out:
        out.append(rng.choice(out))
    rng.shuffle(out)
    return out


def request(scen, docs, text):
    """-> (environ, body)"""
    fs = fields(scen, docs, text)
    env = {"GATEWAY_INTERFACE": "CGI/1.1", "SERVER_PROTOCOL": "HTTP/1.1", "SCRIPT_NAME": "/RDFConvertService", "QUERY_STRING": ""}
    if scen["method"] == "get":
        env["REQUEST_METHOD"] = "GET"
        env["QUERY_STRING"] = urllib.parse.urlencode(fs)
        return env, b""
    env["REQUEST_METHOD"] = "POST"
    if scen["method"] == "post":
        body = urllib.parse.urlencode(fs).encode()
        env["CONTENT_TYPE"] = "application/x-www-form-urlencoded"
    else:
        b = "simboundary"
        body = "".join("--%s\r\nContent-Disposition: form-data; name=\"%s\"\r\n\r\n%s\r\n" % (b, k, v) for k, v in fs).encode()
        body += ("--%s--\r\n" % b).encode()
        env["CONTENT_TYPE"] = "multipart/form-data; boundary=" + b
    env["CONTENT_LENGTH"] = str(len(body))
    return env, body


class Out(io.TextIOWrapper):
    def __init__(self):
        super().__init__(io.BytesIO(), encoding="utf8", write_through=True)

    def text(self):
        self.flush()
        return self.buffer.getvalue().decode("utf8")


def serve(scen, docs, text, ctl, net):
    """One request.  -> (exception that left the script, bytes on stdout, captured serialisations)"""
    boot.reset_ids("x")
    caught = []
    orig = Graph.serialize

    def spy(self, destination=None, format="turtle", *a, **k):
        was, ctl.armed = ctl.armed, False
        ts = {terms.enc3(t) for t in self.triples((None, None, None))}
        ctl.armed = was
        out = orig(self, destination, format, *a, **k)
        caught.append((ts, format, out))
        return out

    env, body = request(scen, docs, text)
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr, sys.excepthook, list(sys.path), dict(os.environ)
    uo, op = net.urlopen, net.open

    def count(f):
        def w(*a, **k):
            if len(net.opens) > 40:
                raise StepBudget("more than 40 documents requested")
            return f(*a, **k)
        return w

    net.urlopen, net.open = count(uo), count(op)
    err = None
    cap = Out()
    Graph.serialize = spy
    try:
        with net, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            os.environ.update(env)
            for k in ("CONTENT_TYPE", "CONTENT_LENGTH"):
                if k not in env:
                    os.environ.pop(k, None)
            sys.argv = ["RDFConvertService"]
            sys.stdin = io.TextIOWrapper(io.BytesIO(body), encoding="utf8")
            sys.stdout, sys.stderr = cap, io.StringIO()
            ctl.armed = True
            try:
                runpy.run_path(os.path.join(boot.REPO, "scripts", "RDFConvertService"), run_name="__main__")
            finally:
                ctl.armed = False
    except (Exception, StepBudget, KeyboardInterrupt, SystemExit) as e:
        if not (isinstance(e, SystemExit) and not e.code):
            err = e
    finally:
        Graph.serialize = orig
        sys.argv, sys.stdin, sys.stdout, sys.stderr, sys.excepthook = saved[:5]
        sys.path[:] = saved[5]
        os.environ.clear()
        os.environ.update(saved[6])
    return err, cap.text(), caught


def response(raw):
    """-> (status, headers, body) as a web server reads a CGI script's output; None if there is no header block"""
    raw = raw.replace("\r\n", "\n")
    head, sep, body = raw.partition("\n\n")
    if not sep:
        return None
    hs = {}
    for ln in head.split("\n"):
        k, c, v = ln.partition(":")
        if not c or " " in k.strip():
            return None
        hs[k.strip().lower()] = v.strip()
    if "content-type" not in hs:
        return None
    st = hs.get("status", "200 OK").split()[0]
    return int(st) if st.isdigit() else None, hs, body


def run(scen):
    viol, st = [], {}
    docs, text = docs_of(scen)
    f = effective(scen)
    profile = prof(f)
    inp, used = meaning(scen, docs, text)
    st["profile:%s" % profile] = 1
    st["method:" + scen["method"]] = 1
    cl = None
    if profile:
        try:
            cl = model.closure(sorted(inp), profile, bool(f["axioms"]), bool(f["daxioms"]), bool(f["rdfs"]), True)
        except (model.Malformed, model.ModelTooBig):
            return {"viol": [], "stats": {"outside_domain": 1}, "digest": "skip", "nontrivial": False}
        if core.lists_equated(cl):
            return {"viol": [], "stats": {"outside_domain": 1}, "digest": "skip", "nontrivial": False}
    at, fault = None, scen.get("fault")
    if fault:
        ctl = Ctl(scen["sched"])
        ctl.sites = {}
        serve(scen, docs, text, ctl, simio.World(docs, random.Random(scen["seed"]), None, scen["short"], ctl))
        if ctl.sites:
            at, _ = core.pick_op(ctl.sites, fault[1], fault[2])
    ctl = Ctl(scen["sched"])
    if at:
        ctl.fault = {"kind": fault[0], "at": at}
    nf = scen.get("netfault")
    faults = {}
    if nf and nf[0] < len(scen["docs"]):
        faults[scen["docs"][nf[0]]["name"]] = {"kind": nf[1], "frac": nf[2], "times": 1}
    net = simio.World(docs, random.Random(scen["seed"]), faults, scen["short"], ctl)
    err, raw, caught = serve(scen, docs, text, ctl, net)
    fired = ctl.fired is not None or any(k != "truncate" for k in net.fired)
    soft = "truncate" in net.fired
    for k, v in net.fired.items():
        st["fault:net_" + k] = v
    invalid = scen["broken"] in ("none", "text", "missing")
    if scen["broken"]:
        st["request:bad_" + scen["broken"]] = 1
    what = "%s request%s" % (scen["method"], " with a fault" if fired or soft else "")
    res = response(raw)
    if err is not None:
        viol.append(("no-answer", "%s: the service dies instead of answering: %s%s; so far it said %r" % (
            what, core.describe(err), where(err), raw[:80])))
    elif res is None or res[0] is None:
        viol.append(("no-answer", "%s: not a response: %r" % (what, raw[:100])))
    elif res[0] == 200:
        viol += success(scen, res, fired, soft, invalid, net, caught, used, cl, profile, inp, f, st)
        st["answer:graph"] = 1
    elif 400 <= res[0] < 600:
        st["answer:error_page"] = 1
        body = res[2]
        if not res[1]["content-type"].startswith("text/html") or "</html>" not in body.lower():
            viol.append(("half-answer", "%s: the error page is incomplete: %r" % (what, body[-100:])))
        if MARK in body:
            viol.append(("injection", "%s: what the request says ends up as markup in the error page" % what))
        if not (fired or soft or invalid):
            viol.append(("refused", "%s: a valid request is refused (%s): %r" % (what, f, body[:400])))
    else:
        viol.append(("status", "%s: status %d" % (what, res[0])))
    return result(viol, ctl, st, canon=(sorted(caught[-1][0]) if caught else None, str(type(err)), res and res[0]),
                  sig=digest(sorted(caught[-1][0]) if caught else None, scen["flags"], scen["format"], scen["broken"]),
                  nontrivial=bool(caught) or fired or invalid,
                  sample={"flags": scen["flags"], "method": scen["method"], "fields": [k for k, v in fields(scen, docs, text)],
                          "format": scen["format"], "fault": fault or nf, "broken": scen["broken"]})


def success(scen, res, fired, soft, invalid, net, caught, used, cl, profile, inp, f, st):
    viol = []
    fmt = scen["format"] or "turtle"
    if scen["broken"] == "format":
        fmt = "turtle"  # anything unknown: Turtle
    if invalid or fired:
        return [("swallowed", "a graph is served although %s" % (
            "the request is invalid (%s)" % scen["broken"] if invalid else "%s failed" % (dict(net.fired) or "a store operation")))]
    if not res[1]["content-type"].startswith(TYPES[fmt]):
        viol.append(("type", "format %s is served as %s" % (fmt, res[1]["content-type"])))
    if soft or not caught:
        return viol
    names = {scen["docs"][k]["name"] for k in used}
    if set(net.opens) - names:
        viol.append(("unneeded", "documents read that are no source and not to be imported: %s" % sorted(set(net.opens) - names)))
    ts, _, txt = caught[-1]
    if profile is None:
        if ts != inp:
            viol.append(("conversion", "plain conversion changed the graph: lost %s, new %s" % (terms.show(inp - ts, 3), terms.show(ts - inp, 3))))
    else:
        rest, msgs, bad = core.split_errors(ts, inp)
        viol += core.judge_closure(cl, rest, "fields %s -> %s closure: " % (f, profile))
        viol += core.explain_errors(cl, msgs) if profile != "rdfs" else []
    if isinstance(txt, bytes):
        txt = txt.decode("utf8")
    if res[2].strip() != txt.replace("\r\n", "\n").strip():
        viol.append(("output", "the body is not the serialised graph"))
    if not viol and not any(terms.is_lit(t[0]) or not plain(t) for t in ts):
        st["parsed_back"] = 1
        back = parse_back(res[2], fmt)
        if back is None or not same(back, ts):
            viol.append(("format", "the body is not the graph in format %s: %r" % (fmt, res[2][:100])))
    return viol


def reductions(scen):
    for k in ("broken", "hostile", "repeat"):
        if scen[k]:
            yield dict(scen, **{k: 0 if k != "broken" else None})
    if scen["method"] != "get":
        yield dict(scen, method="get")
    yield from c14.reductions(scen)
