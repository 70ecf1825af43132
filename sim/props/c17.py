"""C17: a restricted datatype has exactly the literals whose value satisfies every facet."""
import datetime
import itertools
import re
from fractions import Fraction

from .common import *  # noqa: F401,F403

RUNS = {"quick": 1300, "thorough": 30000}
SPEC = {"rule": "Each run draws one to three facet-restricted datatypes over one of the 31 base types (facets spread over one or several restriction "
                "nodes, repeated, contradictory, or in the destination graph), some twenty literals of the base type, its subtypes, other types and "
                "of the new datatypes themselves, some/all-values-from restrictions, a layout and a schedule; a fifth of the runs suffer a store "
                "fault and are repeated. Non-trivial: at least one literal satisfies and one violates a facet."}

INT = ["xsd:integer", "xsd:nonNegativeInteger", "xsd:nonPositiveInteger", "xsd:positiveInteger", "xsd:negativeInteger", "xsd:long", "xsd:int",
       "xsd:short", "xsd:byte", "xsd:unsignedLong", "xsd:unsignedInt", "xsd:unsignedShort", "xsd:unsignedByte"]
STR = ["xsd:string", "xsd:normalizedString", "xsd:token", "xsd:language", "xsd:Name", "xsd:NCName", "xsd:NMTOKEN"]
BASES = ["xsd:decimal"] + INT + ["xsd:double", "xsd:float", "xsd:dateTime", "xsd:dateTimeStamp", "xsd:date", "xsd:time", "xsd:hexBinary",
                                 "xsd:base64Binary", "xsd:anyURI"] + STR + ["rdf:PlainLiteral"] * 3
NUMLEX = ["0", "1", "4", "5", "6", "7", "10", "127", "-1", "-5", "-7", "05", "+5"]
DECLEX = ["2.5", "2.50", "0.1", "-0.1", "4.99", "5.0", "5", ".5", "100", "0"]
DBLLEX = ["0.1", "2.5", "1E2", "1e-1", "-3.25", "100", "0", "0.3", "0.30000000000000004", "1.0E0"]
DTLEX = ["2011-01-05T10:00:00", "2011-01-05T10:00:00Z", "2011-01-05T12:30:00+02:00", "2011-01-05T10:00:00.5Z", "2011-01-05T08:30:00-02:30",
         "2011-01-05T09:59:59Z", "2010-12-31T23:59:59", "2011-01-05T10:00:00.25", "2011-01-05T10:30:00Z", "2011-01-05T11:00:00"]
DATELEX = ["2011-01-05", "2011-01-06", "2010-12-31", "2011-02-01", "1999-01-05"]
TIMELEX = ["10:00:00", "10:00:01", "09:59:59", "23:59:59", "00:00:00", "10:00:00.5", "10:00:00Z", "12:00:00+02:00", "09:30:00Z"]
HEXLEX = ["0aff", "0A", "00", "0aff00", "ffffffff", "0AFF"]
B64LEX = ["aGVs", "aGVsbG8=", "aGU=", "aGVsbG8gd28=", "aA=="]
URILEX = ["http://a/b", "http://a/bc", "ftp://a/b", "http://b/c"]
STRLEX = ["a", "ab", "abc", "abcd", "Abc", "bcd", "en", "xyz", "abcabc"]
PLLEX = ["a@en", "ab@en-us", "abc@de", "ab@", "abc@en-gb", "x@y@en", "abc@fr-ca", "a@en-us-x-twain", "abcd@",
         "abc@en-latn-gb", "ab@en", "abc@de-latn-de-1996", "abc@en-x-gb"]
PATTERNS = ["a.c", "[a-z]+", "a", "[a-z]{2}", "ab.*", ".*c", "abc|bcd", "(abc)+"]
URIPAT = ["http:.*", "http", ".*/b", "[a-z]+://a/.*"]
RANGES = ["en", "*", "en-us", "en-*", "de", "*-gb", "fr", "EN", "En-GB", "EN-us", "DE-*", "en-*", "en-*-gb", "de-*-de", "*-*", "en-gb-*", "de-latn-*"]


def vspace(lex, dt):
    """(kind, value) - kinds compare only with themselves; None when ill-typed."""
    if dt == "xsd:decimal":
        return ("num", Fraction(lex)) if re.fullmatch(r"[+-]?(\d+(\.\d*)?|\.\d+)", lex) else None
    if dt in INT:
        v = model.lit_value('"%s"^^%s' % (lex, dt))
        return None if v[0] == "bad" else ("num", v[1])
    if dt in ("xsd:double", "xsd:float"):
        return ("num", Fraction(lex)) if re.fullmatch(r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?", lex) else None
    if dt in ("xsd:dateTime", "xsd:dateTimeStamp", "xsd:time"):
        d = "" if dt == "xsd:time" else r"\d{4}-\d\d-\d\dT"
        m = re.fullmatch(r"(%s\d\d:\d\d:\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)?" % d, lex)
        if not m or (dt == "xsd:dateTimeStamp" and not m.group(3)):
            return None
        t = datetime.datetime.fromisoformat(("2000-01-01T" if dt == "xsd:time" else "") + m.group(1))
        sec = Fraction((t - datetime.datetime(1970, 1, 1)) // datetime.timedelta(seconds=1)) + (Fraction("0" + m.group(2)) if m.group(2) else 0)
        z = m.group(3)
        if z and z != "Z":
            off = int(z[1:3]) * 3600 + int(z[4:6]) * 60
            sec -= off if z[0] == "+" else -off
        return (("time" if dt == "xsd:time" else "datetime") + ("z" if z else ""), sec)
    if dt == "xsd:date":
        return ("date", datetime.date.fromisoformat(lex).toordinal()) if re.fullmatch(r"\d{4}-\d\d-\d\d", lex) else None
    if dt == "xsd:hexBinary":
        return ("octets", bytes.fromhex(lex)) if re.fullmatch(r"([0-9a-fA-F]{2})*", lex) else None
    if dt == "xsd:base64Binary":
        import base64
        return ("octets", base64.b64decode(lex)) if re.fullmatch(r"([A-Za-z0-9+/]{4})*([A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?", lex) else None
    if dt == "rdf:PlainLiteral":
        return ("plain", tuple(lex.rsplit("@", 1))) if "@" in lex else None
    if dt in STR or dt == "xsd:anyURI" or dt is None:
        return ("str", lex)
    return None


def in_range(rng, tag):
    """RFC 4647 extended filtering."""
    r, t = rng.lower().split("-"), tag.lower().split("-")
    if not tag or not (r[0] == "*" or r[0] == t[0]):
        return False
    i = j = 1
    while i < len(r):
        if r[i] == "*":
            i += 1
        elif j >= len(t):
            return False
        elif r[i] == t[j]:
            i, j = i + 1, j + 1
        elif len(t[j]) == 1:
            return False
        else:
            j += 1
    return True


def fits(val, facets):
    """Does the value satisfy all facets?  None: it satisfies those it can be compared with."""
    res = True
    kind, v = val
    for f, x in facets:
        lex, dt, lang = terms.lit_parts(x)
        if f in ("xsd:minInclusive", "xsd:minExclusive", "xsd:maxInclusive", "xsd:maxExclusive"):
            k2, b = vspace(lex, dt)
            if k2 != kind:
                res = None
                continue
            if not {"minI": b <= v, "minE": b < v, "maxI": v <= b, "maxE": v < b}[f[4:8]]:
                return False
        elif f == "xsd:pattern":
            if not re.fullmatch(lex, v[0] if kind == "plain" else v):
                return False
        elif f == "rdf:langRange":
            if not in_range(lex, v[1]):
                return False
        else:
            n = len(v[0] if kind == "plain" else v)
            if not {"xsd:length": n == int(lex), "xsd:minLength": n >= int(lex), "xsd:maxLength": n <= int(lex)}[f]:
                return False
    return res


def lexes(dt):
    if dt in INT:
        return NUMLEX
    return {"xsd:decimal": DECLEX, "xsd:double": DBLLEX, "xsd:float": DBLLEX, "xsd:dateTime": DTLEX, "xsd:dateTimeStamp": [x for x in DTLEX
            if x[-1] == "Z" or x[-6] in "+-"], "xsd:date": DATELEX, "xsd:time": TIMELEX, "xsd:hexBinary": HEXLEX, "xsd:base64Binary": B64LEX,
            "xsd:anyURI": URILEX, "rdf:PlainLiteral": PLLEX}.get(dt, STRLEX)


def minmax(base):
    return base == "xsd:decimal" or base in INT or base[:8] in ("xsd:doub", "xsd:floa", "xsd:date", "xsd:time")


def draw_facet(rng, base):
    if minmax(base):
        f = rng.choice(["xsd:minInclusive", "xsd:minExclusive", "xsd:maxInclusive", "xsd:maxExclusive"])
        fam = [base]
        if base in INT or base == "xsd:decimal":
            fam += ["xsd:integer", "xsd:decimal", "xsd:int"]
        d = rng.choice(fam)
        for _ in range(20):
            lex = rng.choice(lexes(d))
            if vspace(lex, d) is not None:
                return [f, '"%s"^^%s' % (lex, d)]
        return [f, '"5"^^xsd:integer']
    opts = ["xsd:length", "xsd:minLength", "xsd:maxLength"]
    if base not in ("xsd:hexBinary", "xsd:base64Binary"):
        opts += ["xsd:pattern"] * 2
    if base == "rdf:PlainLiteral":
        opts += ["rdf:langRange"] * 4
    f = rng.choice(opts)
    if f == "xsd:pattern":
        return [f, '"%s"%s' % (rng.choice(URIPAT if base == "xsd:anyURI" else PATTERNS), rng.choice(["", "^^xsd:string"]))]
    if f == "rdf:langRange":
        return [f, '"%s"' % rng.choice(RANGES)]
    n = rng.choice([9, 10]) if base == "xsd:anyURI" else rng.choice([1, 2, 3, 3, 4])
    return [f, '"%d"^^%s' % (n, rng.choice(["xsd:integer", "xsd:nonNegativeInteger", "xsd:int"]))]


def kind_of(l):
    return vspace(*terms.lit_parts(l)[:2])[0]


def subtypes(base):
    return [d for d, sups in model.SUBS.items() if base in sups]


def gen(rng, idx, tier):
    scen = {"profile": rng.choice(["ext", "ext", "trim"]), "kind": rng.choice(["graph", "graph", "ds", "gdest", "dsdest", "dsdestg"]),
            "rdfs": int(rng.random() < 0.2), "sched": core.random_sched(rng)}
    base = BASES[idx % len(BASES)]
    defs = []
    for k in range(rng.choice([1, 1, 2, 3])):
        b = base if k == 0 or rng.random() < 0.6 else rng.choice(BASES)
        nodes = [[draw_facet(rng, b) for _ in range(rng.choice([1, 1, 1, 2]))] for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
        kinds = {}
        for fs in nodes:  # bounds that cannot be compared with each other are refused with a report: outside the domain
            fs[:] = [x for x in fs if x[0][:7] not in ("xsd:min", "xsd:max") or x[0].endswith("Length")
                     or kinds.setdefault(x[0], kind_of(x[1])) == kind_of(x[1])]
        nodes = [fs for fs in nodes if fs]
        if nodes and rng.random() < 0.15:
            nodes.append(list(nodes[0]))
        defs.append({"uri": ":T%d" % k if rng.random() < 0.9 else "_:T%d" % k, "base": b, "nodes": nodes})
    scen["defs"] = defs
    lits = []
    for d in defs:
        fam = [d["base"]] * 3 + subtypes(d["base"])
        for _ in range(rng.choice([3, 5, 7])):
            t = rng.choice(fam)
            lex = rng.choice(lexes(t))
            if vspace(lex, t) is not None:
                lits.append([":p%d" % rng.randrange(2), '"%s"^^%s' % (lex, t)])
        if d["uri"][0] == ":" and rng.random() < 0.5:
            for _ in range(rng.choice([1, 2])):
                lex = rng.choice(lexes(d["base"]))
                if vspace(lex, d["base"]) is not None:
                    lits.append([":p%d" % rng.randrange(2), '"%s"^^%s' % (lex, d["uri"])])
    t = rng.choice(BASES)
    lex = rng.choice(lexes(t))
    if vspace(lex, t):
        lits.append([":p0", '"%s"^^%s' % (lex, t)])
    if rng.random() < 0.3:
        lits.append([":p1", rng.choice(['"abc"', '"abc"@en', '"5"'])])
    scen["lits"] = [list(x) for x in dict.fromkeys((":i%d" % rng.randrange(6), p, l) for p, l in lits)]
    scen["svf"] = [[k, ":p%d" % rng.randrange(2)] for k in range(len(defs)) if rng.random() < 0.5]
    scen["avf"] = [[k, ":p%d" % rng.randrange(2), ":i%d" % rng.randrange(6)] for k in range(len(defs)) if rng.random() < 0.25]
    n = len(build(scen))
    scen["order"] = rng.sample(range(n), n)
    scen["place"] = [rng.choice([0, 0, 1, 2, 3] if scen["kind"] in ("gdest", "dsdest", "dsdestg") else [0, 0, 1, 2]) for _ in range(n)]
    if rng.random() < 0.2:
        scen["rdfs"] = 0  # (a repeated RDFS expansion may identify literals of equal value, see C15)
        scen["fault"] = [rng.choice(sorted(set(FAULTS) - {"crash"})), round(rng.random(), 4), round(rng.random(), 4)]
    return scen


def build(scen):
    out = []
    for k, d in enumerate(scen["defs"]):
        out += [[d["uri"], "rdf:type", "rdfs:Datatype"], [d["uri"], "owl:onDatatype", d["base"]]]
        cells = ["_:l%d_%d" % (k, i) for i in range(len(d["nodes"]))] + ["rdf:nil"]
        out.append([d["uri"], "owl:withRestrictions", cells[0]])
        for i, fs in enumerate(d["nodes"]):
            out += [[cells[i], "rdf:first", "_:r%d_%d" % (k, i)], [cells[i], "rdf:rest", cells[i + 1]]]
            out += [["_:r%d_%d" % (k, i), f, x] for f, x in fs]
    out += [list(x) for x in scen["lits"]]
    for k, p in scen["svf"]:
        if k < len(scen["defs"]):
            out += [[":S%d" % k, "owl:onProperty", p], [":S%d" % k, "owl:someValuesFrom", scen["defs"][k]["uri"]]]
    for k, p, i in scen["avf"]:
        if k < len(scen["defs"]):
            out += [[":A%d" % k, "owl:onProperty", p], [":A%d" % k, "owl:allValuesFrom", scen["defs"][k]["uri"]], [i, "rdf:type", ":A%d" % k]]
    return [list(x) for x in dict.fromkeys(map(tuple, out))]


def run(scen):
    ts = build(scen)
    order, place = scen["order"], scen["place"]
    if len(order) != len(ts):
        order = list(range(len(ts)))
        place = [0] * len(ts)
    full = dict(scen, triples=[ts[i] for i in order], place=[place[i] for i in order])
    inp = {tuple(t) for t in full["triples"]}
    viol, st = [], {"base:" + scen["defs"][0]["base"]: 1, "layout:" + scen["kind"]: 1, "profile:" + scen["profile"]: 1} if scen["defs"] else {}
    w = World(full)
    fault = scen.get("fault")
    if fault:
        n, sites = core.census(full)
        at, site = core.pick_op(sites, fault[1], fault[2])
        w.ctl.fault = {"kind": fault[0], "at": at}
        try:
            w.expand()
        except INJECTED:
            pass
        except KeyboardInterrupt:
            pass
        w.ctl.fault = None
    try:
        w.expand()
    except (Exception, StepBudget) as e:
        return result([crash_viol(e)], w.ctl, st)
    got = w.context(w.target) | inp
    rest, msgs, bad = core.split_errors(got, inp)
    defs = {d["uri"]: d for d in scen["defs"]}
    olits = sorted({t[2] for t in inp if terms.is_lit(t[2])})
    sat = vio = 0
    expect_err = []
    avf = [(scen["defs"][k]["uri"], p, i) for k, p, i in scen["avf"] if k < len(scen["defs"])]
    inst = {}
    for u, d in sorted(defs.items()):
        facets = list(itertools.chain(*d["nodes"]))
        family = [d["base"]] + subtypes(d["base"])
        for l in olits:
            lex, dt, lang = terms.lit_parts(l)
            is_t = (l, "rdf:type", u) in rest
            forced = any(p2 == p and i2 == i and o == l for (u2, p, i) in avf if u2 == u for (i2, p2, o) in rest)
            if dt == u:
                v = vspace(lex, d["base"])
                ok = v is not None and fits(v, facets)
                want = True
                if not ok:
                    expect_err.append((lex, u))
            elif dt in defs:
                # a literal of another restricted datatype: a member if its value qualifies, the library need not find out
                v = vspace(lex, defs[dt]["base"])
                ok = v is not None and d["base"] in [defs[dt]["base"]] + model.SUBS.get(defs[dt]["base"], []) and fits(v, facets)
                want = None if ok or forced else False
                if not ok and forced:
                    want = None
            elif dt in family and lang is None:
                v = vspace(lex, dt)
                ok = v is not None and fits(v, facets)
                want = bool(ok)
                if forced and ok is None:
                    want = None  # the all-values-from rule documents that it gives such values the benefit of the doubt
                elif forced and not ok:
                    expect_err.append((lex, u))
                sat, vio = sat + bool(ok), vio + (not ok)
            else:
                want = None if forced else False
                ok = None
            if want is True and not is_t:
                viol.append(("missing", "%s satisfies %s of %s but is not of type %s" % (l, facets, d["base"], u)))
            if want is False and is_t:
                viol.append(("unsound", "%s does not satisfy %s of %s but is of type %s" % (l, facets, d["base"], u)))
            inst.setdefault(u, set())
            if is_t:
                inst[u].add(l)
    for k, p in scen["svf"]:
        if k >= len(scen["defs"]):
            continue
        u = scen["defs"][k]["uri"]
        for s, p2, o in sorted(inp):
            if p2 == p and s.startswith(":i"):
                has = any((s, p, l) in rest for l in inst[u])
                typed = (s, "rdf:type", ":S%d" % k) in rest
                if has != typed:
                    viol.append(("missing" if has else "unsound", "someValuesFrom %s on %s: %s is %san instance, values %s" % (
                        u, p, s, "" if typed else "not ", [x[2] for x in sorted(inp) if x[0] == s and x[1] == p])))
    for lex, dt in expect_err:
        if not any(lex in m and core.raw(dt) in m for m in msgs):
            viol.append(("error-missed", "no report for %s outside %s; reports: %s" % (lex, dt, msgs[:4])))
    if msgs and not expect_err and not any(forced_other(scen, avf, inp, defs)):
        viol.append(("error-spurious", "reports although no literal violates anything: %s" % msgs[:3]))
    st["members"], st["nonmembers"] = sat, vio
    return result(viol[:6], w.ctl, st, canon=(sorted(rest), sorted(msgs)), sig=digest(sorted(inp)), nontrivial=sat > 0 and vio > 0,
                  sample={"defs": scen["defs"], "lits": scen["lits"][:6], "kind": scen["kind"], "fault": fault})


def forced_other(scen, avf, inp, defs):
    """Values an all-values-from restriction pushes into a datatype of another family: the library may report them."""
    for u, p, i in avf:
        for i2, p2, o in inp:
            if i2 == i and p2 == p:
                yield True


def reductions(scen):
    def drop(key, k):
        c = dict(scen)
        c[key] = scen[key][:k] + scen[key][k + 1:]
        return c
    for key in ("lits", "avf", "svf"):
        for k in range(len(scen[key])):
            yield drop(key, k)
    if len(scen["defs"]) > 1:
        c = dict(scen)
        c["defs"] = scen["defs"][:-1]
        yield c
    for i, d in enumerate(scen["defs"]):
        for k in range(len(d["nodes"])):
            c = dict(scen)
            c["defs"] = [dict(x) for x in scen["defs"]]
            c["defs"][i]["nodes"] = d["nodes"][:k] + d["nodes"][k + 1:]
            yield c
        for k in range(len(d["nodes"])):
            if len(d["nodes"][k]) > 1:
                c = dict(scen)
                c["defs"] = [dict(x) for x in scen["defs"]]
                c["defs"][i]["nodes"] = d["nodes"][:k] + [d["nodes"][k][:1]] + d["nodes"][k + 1:]
                yield c
    if scen.get("fault"):
        c = dict(scen)
        c.pop("fault")
        yield c
    if scen["sched"]["mode"] != "none":
        yield dict(scen, sched={"mode": "none"})
    if scen["kind"] != "graph":
        yield dict(scen, kind="graph")
