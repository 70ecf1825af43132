"""C19: user-defined semantics (subclasses with rules, hooks, datatypes) take part in the closure like the built-in ones."""
from .closure import *  # noqa: F401,F403
from ..simlock import SimDeadlock
from owlrl.Closure import Core
import owlrl
from owlrl.OWLRL import OWL_RL_Datatypes
from owlrl.XsdDatatypes import OWL_Datatype_Subsumptions

RUNS = {"quick": 420, "thorough": 12000}
SPEC = {"rule": GRAPH_RULE + "A semantics class is put together from seeded parts (base class or bare Core, extra rules, one-time rules, axioms, checks, "
                             "pre/post processing, typing veto, new datatypes, trimming mix-in); some user rules raise an exception and the expansion is "
                             "repeated. Non-trivial: a user-defined rule derived something that built-in rules build on or vice versa."}
RULES = [
    "u1: ?x :u1 ?y ; ?y :u1 ?z -> ?x :u2 ?z",
    "u2: ?x :u2 ?y -> ?y rdf:type :C0",
    "u3: ?x rdf:type :C1 ; ?x :p0 ?y -> ?x :u1 ?y",
    "u4: ?x owl:sameAs ?y ; ?x :u2 ?z -> ?z :u3 ?y",
    "u5: ?c rdfs:subClassOf ?d ; ?x rdf:type ?c -> ?x :u3 ?d",
    "u6: ?x :p0 ?y -> ?x :p1 ?y",
    "u7: ?x :u3 ?y -> ?y :u1 ?x",
    "u9: ?p rdfs:domain ?c -> ?p :u2 ?c",
    "u10: ?x :p0 ?y ; ?y :p1 ?z -> ?x :u1 ?z",
    "u11: ?x :sub ?y -> ?x rdfs:subClassOf ?y",
    "u12: ?x :u1 ?y -> :u1 rdf:type owl:SymmetricProperty",
    "u13: ?x rdf:type :C0 -> ?x :p0 :a0",
    "u14: ?x :u1 ?y -> ?x :sub ?y",
    "u15: ?x :p0 ?y ; ?x :p1 ?y -> :p0 rdfs:subPropertyOf :p1",
]
ERRS = ["ux1: ?x rdf:type :C0 ; ?x rdf:type :C1 -> ERR ?x", "ux2: ?x :u1 ?x -> ERR ?x", "ux3: ?x :u2 ?y ; ?y :u2 ?x -> ERR ?x ?y"]
SEEDS = [(":a0", ":u1", ":a1"), (":a1", ":u1", ":a2"), (":a0", ":p0", ":a1"), (":a0", "rdf:type", ":C1"), (":C0", ":sub", ":C1"), (":a1", ":u2", ":a0"),
         (":a0", ":ot", ":a1"), (":a1", ":p1", ":a2"), (":u1", "rdfs:range", ":C0"), (":u2", "rdfs:subPropertyOf", ":p0"), (":u1", "owl:inverseOf", ":p1"),
         (":C0", "rdfs:subClassOf", ":C2"), (":u3", "rdf:type", "owl:TransitiveProperty"), (":a0", "owl:sameAs", ":a2"), (":u1", "rdfs:domain", ":C1"),
         (":ot2", "rdfs:subPropertyOf", ":u1"), (":a2", ":ot", ":a0")]
USED = {"u1": ["u3", "u10"], "u2": ["u1"]}
EVEN, SHORT = ":even", ":code"
DT = {EVEN: (["xsd:integer", "xsd:decimal"], lambda s: s.lstrip("-").isdigit() and int(s) % 2 == 0), SHORT: (["xsd:string"], lambda s: 0 < len(s) <= 3)}
# a new datatype above built-in ones: it is registered under the keys of those
WIDE = ":wide"
ABOVE = {"xsd:byte": model.SUBS["xsd:byte"] + [WIDE], "xsd:token": ["xsd:normalizedString", "xsd:string", WIDE]}
DT[WIDE] = ([], lambda s: len(s) < 9)


class UserError(Exception):
    pass


# what application code really raises
BOOMS = [UserError] + [type("User" + b.__name__, (UserError, b), {}) for b in (
    KeyError, ValueError, AttributeError, TypeError, IndexError, RuntimeError, AssertionError, OSError, ArithmeticError)]


def gen(rng, idx, tier):
    base = ["owl", "rdfs", "comb", "ext", "trim", "core", "mixin"][idx % 7]
    profile = {"mixin": "trim"}.get(base, base)
    pool = G.RDFS_GADGETS if profile in ("rdfs", "core") else G.OWL_GADGETS + (G.EXT_GADGETS if profile in ("ext", "trim") else [])
    for _ in range(12):
        spec = {"base": base, "rules": sorted(rng.sample(range(len(RULES)), rng.choice([1, 2, 3, 4]))),
                "errs": [i for i in range(len(ERRS)) if rng.random() < 0.3], "first": int(rng.random() < 0.4),
                "once": int(rng.random() < 0.4), "pre": int(rng.random() < 0.4), "post": int(rng.random() < 0.4 and base != "mixin"),
                "posterr": int(rng.random() < 0.3 and base != "mixin"), "axiom": int(rng.random() < 0.4),
                "veto": [":C0"] if rng.random() < 0.3 and base not in ("core", "rdfs") else [],
                "dt": [d for d in (EVEN, SHORT, WIDE) if rng.random() < 0.4] if profile in ("comb", "ext", "trim") else [],
                "bind": int(profile in ("comb", "ext", "trim") and rng.random() < 0.3), "xax": int(profile in ("ext", "trim") and rng.random() < 0.3)}
        if rng.random() < 0.2:
            spec["nest"] = rng.choice(["pre", "once", "rules", "post"])  # user code that itself expands another graph
        scen = {"profile": profile, "user": spec, "ax": int(rng.random() < 0.2), "dax": int(rng.random() < 0.15),
                "rdfs": int(rng.random() < 0.3), "improved": 1, "kind": rng.choice(KINDS)}
        ts = [tuple(t) for t in G.graph(rng, pool, first=pool[(idx // 7) % len(pool)], n=rng.choice([1, 1, 2, 3]), bad=0.03)]
        ts += rng.sample(SEEDS, rng.choice([2, 3, 4, 5]))
        for d in spec["dt"]:
            for l in rng.sample(["2", "3", "-4", "10", "abc", "x"], 2):
                ts.append((":a%d" % rng.randrange(3), ":p%d" % rng.randrange(2), '"%s"^^%s' % (l, d)))
            if d == WIDE:
                ts.append((":a%d" % rng.randrange(3), ":p0", rng.choice(['"7"^^xsd:byte', '"abc"^^xsd:token', '"7"^^xsd:short'])))
        ts = list(dict.fromkeys(ts))
        rng.shuffle(ts)
        scen["triples"] = [list(t) for t in ts]
        try:
            c = model_for(scen)
        except (model.Malformed, model.ModelTooBig):
            continue
        if len(c.hi) <= 330 + (400 if scen["ax"] or scen["dax"] else 0) and not core.lists_equated(c):
            break
    if scen["kind"].startswith("ds"):
        scen["place"] = core.place(rng, scen["triples"])
    scen["sched"] = core.random_sched(rng)
    if rng.random() < 0.25:
        scen["boom"] = [rng.choice(["rules", "rules", "rules", "pre", "once", "post"]), rng.choice([1, 3, 20, 100, 400]), rng.randrange(len(BOOMS))]
    return scen


# with datatype axioms the RDFS typing of literals looks at the graph before what pre_process stored is in it, so no literal then
PRE = [(":pre", ":u1", ":a0"), (":pre", ":ot", ":a1"), (":pre", ":p0", '"6"^^xsd:byte')]


BIND, XAX = (":C0", "owl:equivalentClass", ":C3"), (":C2", "rdfs:subClassOf", ":C3")  # more full_binding_triples, extra_axioms


def pre_triples(scen):
    return PRE[:2] if scen["dax"] else PRE


def user_base(scen):
    """(triples there from the start on, results of one-time rules, triples stored after the fixpoint)"""
    u = scen["user"]
    out = set(pre_triples(scen)) if u["pre"] else set()
    if u["axiom"] and scen["ax"]:
        out.add((":C1", "rdfs:subClassOf", ":C3"))
    if u.get("xax") and scen["ax"]:
        out.add(XAX)
    once = set()
    if u["once"]:
        once = {(s, ":ot2", o) for s, p, o in [tuple(t) for t in scen["triples"]] + sorted(out) if p == ":ot"}
    if u.get("bind"):
        once.add(BIND)
    return out, once, {(":done", ":by", ":post")} if u["post"] else set()


def model_for(scen):
    u = scen["user"]
    return core.model_of(scen, scen["triples"] + sorted(user_base(scen)[0]), extra_rules="\n".join(RULES[i] for i in u["rules"]),
                         extra_errors="\n".join(ERRS[i] for i in u["errs"]) or None, extra_base=user_base(scen)[1], veto=u["veto"],
                         dtypes={d: DT[d] for d in u["dt"]}, subsume=ABOVE if WIDE in u["dt"] else None, limit=3000)


def _atoms(txt):
    return [tuple(x if x[0] == "?" else terms.dec(x) for x in a.split()) for a in txt.split(";")]


def _match(atom, t, env):
    env = dict(env)
    for a, x in zip(atom, t):
        if isinstance(a, str) and not isinstance(a, rdflib.term.Identifier):
            if a in env:
                if env[a] != x:
                    return None
            else:
                env[a] = x
        elif a != x:
            return None
    return env


def _solve(graph, atoms, env):
    if not atoms:
        yield env
        return
    pat = [env.get(a) if isinstance(a, str) and not isinstance(a, rdflib.term.Identifier) else a for a in atoms[0]]
    if any(isinstance(x, rdflib.Literal) for x in pat[1:2]):
        return
    for t in graph.triples(tuple(pat)):
        e = _match(atoms[0], t, env)
        if e is not None:
            yield from _solve(graph, atoms[1:], e)


def make_class(scen, log, boom=None, boom_fired=None):
    u = scen["user"]
    rules = []
    for i in u["rules"]:
        l, r = RULES[i].split(": ", 1)[1].split("->")
        rules.append((_atoms(l), _atoms(r), None))
    for i in u["errs"]:
        l, r = ERRS[i].split(": ", 1)[1].split("->")
        rules.append((_atoms(l), None, r.split()[1:]))
    B = Core if u["base"] == "core" else core.CLS["ext" if u["base"] == "mixin" else u["base"]]
    left = [boom[1] if boom else 0]
    nested = []

    def tick(where):
        if u.get("nest") == where and not nested:
            nested.append(1)
            g = rdflib.Graph()
            g.add(terms.dec3((":a0", ":p0", ":a1")))
            g.add(terms.dec3((":p0", "rdfs:domain", ":C0")))
            owlrl.DeductiveClosure(owlrl.RDFS_OWLRL_Semantics if len(scen["triples"]) % 2 else owlrl.RDFS_Semantics).expand(g)
            log.append("nest" if terms.dec3((":a0", "rdf:type", ":C0")) in g else "nest-wrong")
        if boom and boom[0] == where:
            left[0] -= 1
            if left[0] <= 0:
                boom_fired.append(where)
                raise BOOMS[boom[2] if len(boom) > 2 else 0]("the application's own code fails")

    class Mine(B):
        if u.get("bind"):
            full_binding_triples = B.full_binding_triples + [terms.dec3(BIND)]
        if u.get("xax"):
            extra_axioms = B.extra_axioms + [terms.dec3(XAX)]

        def __init__(self, *args, **kw):
            B.__init__(self, *args, **kw)
            for d in u["dt"]:
                if d == WIDE:
                    for k in sorted(ABOVE):
                        self.add_new_datatype(terms.dec(d), convert(d), [] if k == "xsd:token" else OWL_RL_Datatypes, OWL_Datatype_Subsumptions,
                                              terms.dec(k), [terms.dec(x) for x in ABOVE[k]])
                    continue
                self.add_new_datatype(terms.dec(d), convert(d), OWL_RL_Datatypes, subsumption_dict=OWL_Datatype_Subsumptions,
                                      subsumption_key=terms.dec(d) if d == EVEN else None, subsumption_list=[terms.dec(x) for x in DT[d][0]])

        def apply(self, t):
            for body, heads, err in rules:
                env = _match(body[0], t, {})
                if env is None:
                    continue
                for e in _solve(self.graph, body[1:], env):
                    if heads is None:
                        self.add_error("application check on %s" % " ".join(str(e[v]) for v in err))
                    else:
                        for h in heads:
                            self.store_triple(tuple(e[x] if isinstance(x, str) and not isinstance(x, rdflib.term.Identifier) else x for x in h))

        def rules(self, t, cycle_num):
            tick("rules")
            if not log or log[-1] != ("cycle", cycle_num):
                log.append(("cycle", cycle_num))
            if u["first"]:
                self.apply(t)
            if B is not Core:
                B.rules(self, t, cycle_num)
            if not u["first"]:
                self.apply(t)

        def pre_process(self):
            log.append("pre")
            tick("pre")
            B.pre_process(self)
            if u["pre"]:
                for t in pre_triples(scen):
                    self.store_triple(terms.dec3(t))

        def one_time_rules(self):
            log.append("once")
            tick("once")
            B.one_time_rules(self)
            if u["once"]:
                for s, p, o in self.graph.triples((None, terms.dec(":ot"), None)):
                    self.store_triple((s, terms.dec(":ot2"), o))

        def add_axioms(self):
            log.append("axioms")
            if B is not Core:
                B.add_axioms(self)
            if u["axiom"]:
                self.destination.add(terms.dec3((":C1", "rdfs:subClassOf", ":C3")))

        def add_d_axioms(self):
            log.append("daxioms")
            if B is not Core:
                B.add_d_axioms(self)

        if u["veto"]:
            def restriction_typing_check(self, v, t):
                return terms.enc(t) not in u["veto"] and B.restriction_typing_check(self, v, t)

        if u["base"] != "mixin":
            def post_process(self):
                log.append("post")
                tick("post")
                B.post_process(self)
                if u["post"]:
                    self.store_triple(terms.dec3((":done", ":by", ":post")))
                if u["posterr"]:
                    self.add_error("application check after the end")
                    self.add_error("application check after the end")

    if u["base"] != "mixin":
        return Mine

    class Mixed(Mine, owlrl.OWLRL_Extension_Trimming):
        """As documented: an extension of OWLRL_Extension with the trimming class mixed in."""

    return Mixed


def convert(d):
    def f(s):
        if not DT[d][1](s):
            raise ValueError("no " + d)
        return s
    return f


def check_log(scen, log):
    want = ["pre"] + (["axioms"] if scen["ax"] else []) + (["daxioms"] if scen["dax"] else []) + ["once"]
    if "nest-wrong" in log:
        return "an expansion made by user code has a wrong result"
    log = [x for x in log if x != "nest"]
    cyc = [x for x in log if isinstance(x, tuple)]
    rest = [x for x in log if not isinstance(x, tuple)]
    if scen["user"]["base"] != "mixin":
        want = want + ["post"]
    if rest != want:
        return "hooks called as %s, documented order is %s" % (rest, want)
    if [n for _, n in cyc] != list(range(1, len(cyc) + 1)):
        return "cycle numbers %s" % [n for _, n in cyc][:20]
    i = log.index("once")
    if any(isinstance(x, tuple) for x in log[:i]) or (scen["user"]["base"] != "mixin" and isinstance(log[-1], tuple)):
        return "rules outside the cycles: %s" % log[:20]
    return None


def engine(scen, cls):
    return owlrl.DeductiveClosure(cls, rdfs_closure=bool(scen["rdfs"]), axiomatic_triples=bool(scen["ax"]), datatype_axioms=bool(scen["dax"]))


def tables():
    from owlrl import DatatypeHandling as D
    return (len(OWL_RL_Datatypes), sorted(map(str, OWL_RL_Datatypes)), sorted((str(k), sorted(map(str, v))) for k, v in OWL_Datatype_Subsumptions.items()),
            sorted(map(str, D.AltXSDToPYTHON)))


def run(scen):
    u = scen["user"]
    viol, st = [], {"base:" + u["base"]: 1, "layout:" + scen["kind"]: 1}
    try:
        cl = model_for(scen)
    except (model.Malformed, model.ModelTooBig):
        return {"viol": [], "stats": {"outside_domain": 1}, "digest": "skip", "nontrivial": False}
    w = World(scen)
    before = w.by_context()
    tab = tables()
    given = set().union(*before.values()) if before else set()
    failed = False
    if scen.get("boom"):
        log, fired = [], []
        try:
            w.expand(engine(scen, make_class(scen, log, scen["boom"], fired)))
        except UserError:
            failed = True
            st["fault:user_exception"] = 1
        except (Exception, StepBudget, SimDeadlock) as e:
            return result([crash_viol(e)], w.ctl, st)
        after = w.by_context()
        if tables() != tab:
            viol.append(("leak", "datatype tables differ after the application's rule raised"))
        for c in before:
            lost = {t for t in before[c] - after.get(c, set()) if not (scen["profile"] == "trim" and not failed)}
            if lost:
                viol.append(("lost", "after an exception in user code: %s lost from %s" % (terms.show(lost, 3), c)))
        if fired and not failed:
            viol.append(("swallowed", "the exception of the application's own code in %s does not reach the application" % fired[0]))
        bad = set().union(*after.values()) - cl.hi - cl.input - user_base(scen)[2]
        bad = {t for t in bad if not (terms.is_bn(t[1]) or t[1] == "err:error" or t[2] == "err:ErrorMessage")}
        if bad and not (scen["profile"] == "trim"):
            viol.append(("unsound", "after an exception in user code: %s" % terms.show(bad, 4)))
        w = World(scen)  # the application tries again on what it had
    log = []
    try:
        w.expand(engine(scen, make_class(scen, log)))
    except (Exception, StepBudget, SimDeadlock) as e:
        return result([crash_viol(e)], w.ctl, st)
    if tables() != tab:
        viol.append(("leak", "datatype tables differ after the expansion: the user's datatypes stay registered"))
    p = check_log(scen, log)
    if p:
        viol.append(("protocol", p))
    target = str(w.target.identifier)
    after = w.by_context()
    other = set()
    for c in set(before) | set(after):
        if c != target:
            other |= after.get(c, set())
            if before.get(c, set()) != after.get(c, set()):
                viol.append(("source-changed", "graph %s changed" % c))
    got = after.get(target, set())
    rest, msgs, bad = core.split_errors(got, before.get(target, ()))
    if bad:
        viol.append(("error-shape", str(bad[:2])))
    _, _, post = user_base(scen)
    if post - rest:
        viol.append(("missing", "triples stored by post_process are not in the result"))
    rest -= post
    end = [m for m in msgs if m == "application check after the end"]
    if len(end) != u["posterr"]:
        viol.append(("error-missed" if u["posterr"] else "error-spurious", "%d reports for the error added by post_process" % len(end)))
    msgs = [m for m in msgs if m not in end]
    if len(set(msgs)) != len(msgs):
        viol.append(("error-dup", "the same message is reported more than once: %s" % sorted(msgs)[:4]))
    miss = cl.lo - rest - other
    if scen["kind"] in ("gdest", "dsdest", "dsdestg", "dsdeststr"):
        miss -= given
    if miss:
        viol.append(("missing", "%d derivable triple(s) missing: %s" % (len(miss), terms.show(miss, 4))))
    extra = rest - cl.hi
    if scen["profile"] != "trim":
        extra -= given
    if extra:
        viol.append(("unsound", "%d triple(s) not entailed: %s" % (len(extra), terms.show(extra, 4))))
    viol += core.explain_errors(cl, msgs)
    fired = sum(v for k, v in cl.fired.items() if k.startswith("u"))
    st["user_rule_derivations"] = fired
    st["reports"] = len(msgs)
    return result(viol, w.ctl, st, canon=(sorted(rest), sorted(msgs), log), sig=digest(sorted(cl.lo)), nontrivial=fired > 0 and len(cl.lo - cl.input) > fired,
                  sample={"user": u, "triples": scen["triples"][:8], "kind": scen["kind"], "boom": scen.get("boom")})


def reductions(scen):
    from ..run import default_reductions
    u = scen["user"]
    if scen.get("boom"):
        c = dict(scen)
        c.pop("boom")
        yield c
    for k in ("rules", "errs", "veto", "dt"):
        for i in range(len(u[k])):
            yield dict(scen, user=dict(u, **{k: u[k][:i] + u[k][i + 1:]}))
    for k in ("once", "pre", "post", "posterr", "axiom", "first", "bind", "xax", "nest"):
        if u.get(k):
            yield dict(scen, user=dict(u, **{k: 0}))
    yield from default_reductions(scen)
