"""Term coding shared by scenarios, the model and reports: one short string per RDF term.

  <iri>            URIs of the well-known vocabularies are written as prefixed names (rdf:type); http://x/ as ":name"
  _:id             blank node
  "lex"^^dt, "lex"@lang, "lex"
"""
from rdflib import BNode, Literal, URIRef

PREFIX = {
    "rdf:": "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
    "rdfs:": "http://www.w3.org/2000/01/rdf-schema#",
    "owl:": "http://www.w3.org/2002/07/owl#",
    "xsd:": "http://www.w3.org/2001/XMLSchema#",
    "err:": "http://www.daml.org/2002/03/agents/agent-ont#",
    ":": "http://x/",
}
_CACHE = {}
_DEC = {}


def enc_iri(u):
    for p, b in PREFIX.items():
        if u.startswith(b):
            rest = u[len(b):]
            if "/" not in rest and "#" not in rest and ":" not in rest:
                return p + rest
    return "<" + u + ">"


def dec_iri(s):
    if s[0] == "<":
        return s[1:-1]
    i = s.index(":") + 1
    return PREFIX[s[:i]] + s[i:]


def enc(t):
    """rdflib term -> string.  Distinguishes lexical forms; never looks at values."""
    if isinstance(t, Literal):
        dt = t.datatype
        s = '"%s"' % str.__str__(t)
        if t.language:
            return s + "@" + t.language.lower()
        if dt is not None:
            return s + "^^" + enc_iri(str(dt))
        return s
    r = _CACHE.get(t)
    if r is None:
        if isinstance(t, BNode):
            r = "_:" + str(t)
        elif isinstance(t, URIRef):
            r = enc_iri(str(t))
        else:
            r = "?" + repr(t)
        _CACHE[t] = r
    return r


def dec(s):
    """string -> fresh rdflib term (literals keep their lexical form)."""
    if s[0] == '"':
        i = s.rindex('"')
        lex, tail = s[1:i], s[i + 1:]
        if tail.startswith("^^"):
            return Literal(lex, datatype=URIRef(dec_iri(tail[2:])), normalize=False)
        if tail.startswith("@"):
            return Literal(lex, lang=tail[1:])
        return Literal(lex)
    if s.startswith("_:"):
        return BNode(s[2:])
    return URIRef(dec_iri(s))


def enc3(t):
    return (enc(t[0]), enc(t[1]), enc(t[2]))


def dec3(t):
    return (dec(t[0]), dec(t[1]), dec(t[2]))


def is_lit(s):
    return s[0] == '"'


def is_bn(s):
    return s[0] == "_"


def lit_parts(s):
    i = s.rindex('"')
    lex, tail = s[1:i], s[i + 1:]
    if tail.startswith("^^"):
        return lex, tail[2:], None
    if tail.startswith("@"):
        return lex, None, tail[1:]
    return lex, None, None


def show(ts, n=12):
    return [" ".join(t) for t in sorted(ts)[:n]]
