"""Simulated file system, network and standard input behind rdflib's parser, and a store factory for Graph().

docs: {name: {"fmt": "turtle"|"xml"|"json-ld", "data": text}}; a name is an http URL, a /sim/... path or "-" (stdin).
Faults: {name: {"kind": ..., "at": byte offset, "times": n}} - refused, http404, http500, timeout (at open);
reset, ioerror, truncate, garble (while reading); short = short reads (harmless, must be invisible).
"""
import email.message
import io
import random
import socket
import sys
import urllib.error
import urllib.parse
import urllib.response
from collections import Counter

import rdflib
import rdflib.parser
import rdflib.plugin

from .store import SimStore

OPEN_FAULTS = ["refused", "http404", "http500", "timeout", "dns"]
READ_FAULTS = ["reset", "ioerror", "truncate"]


class SimIOError(OSError):
    pass


class Body(io.RawIOBase):
    """A byte stream delivered in pieces chosen by the simulator."""

    def __init__(self, data, rng, net, name, fault=None, short=False):
        self.data, self.pos, self.rng, self.net, self.name, self.fault, self.short = data, 0, rng, net, name, fault, short
        self.mode = "rb"
        if fault and fault["kind"] == "truncate":
            self.data = data[: max(0, int(len(data) * fault["frac"]))]

    def readable(self):
        return True

    def readinto(self, b):
        net = self.net
        net.reads += 1
        f = self.fault
        if f and f["kind"] in ("reset", "ioerror"):
            lim = int(len(self.data) * f["frac"])
            if self.pos >= lim:
                net.fired[f["kind"]] += 1
                if f["kind"] == "reset":
                    raise ConnectionResetError(104, "simulated reset")
                raise SimIOError(5, "simulated read error")
            n = min(len(b), lim - self.pos)
        else:
            n = len(b)
        if self.short and n > 1:
            n = self.rng.randint(1, min(n, 60))
        chunk = self.data[self.pos: self.pos + n]
        if f and f["kind"] == "truncate" and not chunk:
            net.fired["truncate"] += 1
        b[: len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)


class NamedReader(io.BufferedReader):
    def __init__(self, raw, name):
        super().__init__(raw, buffer_size=64)
        self._simname = name

    @property
    def name(self):
        return self._simname


class World:
    """Installs itself on enter, restores everything on exit."""

    def __init__(self, docs, rng, faults=None, short=False, ctl=None):
        self.docs, self.rng, self.short, self.ctl = docs, rng, short, ctl
        self.faults = {k: dict(v) for k, v in (faults or {}).items()}
        self.opens = []
        self.reads = 0
        self.fired = Counter()
        self.served = Counter()

    def _take(self, name):
        f = self.faults.get(name)
        if f is None or f.get("times", 1) <= 0:
            return None
        f["times"] = f.get("times", 1) - 1
        return f

    def _body(self, name, f):
        return NamedReader(Body(self.docs[name]["data"].encode("utf8"), self.rng, self, name, f, self.short), name)

    def urlopen(self, req, *a, **kw):
        url = req.full_url if hasattr(req, "full_url") else str(req)
        url = url.split("#")[0]  # the fragment is not sent
        if url not in self.docs:
            for name in self.docs:
                if urllib.parse.unquote(name) == urllib.parse.unquote(url):
                    url = name
        self.opens.append(url)
        f = self._take(url)
        if f:
            k = f["kind"]
            if k in OPEN_FAULTS:
                self.fired[k] += 1
            if k == "refused":
                raise urllib.error.URLError(ConnectionRefusedError(111, "simulated refusal"))
            if k == "dns":
                raise urllib.error.URLError(socket.gaierror(-2, "simulated name resolution failure"))
            if k == "timeout":
                raise TimeoutError("simulated timeout")
            if k in ("http404", "http500"):
                raise urllib.error.HTTPError(url, int(k[4:]), "simulated", email.message.Message(), io.BytesIO(b""))
        if url not in self.docs:
            raise urllib.error.HTTPError(url, 404, "no such document", email.message.Message(), io.BytesIO(b""))
        self.served[url] += 1
        h = email.message.Message()
        h["Content-Type"] = {"turtle": "text/turtle", "xml": "application/rdf+xml", "json-ld": "application/ld+json"}[self.docs[url]["fmt"]]
        r = urllib.response.addinfourl(self._body(url, f), h, url, 200)
        return r

    def open(self, name, mode="r", *a, **kw):
        name = str(name)
        self.opens.append(name)
        f = self._take(name)
        if f and f["kind"] in OPEN_FAULTS:
            self.fired[f["kind"]] += 1
            raise SimIOError(13, "simulated: cannot open %s" % name)
        if name not in self.docs:
            raise FileNotFoundError(2, "No such file or directory", name)
        self.served[name] += 1
        return self._body(name, f)

    def __enter__(self):
        p = rdflib.parser
        self._saved = (p._urlopen, p.__dict__.get("open"), sys.stdin, dict(rdflib.plugin._plugins))
        p._urlopen = self.urlopen
        p.open = self.open
        if "-" in self.docs:
            f = self._take("-")
            sys.stdin = io.TextIOWrapper(self._body("-", f), encoding="utf8")
        if self.ctl is not None:
            ctl = self.ctl

            class Plug:
                def getClass(self):
                    return lambda configuration=None, identifier=None: SimStore(ctl, configuration, identifier)

            from rdflib.store import Store

            for nm in ("default", "Memory"):
                rdflib.plugin._plugins[(nm, Store)] = Plug()
        return self

    def __exit__(self, *a):
        p = rdflib.parser
        p._urlopen, op, sys.stdin, plugs = self._saved
        if op is None:
            del p.open
        else:
            p.open = op
        rdflib.plugin._plugins.clear()
        rdflib.plugin._plugins.update(plugs)
        return False


def serialise(triples, fmt):
    """Document text for a set of encoded triples (literal-free subjects assumed)."""
    from . import terms

    g = rdflib.Graph(store="Memory")
    for t in triples:
        g.add(terms.dec3(t))
    if fmt == "turtle" and any(terms.is_lit(x) for t in triples for x in t):
        fmt = "nt"  # also Turtle; rdflib's serializer abbreviates ill-typed literals into something else
    return g.serialize(format={"turtle": "turtle", "xml": "xml", "json-ld": "json-ld", "nt": "nt"}[fmt])


SUFFIX = {"turtle": ".ttl", "xml": ".rdf", "json-ld": ".jsonld"}
