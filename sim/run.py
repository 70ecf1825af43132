"""Driver of one check:  python -m sim.run <PROPERTY> [quick|thorough] [--runs N] [--from I]

Seeded search over simulated executions; see DESIGN.md.  Exit 0: held on everything explored.  Exit 1: VIOLATION line.
Anything else: the harness itself failed (reported on stderr).
"""
import argparse
import importlib
import json
import os
import sys
import threading
import time
from collections import Counter

from . import pool
from .pool import HERE, NWORK

KNOWN = os.path.join(HERE, "known-findings.json")
LINE_BUDGET = 60_000_000
META = {}


def known_findings(prop):
    try:
        return [f for f in json.load(open(KNOWN))["findings"] if f["property"] == prop]
    except FileNotFoundError:
        return []


def match_known(known, viol):
    for f in known:
        if viol[0] == f["class"] and f["match"] in viol[1]:
            return f
    return None


class Driver:
    def __init__(self, prop_id, tier, seed, runs, first, soft, note=None):
        self.id = prop_id
        self.prop = importlib.import_module("sim.props." + prop_id.lower())
        self.tier = tier
        self.seed = seed
        self.multi = getattr(self.prop, "MULTI", 1)
        self.runs = runs if runs is not None else self.prop.RUNS[tier]
        self.first = first
        self.soft = soft
        self.workers = pool.start(prop_id, seed)
        self.stop = False
        self.bad = {}  # idx -> (viols, worker index, scen)
        self.harness = []
        self.stats = Counter()
        self.lines = {}
        self.sched = set()
        self.sigs = set()
        self.nontrivial = set()
        self.done = 0
        self.samples = []
        self.canon = {}
        self.mu = threading.Lock()
        self.known_hits = {}
        self.known = known_findings(prop_id)
        self.t0 = time.monotonic()
        self.replays = 0
        self.nondet = []

    # ---- evaluating one run ---------------------------------------------------------------
    def req(self, **kw):
        d = {"prop": self.id, "tier": self.tier, "seed": self.seed, "timeout": getattr(self.prop, "TIMEOUT", 90)}
        d.update(kw)
        return d

    def eval(self, w, **kw):
        out = self.workers[w].ask(self.req(op="run", **kw))
        if out.get("timeout"):
            # decide "does not terminate" by counting library lines, which is repeatable; wall clock only triggers it
            out = self.workers[w].ask(self.req(op="run", linebudget=LINE_BUDGET, **dict(kw, timeout=400)))
            if out.get("timeout"):
                out = {"harness": "run exceeded the wall clock, but not the line budget"}
            elif "viol" in out:
                out["stats"] = dict(out.get("stats") or {}, slow_runs=1)
        return out

    def absorb(self, idx, w, out):
        with self.mu:
            if "harness" in out:
                self.harness.append((idx, out["harness"], out.get("tb", "")))
                self.stop = True
                return
            self.done += 1
            for k, v in (out.get("stats") or {}).items():
                self.stats[k] += v
            for f, ls in (out.get("lines") or {}).items():
                self.lines.setdefault(f, set()).update(ls)
            if out.get("sched"):
                self.sched.add(out["sched"])
            if out.get("sig"):
                self.sigs.add(out["sig"])
            if out.get("nontrivial"):
                self.nontrivial.add((out.get("sched"), out.get("sig"), out.get("digest")))
            if out.get("sample") and len(self.samples) < 3:
                self.samples.append({"run": idx, "case": out["sample"]})
            viols = []
            for v in out.get("viol") or []:
                f = match_known(self.known, v)
                if f is not None:
                    self.known_hits.setdefault(f["id"], f)
                else:
                    viols.append(v)
            if self.multi > 1 and "canon" in out:
                prev = self.canon.pop(idx, None)
                if prev is None:
                    self.canon[idx] = (w, out["canon"])
                elif prev[1] != out["canon"]:
                    viols.append(["hash-divergence", "two interpreters (hash seeds %d and %d) disagree: %s | %s" % (
                        self.workers[prev[0]].hashseed, self.workers[w].hashseed, prev[1], out["canon"])])
                    self.bad.setdefault(idx, [viols, prev[0], out.get("scen"), w])
                    self.stop = True
                    return
            if viols:
                self.bad[idx] = [viols, w, out.get("scen"), None]
                self.stop = True

    def worker_loop(self, w):
        # each worker owns the run indices congruent to it, so the run -> hash seed mapping is fixed
        jobs = []
        for i in range(self.first, self.first + self.runs):
            for k in range(self.multi):
                if (i + 3 * k) % NWORK == w:
                    jobs.append(i)
        for i in jobs:
            if self.stop or time.monotonic() - self.t0 > self.soft:
                return
            self.absorb(i, w, self.eval(w, idx=i, keep=self.multi > 1))

    def selfcheck(self):
        """Repeat a few runs: a digest that differs means an uncontrolled source of nondeterminism."""
        n = min(6, self.runs)
        for j in range(n):
            i = self.first + (j * self.runs) // n
            w = i % NWORK
            a = self.eval(w, idx=i)
            b = self.eval(w, idx=i)
            self.replays += 1
            for k in ("digest", "sched", "viol"):
                if a.get(k) != b.get(k):
                    self.nondet.append((i, k, a.get(k), b.get(k)))

    # ---- minimisation ------------------------------------------------------------------------
    def fails(self, scen, cls, w, w2):
        out = self.eval(w, scen=scen)
        if w2 is not None:
            o2 = self.eval(w2, scen=scen)
            if "harness" in out or "harness" in o2:
                return None
            if out.get("canon") != o2.get("canon"):
                return ["hash-divergence", "%s | %s" % (out.get("canon"), o2.get("canon"))], out.get("digest")
            return None
        for v in out.get("viol") or []:
            if v[0] == cls and match_known(self.known, v) is None:
                return v, out.get("digest")
        return None

    def minimise(self, scen, cls, w, w2, budget=40):
        if os.environ.get("VERIF_NOSHRINK"):
            return scen, None
        end = time.monotonic() + budget
        best = self.fails(scen, cls, w, w2)
        if best is None:
            return scen, None
        reducers = getattr(self.prop, "reductions", default_reductions)
        changed = True
        while changed and time.monotonic() < end:
            changed = False
            for cand in reducers(scen):
                if time.monotonic() > end:
                    break
                r = self.fails(cand, cls, w, w2)
                if r is not None:
                    scen, best, changed = cand, r, True
                    break
        return scen, best

    # ---- the whole check -----------------------------------------------------------------------
    def main(self):
        ts = [threading.Thread(target=self.worker_loop, args=(w,)) for w in range(NWORK)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        search_s = time.monotonic() - self.t0
        code = 0
        lines = []
        if self.bad:
            idx = min(self.bad)
            viols, w, scen, w2 = self.bad[idx]
            small, best = self.minimise(scen, viols[0][0], w, w2)
            v = best[0] if best else viols[0]
            path = self.write_replay(idx, v, small, w, w2, best[1] if best else None, scen)
            print("violated: %s" % (v[1],))
            print("run %d, seed %s, hash seed %d" % (idx, self.seed, self.workers[w].hashseed))
            lines.append("VIOLATION property=%s replay=%s" % (self.id, path))
            code = 1
        elif self.harness:
            idx, msg, tb = self.harness[0]
            print("HARNESS ERROR in run %s: %s\n%s" % (idx, msg, tb), file=sys.stderr)
            code = 3
        else:
            self.selfcheck()
            if self.nondet:
                print("HARNESS ERROR: run not repeatable: %s" % (self.nondet[:2],), file=sys.stderr)
                code = 3
        for w in self.workers:
            w.close()
        self.evidence(search_s, code)
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s%s" % (self.id, f["what"], "" if f["id"] in self.known_hits else " (not met in this run)"))
        for ln in lines:
            print(ln)
        print("%s %s: %d runs in %.1fs, %d distinct non-trivial, exit %d" % (self.id, self.tier, self.done, search_s,
                                                                         len(self.nontrivial), code))
        sys.stdout.flush()
        return code

    def write_replay(self, idx, v, scen, w, w2, dig, orig):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-seed%s-run%d.json" % (self.id, self.seed, idx))
        hs = [self.workers[w].hashseed] + ([self.workers[w2].hashseed] if w2 is not None else [])
        json.dump({"property": self.id, "seed": self.seed, "run": idx, "hashseeds": hs, "class": v[0], "detail": v[1],
                   "digest": dig, "scenario": scen, "unminimised": orig}, open(path, "w"), indent=1)
        return path

    def evidence(self, search_s, code):
        total, hit = count_lines(self.lines)
        ops = self.stats.get("ops", 0)
        faults = {k[6:]: v for k, v in sorted(self.stats.items()) if k.startswith("fault:")}
        spec = getattr(self.prop, "SPEC", {})
        cov = {
            "evaluations": self.done,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": spec.get("rule", ""),
            "samples": self.samples,
            "runs_per_hour": int(self.done / max(search_s, 0.01) * 3600),
            "seed": self.seed,
            "run_indices": [self.first, self.first + self.runs - 1],
            "hash_seeds": [w.hashseed for w in self.workers],
            "simulated_time": "logical: %d simulated steps (the code under test reads no clock)" % ops,
            "faults_injected": faults,
            "distinct_schedules": len(self.sched),
            "distinct_states": len(self.sigs),
            "measure": spec.get("measure", "schedule = checksum of every ordering/interleaving decision taken; "
                                           "state = checksum of the resulting graph"),
            "counters": {k: v for k, v in sorted(self.stats.items()) if not k.startswith("fault:")},
            "library_lines_executed": {"hit": hit, "of": total},
            "repeated_runs_identical": self.replays,
            "real_components": spec.get("real", "owlrl (all of it), rdflib graph/term/memory-store index logic"),
            "stubbed_components": spec.get("stub", "store enumeration order, cursors, term identity, faults and durability (SimStore)"),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump({"property": self.id, "tier": self.tier, "seed": int(self.seed), "level": spec.get("level", "exploration"),
                   "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.monotonic() - self.t0, 2),
                   "violations": len(self.bad)},
                  open(os.path.join(HERE, "evidence", self.id + ".json"), "w"), indent=1)


def count_lines(lines):
    repo = os.environ.get("VERIF_REPO", "/repo")
    total = hit = 0
    d = os.path.join(repo, "owlrl")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py"):
            continue
        try:
            code = compile(open(os.path.join(d, fn), encoding="utf8").read(), fn, "exec")
        except SyntaxError:
            continue
        ls = set()
        stack = [c for c in code.co_consts if hasattr(c, "co_code")]
        while stack:
            c = stack.pop()
            if c.co_flags & 2:  # function bodies only (CO_NEWLOCALS)
                ls.update(x[2] for x in c.co_lines() if x[2])
            stack += [k for k in c.co_consts if hasattr(k, "co_code")]
        total += len(ls)
        hit += len(ls & lines.get(fn, set()))
    return total, hit


def shrink_list(xs):
    """Candidate sublists, big cuts first."""
    n = len(xs)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield xs[:i] + xs[i + k:], i, k
        k //= 2


LISTS = ["ops", "triples", "docs", "threads", "extra"]


def default_reductions(scen):
    for key in LISTS:
        xs = scen.get(key)
        if not isinstance(xs, list):
            continue
        for ys, i, k in shrink_list(xs):
            c = dict(scen)
            c[key] = ys
            if key == "triples" and isinstance(scen.get("place"), list):
                p = scen["place"]
                c["place"] = p[:i] + p[i + k:]
            yield c
    s = scen.get("sched")
    if isinstance(s, dict):
        for alt in ({"mode": "none"}, dict(s, cursor="snap"), dict(s, mat=False), dict(s, mode="rev")):
            if alt != s and not (s.get("mode") == "none" and len(s) == 1):
                yield dict(scen, sched=alt)
        if s.get("mode") not in (None, "none") and isinstance(s.get("win", [0, 1 << 20]), list):
            lo, hi = s.get("win", [0, 1 << 20])
            if hi - lo > 1:
                m = (lo + hi) // 2
                yield dict(scen, sched=dict(s, win=[lo, m]))
                yield dict(scen, sched=dict(s, win=[m, hi]))
    for key in ("ax", "dax", "rdfs", "alien"):
        if scen.get(key):
            yield dict(scen, **{key: 0})
    if scen.get("kind") not in (None, "graph"):
        yield dict(scen, kind="graph")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--runs", type=int)
    ap.add_argument("--from", dest="first", type=int, default=0)
    ap.add_argument("--soft", type=float)
    a = ap.parse_args()
    seed = os.environ.get("VERIF_SEED", "1")
    soft = a.soft or (240 if a.tier == "quick" else 660)
    try:
        d = Driver(a.prop, a.tier, int(seed), a.runs, a.first, soft)
    except Exception as e:
        print("HARNESS ERROR: %s" % e, file=sys.stderr)
        return 3
    return d.main()


if __name__ == "__main__":
    sys.exit(main())
