"""setup_cmd: is the machinery itself sound here?  Builds nothing (everything is Python), but refuses to start on a broken base."""
import importlib
import json
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    from . import boot, core, model, simlock

    # the model: a hand-checked closure
    c = model.closure([(":a", "rdf:type", ":C"), (":C", "rdfs:subClassOf", ":D")], "owl")
    assert (":a", "rdf:type", ":D") in c.lo and (":a", "owl:sameAs", ":a") in c.lo and not c.errhi
    c = model.closure([(":a", "owl:sameAs", ":b"), (":a", "owl:differentFrom", ":b")], "owl")
    assert any(e[0] == "eq-diff1" for e in c.errlo), c.errlo
    # the simulator: same seed, same execution; the oracle: a removed triple is noticed
    scen = {"profile": "owl", "triples": [[":a", "rdf:type", ":C"], [":C", "rdfs:subClassOf", ":D"]], "kind": "graph",
            "sched": {"mode": "perm", "seed": 5, "cursor": "live", "mat": False}}
    ws = []
    for _ in range(2):
        w = core.World(scen)
        w.expand()
        ws.append((w.ctl.ops, w.ctl.digest))
    assert ws[0] == ws[1], ws
    # the baton scheduler: mutual exclusion, reproducible interleavings, deadlock detection
    def once(seed, bad=False):
        a, b, log = simlock.SimRLock(), simlock.SimRLock(), []
        s = simlock.Scheduler(random.Random(seed), {"mode": "rand", "p": 0.5}, 100000)

        def f(k, x, y):
            def g():
                for _ in range(5):
                    with x:
                        log.append(k)
                        s.yield_point("t")
                        log.append(k)
                        if bad:
                            with y:
                                log.append(k)
            return g

        s.run([f(0, a, b), f(1, b if bad else a, a)])
        return log, s.abort, s.switches
    one, two = once(3), once(3)
    assert one == two and one[1] is None
    assert all(one[0][i] == one[0][i + 1] for i in range(0, len(one[0]), 2)), one[0]
    assert any(once(i, True)[1] == "deadlock" for i in range(20))
    kf = json.load(open(os.path.join(HERE, "known-findings.json")))
    assert isinstance(kf["findings"], list)
    for f in sorted(os.listdir(os.path.join(HERE, "sim", "props"))):
        if f.startswith("c") and f[1:3].isdigit():
            importlib.import_module("sim.props." + f[:-3])
    assert boot.OWLRL_DIR
    print("selftest ok")
    return 0


if __name__ == "__main__":
    sys.exit(main())
