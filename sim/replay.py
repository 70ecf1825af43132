"""Re-execute a replay file exactly:  python -m sim.replay FILE   (exit 1 and the same violation if it still happens)."""
import json
import sys

from . import pool


def main(path):
    r = json.load(open(path))
    ws = [pool.Worker(r["property"], h) for h in r["hashseeds"]]
    outs = [w.ask({"prop": r["property"], "op": "run", "scen": r["scenario"], "timeout": 300, "seed": r["seed"]}) for w in ws]
    for w in ws:
        w.close()
    viol = [v for o in outs for v in o.get("viol") or []]
    if len(outs) == 2 and outs[0].get("canon") != outs[1].get("canon"):
        viol.append(["hash-divergence", "%s | %s" % (outs[0].get("canon"), outs[1].get("canon"))])
    for o in outs:
        if "harness" in o or o.get("timeout"):
            print("HARNESS ERROR", o, file=sys.stderr)
            return 3
    same = [v for v in viol if v[0] == r["class"]]
    if same:
        exact = r.get("digest") in (None, outs[0].get("digest"))
        print(same[0][1])
        print("REPRODUCED property=%s class=%s digest %s%s" % (r["property"], r["class"], outs[0].get("digest"),
                                                            "" if exact else " (recorded: %s)" % r.get("digest")))
        return 1
    print("not reproduced: %s" % (viol or "no violation"))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
