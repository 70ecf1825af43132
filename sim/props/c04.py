"""C04: an inconsistency is reported exactly when one is derivable, and the report names the offenders."""
import random

from .closure import *  # noqa: F401,F403


RUNS = {"quick": 1300, "thorough": 9000}
SPEC = {"rule": GRAPH_RULE + "The first gadget cycles through the inconsistency patterns (with near misses). Non-trivial: the model "
                             "derives an inconsistency, or derives more than three new triples from an inconsistency gadget."}
FIRST = G.ERR_GADGETS + G.ERR_RULES + G.ERR_RULES + [G.g_dtrange, G.g_dttype, G.g_eqlits, G.g_maxcard, G.g_maxqcard, G.g_lits]

EDGES = G.EDGE_GOOD + G.EDGE_BAD
random.Random(4).shuffle(EDGES)


def gen(rng, idx, tier):
    profile = ["owl", "owl", "owl", "comb", "ext", "rdfs"][(idx // len(FIRST)) % 6]
    gad = G.OWL_GADGETS + G.ERR_GADGETS + G.ERR_RULES if profile != "rdfs" else G.RDFS_GADGETS
    scen = make(rng, idx, profile, gad, 350, first_pool=FIRST, bad=0.25, n=rng.choice([1, 1, 2, 2, 3, 4]), many=0.25, aliases=True)
    if profile != "rdfs":
        # every edge of a lexical space has its turn, as a plain value of an otherwise unused property
        for k in range(3):
            scen["triples"].append([rng.choice([":a0", ":e0"]), ":edge", EDGES[(3 * idx + k) % len(EDGES)]])
            if k == 2 and profile == "ext":
                scen["triples"][-1][2] = '"%s"^^owl:rational' % rng.choice(G.RATIONALS + G.NO_RATIONALS)
            if scen.get("place"):
                scen["place"].append(rng.choice(scen["place"]))
    return scen


def run(scen):
    return run_closure(scen, spec_errors=True)
