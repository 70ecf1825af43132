"""C01: the OWL 2 RL profile computes exactly the deductive closure."""
from .closure import *  # noqa: F401,F403

RUNS = {"quick": 700, "thorough": 14000}
SPEC = {"rule": GRAPH_RULE + "Non-trivial: the model derives more than three new triples.",
        "assumptions": ["list structure is well formed and list nodes are not equated",
                        "reflexive schema statements and property-level datatype subsumption are judged as bounds (DESIGN.md)"]}
FIRST = G.OWL_GADGETS + G.OWL_RULES


def gen(rng, idx, tier):
    return make(rng, idx, "owl", G.OWL_GADGETS, 450, first_pool=FIRST, aliases=True)


def run(scen):
    return run_closure(scen)
