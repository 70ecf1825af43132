"""C02: the RDFS profile computes exactly the RDFS closure (with its documented extras)."""
from .closure import *  # noqa: F401,F403

RUNS = {"quick": 1600, "thorough": 40000}
SPEC = {"rule": GRAPH_RULE + "Non-trivial: the model derives more than three new triples."}


def gen(rng, idx, tier):
    return make(rng, idx, "rdfs", G.RDFS_GADGETS, 450, ax=(0, 1), dax=(0, 1), bad=0.1,
                first_pool=G.RDFS_GADGETS + G.RDFS_RULES)


def run(scen):
    return run_closure(scen)
