"""C03: combined RDFS + OWL 2 RL, and the extension profile, compute exactly the joint closure."""
from .closure import *  # noqa: F401,F403

RUNS = {"quick": 360, "thorough": 6000}
SPEC = {"rule": GRAPH_RULE + "Profiles: RDFS+OWL RL, extension with and without the RDFS part. Non-trivial: the model derives more "
                             "than three new triples."}
FIRST = G.OWL_GADGETS + G.RDFS_GADGETS + G.EXT_GADGETS * 3 + G.EXT_RULES * 2


def gen(rng, idx, tier):
    profile = ["comb", "ext", "ext"][idx % 3]
    first = FIRST if profile == "ext" else G.OWL_GADGETS + G.RDFS_GADGETS
    return make(rng, idx // 3, profile, first, 420, rdfs=(0, 0, 1) if profile == "ext" else (0,))


def run(scen):
    return run_closure(scen)
