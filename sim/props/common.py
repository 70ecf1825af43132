"""Helpers for the property modules."""
from .. import core, gen as G, model, terms  # noqa: F401
from ..core import *  # noqa: F401,F403
from ..core import Ctl, SimStore, World, digest
from ..store import FAULTS, INJECTED, SimCrash, StepBudget  # noqa: F401

GRAPH_RULE = ("Each run draws a graph from rule-family gadgets (the first gadget cycles through all of them), near-miss edits, "
              "axiom/datatype options, a store layout and a schedule from one seed. ")


def result(viol, ctl, stats=None, canon=None, sig=None, nontrivial=True, sample=None, extra=None):
    st = {"ops": ctl.ops if ctl else 0}
    if ctl is not None:
        for k, v in ctl.kinds.items():
            st[k if k.startswith("fault:") else "op:" + k] = v
        st["reordered_enumerations"] = ctl.shuffled
    st.update(stats or {})
    out = {"viol": [[c, d[:900]] for c, d in viol], "stats": st, "nontrivial": bool(nontrivial),
           "sched": "%08x" % ctl.digest if ctl else None,
           "sig": sig, "digest": digest(canon, ctl.ops if ctl else 0, ctl.digest if ctl else 0, sorted(map(str, viol)))}
    if sample is not None:
        out["sample"] = sample
    return out


def crash_viol(exc):
    if isinstance(exc, StepBudget):
        return ("budget", "does not terminate within the step bound: %s" % exc)
    return ("exception", "uncaught " + core.describe(exc) + where(exc))


def where(exc):
    import traceback
    from .. import boot
    tb = traceback.extract_tb(exc.__traceback__)
    for f in reversed(tb):
        if f.filename.startswith(boot.OWLRL_DIR):
            return " at %s:%s" % (f.filename[len(boot.OWLRL_DIR):], f.name)
    return ""
