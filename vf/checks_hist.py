"""C18: histories of calls and in-place modifications."""
from . import hist
from .checks import check, n
from .common import SEED, MachineryError
from .gen import Gen


def explain(h, o):
    """The first steps at which something is wrong, in readable form."""
    bad = []
    for e, s in zip(o["h"], o["log"]):
        wrong = [x for x in e["seen"] if e["do"] != "poke" or x["h"] != e["h"]]
        if wrong or e["do"] == "call" and (e["new"] != e["ref"] or e["w"] != e["rw"] or
                                                any(x["was"] != x["now"] for x in e["lists"])):
            bad.append({"step": s, "seen": wrong, "new": e.get("new"), "alone": e.get("ref"), "lists": e.get("lists")})
    return bad[:3]


@check("C18")
def c18(c):
    for fresh, inv in (("TRUE", "Refines Silent"), ("FALSE", "Exposed Silent")):
        c.model("MC_Machine", f"SPECIFICATION Spec\nCONSTANTS\n  Fresh = {fresh}\n  MaxHandles = {n(3, 4) if fresh == 'FALSE' else 4}\n  Parts = 2\n"
                f"INVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n",
                "cells behind the store: fresh cells refine it, shared cells are exposed by poking every part",
                name="MC_Machine_" + fresh)
    g = Gen(SEED)
    plan = []
    for k, (num, depth, handles) in enumerate(((n(300, 3000), 20, 18), (n(60, 800), 40, 30))):
        behs = hist.behaviours(num, depth, handles, SEED * 10 + k, name=f"GenHist_{k}")
        for h in hist.plan(g, behs):
            plan.append(dict(h, id=len(plan)))
    out = hist.execute(plan)
    evs, plains, calls = [], [], 0
    refused = 0
    for h in plan:
        o = out[h["id"]]
        evs.append({"st": o["st"], "h": o["h"]})
        calls += sum(e["do"] == "call" for e in o["h"])
        refused += sum(e["do"] == "call" and e["new"][0]["m"] == "refused" for e in o["h"])
        plains.append({"history": o["id"], "st": o["st"], "why": o.get("why", ""), "bad": explain(h, o), "steps": o["log"]})
    c.notes["refused_calls"] = refused
    c.notes["calls"] = calls
    c.trace("TraceMachine", evs, {"refused", "memory", "changed", "shared"},
            "behaviours of GenHist replayed into the Python package", plains, elements=sum(len(e["h"]) for e in evs), small=True)
