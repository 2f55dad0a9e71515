"""Runs plans on the executors and turns outcomes into trace events."""
from . import py, vhdl
from .gen import narrow_ok
from .num import enc, dec

BIG = 1 << 24


def fits_small(q, o):
    r = o["r"]
    if q["op"] == "to_real_near":
        return False
    vals = list(r["v"])
    for k in ("a", "b"):
        if q.get(k):
            vals += q[k]["v"]
    exps = [r["F"]] + [q[k]["F"] for k in ("a", "b") if q.get(k)] + [c for f in (q["fa"], q["fb"], q["fr"]) for c in f[1:]]
    return all(abs(v) < 1 << 16 for v in vals) and all(abs(x) <= 12 for x in exps) and \
        (not q.get("k") or all(abs(k) <= 6 for k in q["k"]["v"]))


def event(q, o, small=False):
    """Request and outcome as an event of spec/Verdicts.tla."""
    n = (lambda v: v) if small else enc
    arr = lambda d: {"sh": d["sh"], "v": [n(x) for x in d["v"]], "F": d.get("F", 0)} if d else {"sh": [], "v": [], "F": 0}
    ints = lambda d: {"sh": d["sh"], "v": d["v"]} if d else {"sh": [], "v": []}
    r = o["r"]
    return {"id": q["id"], "op": q["op"], "src": q["src"], "fa": q["fa"], "fb": q["fb"], "fr": q["fr"],
            "fs": q.get("fs", []), "rnd": q["rnd"], "sat": q["sat"], "a": arr(q.get("a")), "b": arr(q.get("b")),
            "sel": ints(q.get("sel")), "k": ints(q.get("k")), "x": q["x"], "st": o["st"], "warn": o["warn"],
            "ws": o.get("ws", [o["warn"]]),
            "r": {"kind": r["kind"], "sh": r["sh"], "v": [n(x) for x in r["v"]], "F": r["F"], "rep": r["rep"],
                  "x": r["x"], "w": r["w"]}}


def plain(q, o):
    """Readable form, for replay files and samples."""
    d = {k: v for k, v in q.items() if v not in ([], None)}
    return {"request": d, "outcome": o}


def with_src(g, q, src):
    g.n += 1
    return dict(q, id=g.n, src=src)


def record_py(plan, tag="py"):
    out = py.execute(plan, tag)
    return [(q, out[q["id"]]) for q in plan]


def record_objects(g, plan, wide=True, narrow=True):
    todo = []
    for q in plan:
        if narrow and narrow_ok(q):
            todo.append(with_src(g, q, "narrow"))
        if wide and q["op"] not in ("in_range", "to_integer"):
            todo.append(with_src(g, q, "wide"))
    return record_py(todo, "obj")


def vhdl_real_ok(q):
    """VHDL converts reals with real arithmetic: bounds and scaled values must be in the range of a double."""
    f = q["fr"] if q["op"] == "from_real" else q["fa"] if q["op"] == "to_real" else [0, 0, 0]
    return f[1] <= 1000 and abs(f[2]) <= 1000 and f[1] + f[2] <= 1000


def record_vhdl(g, plan, group=True, tag="vh"):
    """Array requests are split into elements; their outcomes are joined again where possible."""
    plan = [q for q in plan if vhdl_real_ok(q)]
    subs = [(q, g.elements(q) if q.get("a") and q["op"] not in SINGLE else [q]) for q in plan]
    out = vhdl.execute([e for _, es in subs for e in es], tag)
    rec = []
    for q, es in subs:
        parts = [(e, out[e["id"]]) for e in es]
        if group and len(es) > 1 and joinable(q, [o for _, o in parts]):
            rec.append(join(q, parts))
        else:
            rec += parts
    return rec


def join(q, parts):
    """Outcomes on the elements of an array request -> one outcome."""
    e, o0 = parts[0]
    F = max(o["r"]["F"] for _, o in parts)
    j = dict(o0, ws=[o["warn"] for _, o in parts])
    j["r"] = dict(o0["r"], sh=[len(parts)] if q.get("a") else [],
                  v=[v << (F - o["r"]["F"]) for _, o in parts for v in o["r"]["v"]], F=F)
    j["warn"] = max(j["ws"])
    qq = dict(q, src="vhdl", id=e["id"], fr=e["fr"])
    for k in ("a", "b", "sel", "k"):
        if k in q and isinstance(q[k], dict):
            qq[k] = dict(q[k], sh=[len(parts)], v=[x[k]["v"][0] for x, _ in parts])
    return qq, j


def joinable(q, os_):
    if q["op"] == "shift" and not q["fr"]:
        return False
    return all(o["st"] == "ok" and o["r"]["kind"] == os_[0]["r"]["kind"] and o["r"]["kind"] in ("bits", "num")
               and o["r"]["w"] == os_[0]["r"]["w"] and len(o["r"]["v"]) == 1 for o in os_)


SINGLE = ("max_value", "min_value")


def split(rec, small_ok=True):
    """Recorded pairs -> (small pairs, big pairs)."""
    s, b = [], []
    for q, o in rec:
        (s if small_ok and fits_small(q, o) else b).append((q, o))
    return s, b
