"""Simulates instances of the clocked components and turns their histories into trace events."""
import os, subprocess, concurrent.futures as cf
from . import vhdl
from .common import ROOT, CORES, path, scratch
from .gen import width
from .num import enc

_exe = None


def exe():
    global _exe
    if _exe is None:
        _exe = vhdl.build("vf_pipe_build", [("lib", vhdl.FIX_LIB + vhdl.FIX_ENTITIES)],
                          [os.path.join(ROOT, "hdl", "vf_pipe.vhd")], "vf_pipe")
    return _exe


def de_bruijn(k, n):
    """Every window of n symbols out of 0..k-1 occurs."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def controls(g, kind, cycles):
    """[(rst, valid)], starting with a reset cycle."""
    r = g.r
    if kind == "all":
        return [(1, 0)] + [(s >> 1, s & 1) for s in de_bruijn(4, 4)]
    pv, pr = r.choice([(1, 0), (0.5, 0.02), (0.8, 0.1), (0.3, 0.05), (0.95, 0.02), (0.5, 0.3)])
    pre = [(r.randint(0, 1) if r.random() < 0.2 else 0, r.randint(0, 1)) for _ in range(r.choice([0, 0, 2]))]
    return pre + [(1, r.randint(0, 1))] + [(int(r.random() < pr), int(r.random() < pv)) for _ in range(cycles)]


def inputs(g, i, kind, cycles):
    r = g.r
    w = width(i["fa"])
    drop = max(0, i["fa"][2] - i["fr"][2])
    bounds = g.bounds_in(i["fa"], i["fr"])
    rows = []
    for k, (rst, v) in enumerate(controls(g, kind, cycles)):
        d = g.value(i["fa"], drop, bounds) & ((1 << w) - 1)
        m = r.getrandbits(i["mw"]) if i["mw"] else 0
        rows.append((rst, v, m, d))
    return rows


def run_group(args):
    no, group = args
    d = path(f"pipe{no}")
    os.makedirs(d, exist_ok=True)
    with open(d + "/cfg", "w") as f:
        for k, i in enumerate(group):
            f.write(" ".join(map(str, [i["kind"], *i["fa"], *i["fr"], i["rnd"], i["sat"], i["reg"], i["mw"], i["fc"], k])) + "\n")
            with open(f"{d}/{k}.in", "w") as fi:
                for rst, v, m, x in i["in"]:
                    fi.write(f"{rst}{v} {vhdl.bits(m, i['mw']) if i['mw'] else ''} {vhdl.bits(x, width(i['fa']))}\n")
    try:
        subprocess.run([exe(), "-gCFG_FILE=" + d + "/cfg", "-gDIR=" + d, f"-gCOUNT={len(group)}", "--ieee-asserts=disable",
                        "--max-stack-alloc=0"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120, cwd=d)
    except subprocess.TimeoutExpired:
        pass
    out = []
    for k, i in enumerate(group):
        fn = f"{d}/{k}.out"
        lines = open(fn).read().split("\n") if os.path.exists(fn) else []
        if "END" not in lines or lines.index("END") != len(i["in"]):
            out.append(None)
            continue
        h = []
        for (rst, v, m, x), line in zip(i["in"], lines):
            ov, om, od = line.split(" ")
            bad = int(ov == "1" and any(c not in "01" for c in om + od))
            z = lambda s: int(s, 2) if s and all(c in "01" for c in s) else 0
            h.append({"rst": rst, "v": v, "m": m, "d": x, "ov": {"0": 0, "1": 1}.get(ov, 2), "om": z(om), "od": z(od), "bad": bad})
        out.append(h)
        os.remove(fn)
    return out


def simulate(insts, per=20):
    """Adds the recorded history (or None) to every instance."""
    exe()
    groups = [insts[k:k + per] for k in range(0, len(insts), per)]
    with cf.ThreadPoolExecutor(CORES) as ex:
        for g, hs in zip(groups, ex.map(run_group, enumerate(groups))):
            for i, h in zip(g, hs):
                i["h"] = h
        # a failing instance may have stopped its neighbours
        lost = [i for i in insts if i["h"] is None]
        if len(lost) > 200:
            lost = lost[:200]
        for i, hs in zip(lost, ex.map(run_group, [(f"x{k}", [i]) for k, i in enumerate(lost)])):
            i["h"] = hs[0]


def event(i, small):
    n = (lambda v: v) if small else enc
    h = [dict(c, d=n(c["d"]), od=n(c["od"])) for c in i["h"] or []]
    return {"kind": i["kind"], "fa": i["fa"], "fr": i["fr"], "rnd": i["rnd"], "sat": i["sat"], "reg": i["reg"],
            "st": "ok" if i["h"] is not None else "refused", "h": h}


def is_small(i):
    return width(i["fa"]) <= 14 and width(i["fr"]) <= 14 and all(abs(x) <= 12 for f in (i["fa"], i["fr"]) for x in f)


def plain(i):
    h = i["h"] or []
    return {"instance": {k: i[k] for k in ("kind", "fa", "fr", "rnd", "sat", "reg", "mw", "fc")},
            "cycles": len(h), "history": h[:40]}
