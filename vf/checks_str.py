"""C17: formats, modes and values as text."""
import os
from . import py, text, vhdl
from .checks import check, n
from .checks_text import Files, codes, number
from .common import SEED
from .gen import Gen, width

RND = ["Trunc_s", "NonSymPos_s", "NonSymNeg_s", "SymInf_s", "SymZero_s", "ConvEven_s", "ConvOdd_s"]
SAT = ["None_s", "Warn_s", "Sat_s", "SatWarn_s"]
NAMES = {"rnd": RND, "sat": SAT}
TOP = 2**31 - 1


def field_fmt(g):
    """Any integer fields: usable formats, and formats far away."""
    r = g.r
    c = r.random()
    if c < 0.4:
        return g.fmt(g.fmt_kinds())
    pick = lambda: r.choice([0, 1, -1, 9, 10, -10, 99, 100, -100, 101, r.randint(-20, 20), r.randint(-2000, 2000), TOP, -TOP,
                             r.randint(-TOP, TOP), 10 ** r.randint(1, 9), -10 ** r.randint(1, 9), 10 ** r.randint(1, 9) - 1])
    return [r.randint(0, 1), pick(), pick()]


def fmt_string(r, f):
    """The ways in which formats are written (blanks only after the commas)."""
    b = lambda: r.choice(["", " ", " ", "  "])
    t = "(%d,%s%d,%s%d)" % (f[0], b(), f[1], b(), f[2])
    c = r.random()
    if c < 0.3:
        t = "FixFormat" + t
    elif c < 0.4:
        t = r.choice([" ", "fmt = ", "r_fmt: ", "[", "12 "]) + t
    if r.random() < 0.25:
        t += r.choice([" ", ";", " (1,2,3)", ")", " -- 1", "\t"])
    return t


def casing(r, t):
    c = r.random()
    if c < 0.3:
        return t
    if c < 0.45:
        return t.lower()
    if c < 0.6:
        return t.upper()
    if c < 0.75:                        # one letter
        i = r.randrange(len(t))
        return t[:i] + t[i].swapcase() + t[i + 1:]
    return "".join(r.choice([x.lower(), x.upper()]) for x in t)


def requests(g):
    """(requests to Python, requests to VHDL)"""
    r = g.r
    P, V = [], []
    first = lambda: r.choice([1, 1, 1, 2, 5, 100])
    for _ in range(n(500, 5000)):
        V.append(g.req("fmt_to_string", src="vhdl", fa=field_fmt(g)))
        f = field_fmt(g)
        V.append(g.req("fmt_from_string", src="vhdl", fa=[], want=f, codes=codes(fmt_string(r, f)), first=first()))
        f = field_fmt(g)
        if f[1] + f[2] >= 0:
            P.append(g.req("fmt_text", fa=f, how=r.choice(["str", "repr", "to_string", "format"])))
    for t, names in NAMES.items():
        op = "rnd" if t == "rnd" else "sat"
        for i, name in enumerate(names):
            V.append(g.req(op + "_to_string", src="vhdl", **{op: i}))
            P.append(g.req("mode_text", table=t, x=[i]))
            P.append(g.req("mode_parse", table=t, want=i, codes=codes(name)))
            for _ in range(n(30, 400)):
                V.append(g.req(op + "_from_string", src="vhdl", want=i, codes=codes(casing(r, name)), first=first()))
    for _ in range(n(3000, 30000)):
        c = r.random()
        f = g.fmt(g.fmt_kinds())
        if c < 0.5:                     # the binary point at the ends and beyond them
            w = r.choice([1, 2, 3, r.randint(1, 12), r.randint(1, 80)])
            s = r.randint(0, 1)
            F = r.choice([-1, -2, -r.randint(1, 20), w - s, w - s + 1, w - s, w, w - 1, 0, 0, w + r.randint(1, 20), r.randint(0, w)])
            f = [s, w - s - F, F]
            if f[1] + f[2] < 0 or w < 1:
                continue
        w = width(f)
        bits = "".join(r.choice("01") for _ in range(w))
        if r.random() < 0.15:
            bits = r.choice(["0", "1"]) * w
        if f[0] + f[1] >= 0 and r.random() < 0.2:
            bits = "".join(r.choice("01UXZWLH-") for _ in range(w))
        V.append(g.req("val_to_string", src="vhdl", fa=f, bits=codes(bits), dir=r.randint(0, 2)))
    return P, V


def event(q, o, src):
    """(event for TraceTexts, readable form)"""
    op, st = q["op"], o["st"]
    x = o["r"]["x"] if st == "ok" else []
    plain = {k: v for k, v in q.items() if v not in ([], None)}
    plain.update(impl=src, st=st, out="".join(map(chr, x)) if o["r"]["kind"] == "str" and op != "mode_parse" and op != "fmt_eval"
                 else x or o["r"]["v"], why=o.get("why", ""))
    if "codes" in q:
        plain["text"] = "".join(map(chr, q["codes"]))
    if st != "ok":
        return {"op": "fmt_text", "st": st}, plain
    if op in ("fmt_to_string", "fmt_text"):
        return {"op": "fmt_text", "st": st, "text": x, "f": q["fa"]}, plain
    if op in ("fmt_from_string", "fmt_eval"):
        return {"op": "fmt_parse", "st": st, "text": q["codes"], "f": x}, plain
    if op in ("rnd_to_string", "sat_to_string"):
        return {"op": "mode_text", "st": st, "table": op[:3], "text": x, "i": q[op[:3]]}, plain
    if op == "mode_text":
        return {"op": "mode_text", "st": st, "table": q["table"], "text": x, "i": q["x"][0]}, plain
    if op in ("rnd_from_string", "sat_from_string"):
        return {"op": "mode_parse", "st": st, "table": op[:3], "text": q["codes"], "i": o["r"]["v"][0]}, plain
    if op == "mode_parse":
        return {"op": "mode_parse", "st": st, "table": q["table"], "text": q["codes"], "i": x[0]}, plain
    return {"op": "value_text", "st": st, "text": x, "bits": q["bits"], "f": q["fa"]}, plain


@check("C17")
def c17(c):
    c.model("MC_Texts", f"SPECIFICATION Spec\nCONSTANTS\n  LimbBits = 15\n  R = {n(3, 4)}\n"
            "INVARIANTS Faithful Unique Values ValuesUnique PointUnique Modes\nCHECK_DEADLOCK FALSE\n",
            "texts of small formats, of values and of all modes")
    g = Gen(SEED)
    r = g.r
    P, V = requests(g)
    op_ = py.execute(P)
    evs = [event(q, op_[q["id"]], "py") for q in P]
    # what Python printed is read again, by Python and in VHDL
    P2 = []
    for q in P:
        o = op_[q["id"]]
        if o["st"] != "ok" or "x" not in o["r"]:
            continue
        if q["op"] == "fmt_text":
            if q["how"] == "repr":
                P2.append(g.req("fmt_eval", codes=o["r"]["x"], want=q["fa"]))
            if max(map(abs, q["fa"])) <= TOP:
                V.append(g.req("fmt_from_string", src="vhdl", want=q["fa"], codes=o["r"]["x"], first=1))
        elif q["op"] == "mode_text":
            V.append(g.req(q["table"] + "_from_string", src="vhdl", want=q["x"][0], codes=o["r"]["x"], first=1))
    o2 = py.execute(P2, "py2")
    evs += [event(q, o2[q["id"]], "py") for q in P2]
    ov = vhdl.execute(V, "vh")
    # what VHDL printed is read again in VHDL
    V2 = []
    for q in V:
        o = ov[q["id"]]
        if o["st"] == "ok" and q["op"] in ("fmt_to_string", "rnd_to_string", "sat_to_string"):
            k = q["op"][:3]
            V2.append(g.req(k + "_from_string", src="vhdl", want=q["fa"] or q[k], codes=o["r"]["x"], first=1))
    ov2 = vhdl.execute(V2, "vh2")
    evs += [event(q, ov[q["id"]], "vhdl") for q in V] + [event(q, ov2[q["id"]], "vhdl") for q in V2]
    c.trace("TraceTexts", [e for e, _ in evs], {"refused", "text", "parse"}, "texts printed and parsed by Python and VHDL",
            [p for _, p in evs])

    # formats files of the Python side, read by the VHDL side
    files = Files()
    pairs = []
    for _ in range(n(150, 1500)):
        fs = [f for f in (field_fmt(g) for _ in range(r.choice([1, 2, 5]))) if f[1] + f[2] >= 0] or [[1, 2, 3]]
        fn = files.new()
        k = r.random()
        q = g.req("write_formats", fs=fs[:1] if k < 0.2 else fs, scalar=k < 0.2, arr=0.2 < k < 0.4,
                  names=r.choice([["a"], ["fmt", "r"], []]), fn=fn)
        fs = q["fs"]
        if r.random() < 0.5:
            rd = {"op": "read_fmts", "skip": 1, "fn": fn, "dflt": r.random() < 0.5}
        else:
            rd = {"op": "read_fmt_seq", "fn": fn, "items": [{"skip": int(i == 0), "close": 0} for i in range(len(fs))]}
        pairs.append((q, dict(rd, fmts=fs)))
    ow = py.execute([q for q, _ in pairs], "pyf")
    number([rd for _, rd in pairs])
    good = [(q, rd) for q, rd in pairs if ow[q["id"]]["st"] == "ok" and os.path.exists(q["fn"])]
    orr = text.execute([rd for _, rd in good], "txf")
    evs = [({"op": "fmt_text", "st": "refused"}, dict(q, why=ow[q["id"]].get("why"))) for q, rd in pairs if (q, rd) not in good]
    for q, rd in good:
        o = orr[rd["id"]]
        got = o["r"]["bits"] if o["st"] == "ok" else []
        rows = text.lines_of(q["fn"])[1:]
        st = o["st"] if len(got) == len(rows) == len(q["fs"]) else "refused"
        plain = dict(rd, out=got, rows=["".join(map(chr, x)) for x in rows], st=st, why=o.get("why", ""))
        if st != "ok":
            evs.append(({"op": "fmt_text", "st": st}, plain))
            continue
        for row, f, x in zip(rows, q["fs"], got):
            evs.append(({"op": "fmt_text", "st": "ok", "text": row, "f": f}, plain))
            evs.append(({"op": "fmt_parse", "st": "ok", "text": row, "f": x}, plain))
    c.trace("TraceTexts", [e for e, _ in evs], {"refused", "text", "parse"}, "formats files written by Python, read in VHDL",
            [p for _, p in evs], name="TraceTexts_files")
