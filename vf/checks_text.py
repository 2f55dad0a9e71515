"""The checks of the properties of the testbench library: text files (C16), arrays (C20)."""
import os
from . import py, text
from .checks import check, n
from .common import SEED, path
from .gen import Gen, lo, hi, width, ok
from .num import enc

WIDTHS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 16, 17, 31, 32, 33, 53, 54, 63, 64, 65, 66, 100, 127, 128, 130]
NUMERIC = ["bits_signed", "bits_unsigned", "signed", "unsigned", "slv", "bv", "sulv", "integer", "fix"]
SINGLE = ["bits_signed", "bits_unsigned", "signed", "unsigned", "slv", "bv", "integer", "std_logic", "bit", "fix"]
HEADERS = ["", "", "# data", "1 2 3", "x", "-7;8", "# 0101 header, with numbers 12"]


def signed_of(g, ty):
    s = text.TYPES[text.TY[ty]][3]
    return g.r.randint(0, 1) if s is None else s


def width_of(g, ty):
    return {"integer": 32, "std_logic": 1, "bit": 1}.get(ty) or g.r.choice(WIDTHS + [g.r.randint(1, 150)])


def value(g, w, s):
    r = g.r
    a, b = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    c = r.random()
    if c < 0.25:
        v = r.choice([a, a + 1, -1, 0, 1, b - 1, b])
    elif c < 0.5:
        v = r.randint(-16, 16)
    elif c < 0.7:
        v = r.choice([1, -1]) * 10 ** r.randint(0, max(1, w // 3)) + r.randint(-1, 1)
    elif c < 0.8:
        v = r.choice([1, -1]) * (1 << r.randint(0, w)) + r.randint(-1, 1)
    else:
        v = r.randint(a, b)
    return v if a <= v <= b else r.randint(a, b)


def numeral(g, v, w, s, mode):
    """A numeral as a file may contain it; the reader wants full-width binary and hexadecimal numerals."""
    r = g.r
    if mode == "bin":
        return format(v & ((1 << w) - 1), "0%db" % w)
    if mode == "hex":
        k = (w + 3) // 4
        t = format(v & ((1 << 4 * k) - 1), "0%dX" % k)
        return t.lower() if r.random() < 0.3 else t
    pad = "0" * r.choice([0, 0, 0, 1, 3])
    return ("-" if v < 0 else "") + pad + str(abs(v))


def params(g, types):
    r = g.r
    ty = r.choice(types)
    mode = r.choice(text.MODES)
    w, s = width_of(g, ty), signed_of(g, ty)
    return {"ty": ty, "mode": mode, "sgn": s, "w": w, "F": r.randint(-3, w + 3), "dflt": mode == "dec" and r.random() < 0.4}


def codes(t):
    return [ord(c) for c in t]


class Files:
    def __init__(self):
        self.n = 0

    def new(self):
        self.n += 1
        return path(f"data{self.n}.txt")


def c16_writes(g, files):
    r = g.r
    plan = []
    for _ in range(n(420, 3000)):
        p = params(g, NUMERIC)
        k = r.choice([0, 1, 1, 2, 5, 12])
        plan.append(dict(p, op="write_file", dir=r.randint(0, 1), header=r.choice(HEADERS), fn=files.new(),
                         data=[value(g, p["w"], p["sgn"]) for _ in range(k)]))
    for _ in range(n(150, 1200)):
        its = []
        for _ in range(r.choice([1, 2, 4, 8])):
            p = params(g, [t for t in SINGLE if t not in ("integer", "std_logic", "bit")])
            its.append(dict(p, v=value(g, p["w"], p["sgn"])))
        plan.append({"op": "write_seq", "fn": files.new(), "items": its})
    for _ in range(n(200, 1600)):
        mode = r.choice(text.MODES)
        its = []
        for j in range(r.choice([1, 2, 3, 5])):
            p = dict(params(g, [t for t in SINGLE if t not in ("std_logic", "bit")]), mode=mode)
            p["dflt"] = mode == "dec" and r.random() < 0.4
            v = value(g, p["w"], p["sgn"])
            sep = r.choice([" ", "  ", "\t", " "]) if mode != "dec" else r.choice([" ", ",", ", ", ";", "  ", "\t"])
            its.append(dict(p, v=v, sep=sep if j else ""))
        prefix = r.choice(["", "", "value=", "# ", "x: "])
        if prefix and mode == "hex":
            prefix = "x: "
        plan.append({"op": "write_line", "prefix": prefix, "items": its})
    for _ in range(n(40, 300)):
        fs = [g.fmt() for _ in range(r.choice([0, 1, 2, 6]))]
        fs = [f if r.random() < 0.7 else [f[0], f[1] + r.choice([0, 1000, -999]), f[2] + r.choice([1000, 123456])] for f in fs]
        plan.append({"op": r.choice(["write_fmts", "write_fmt_seq"]), "fmts": fs, "fn": files.new()})
    return plan


def write_text(fn, rows):
    with open(fn, "w") as f:
        f.write("".join(t + "\n" for t in rows))


def c16_reads(g, files, written):
    r = g.r
    plan = []
    # what the library wrote
    for q, o in written:
        if q["op"] == "write_file":
            ty = q["ty"]
            if r.random() < 0.2:        # another type of the same signedness
                ty = r.choice([t for t in NUMERIC if text.TYPES[text.TY[t]][3] in (None, q["sgn"])
                               and (t != "integer" or q["w"] == 32)])
            skip = int(q["header"] != "")
            plan.append(dict(q, op="read_file", ty=ty, skip=skip, dflt=bool(q["mode"] == "dec" and skip == 1 and q["dflt"]),
                             known=1))
        elif q["op"] == "write_seq":
            plan.append({"op": "read_seq", "fn": q["fn"], "items": [dict(i, func=r.randint(0, 1), skip=0, close=0)
                                                                   for i in q["items"]]})
        elif q["op"] == "write_line" and o["st"] == "ok" and not q["prefix"]:
            # an unsigned decimal number must come at the beginning of what is left of the line
            its = [dict(i, dflt=False) for i in q["items"]]
            plan.append({"op": "read_line", "row": "".join(map(chr, o["row"])), "items": its, "mode": its[0]["mode"]})
    # files of other origin: several columns, delimiters, padding, headers
    for _ in range(n(300, 2500)):
        p = params(g, NUMERIC)
        w, s, mode = p["w"], p["sgn"], p["mode"]
        rows, cols = r.choice([0, 1, 2, 4, 7]), r.choice([1, 1, 2, 3, 6])
        delim = r.choice([" ", "  ", "\t", " \t "]) if mode != "dec" else r.choice([" ", ",", ", ", ";", " ; ", "\t"])
        head = [r.choice(HEADERS[2:]) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        data = [[value(g, w, s) for _ in range(cols)] for _ in range(rows)]
        lead = "" if mode == "dec" and not s else r.choice(["", "", " ", "\t"])
        trail = r.choice(["", "", " ", "\t" if mode != "dec" else ","])
        fn = files.new()
        write_text(fn, head + [lead + delim.join(numeral(g, v, w, s, mode) for v in row) + trail for row in data])
        p["dflt"] = p["dflt"] and len(head) == 1
        plan.append(dict(p, op="read_file", skip=len(head), fn=fn, known=1, data=[v for row in data for v in row]))
        plan.append({"op": "sizes", "mode": mode, "skip": len(head), "fn": fn, "dflt": bool(mode == "dec" and len(head) == 1 and r.random() < 0.5)})
    # read step by step, rows of any kind
    for _ in range(n(220, 1800)):
        rows, its = [], []
        for _ in range(r.choice([1, 2, 3, 6])):
            p = params(g, SINGLE)
            w, s, mode = p["w"], p["sgn"], p["mode"]
            its.append(dict(p, func=r.randint(0, 1), skip=r.choice([0, 0, 1, 2]), close=0))
            rows += [r.choice(HEADERS[2:]) for _ in range(its[-1]["skip"])]
            rest = r.choice(["", "", " " + numeral(g, value(g, w, s), w, s, mode)])
            rows.append(numeral(g, value(g, w, s), w, s, mode) + rest)
        fn = files.new()
        if r.random() < 0.5:            # close, and start over
            its[-1]["close"] = 1
            its += [dict(i, close=int(r.random() < 0.3 and j == len(its) - 1)) for j, i in enumerate(its)]
        write_text(fn, rows)
        plan.append({"op": "read_seq", "fn": fn, "items": its})
    # lines with several numbers
    for _ in range(n(120, 900)):
        mode = r.choice(text.MODES)
        its, row = [], ""
        for j in range(r.choice([1, 2, 4])):
            p = dict(params(g, SINGLE), mode=mode, dflt=False)
            if j:
                row += r.choice([" ", "  "]) if mode != "dec" else r.choice([" ", ",", "; "])
            row += numeral(g, value(g, p["w"], p["sgn"]), p["w"], p["sgn"], mode)
            its.append(p)
        plan.append({"op": "read_line", "row": row, "items": its, "mode": mode})
    return plan


def c16_python(g, files):
    """Files written by the Python side, as (request, reading request)."""
    r = g.r
    res = []
    for _ in range(n(120, 900)):
        f = g.fmt(g.fmt_kinds())
        d = g.data(f, r.choice([1, 2, 5]), 0)
        k = len(d["v"])
        if r.random() < 0.4:
            c = r.choice([2, 3])
            d["v"] = [v for v in d["v"] for _ in range(c)]
            d["v"] = [r.choice(d["v"]) for _ in d["v"]]
            d["sh"] = [k, c]
        hdr = r.choice(["test", "Rounding modes", "a\nb", "fmt (1,2,3)"])
        fn = files.new()
        q = g.req("save", fa=f, a=d, fn=fn, header=hdr, delim=" " if f[0] else r.choice([" ", ","]))
        rd = {"op": "read_file", "ty": r.choice(["fix", "fix"] + (["signed", "bits_signed"] if f[0] else ["unsigned", "bits_unsigned"])),
              "mode": "dec", "sgn": f[0], "w": width(f), "F": f[2], "skip": hdr.count("\n") + 1, "fn": fn, "known": 1,
              "dflt": "\n" not in hdr and r.random() < 0.5, "data": d["v"]}
        res.append((q, rd))
    for _ in range(n(40, 300)):
        fs = [g.fmt(g.fmt_kinds()) for _ in range(r.choice([1, 2, 5]))]
        fn = files.new()
        c = r.random()
        q = g.req("write_formats", fs=fs[:1] if c < 0.2 else fs, scalar=c < 0.2, arr=0.2 < c < 0.4,
                  names=r.choice([["a"], ["fmt", "r"], []]), fn=fn)
        fs = q["fs"]
        if r.random() < 0.5:
            rd = {"op": "read_fmts", "skip": 1, "fn": fn, "dflt": r.random() < 0.5}
        else:
            its = [{"skip": int(i == 0), "close": 0} for i in range(len(fs))]
            if r.random() < 0.5:
                its[-1]["close"] = 1
                its += its[:-1] + [dict(its[-1], close=0)]
            rd = {"op": "read_fmt_seq", "fn": fn, "items": its}
        res.append((q, rd))
    return res


def item_ev(i):
    e = {"mode": i.get("mode", "dec"), "sgn": i.get("sgn", 0), "w": i.get("w", 1), "skip": i.get("skip", 0),
         "close": i.get("close", 0), "sep": codes(i.get("sep", ""))}
    if "v" in i:
        e["v"] = enc(i["v"])
    return e


def event(q, o, lines):
    """(event for TraceText, readable form)"""
    op = q["op"]
    st = o["st"]
    if st == "ok" and op != "read_line" and op != "write_line" and lines is None:
        st = "refused"                  # no such file
    e = {"op": {"write_fmt_seq": "write_fmts", "read_fmt_line": "read_fmts"}.get(op, op), "st": st}
    plain = {k: v for k, v in q.items() if k != "fn"}
    plain.update(st=st, out=o.get("r"), why=o.get("why", ""))
    if lines is not None:
        e["lines"] = lines
        plain["lines"] = ["".join(map(chr, x)) for x in lines]
    for k in ("mode", "sgn", "w", "skip", "known"):
        if k in q:
            e[k] = q[k]
    if st != "ok":
        return e, plain
    if "items" in q:
        e["items"] = [item_ev(i) for i in q["items"]]
    if op == "write_file":
        e.update(header=codes(q["header"]), data=[enc(v) for v in q["data"]])
    elif op == "read_file":
        e.update(data=[enc(v) for v in q["data"]])
    elif op == "write_line":
        e.update(prefix=codes(q["prefix"]), row=o["r"]["row"])
    elif op == "read_line":
        e.update(row=codes(q["row"]))
    elif op == "sizes":
        e.update(rows=o["r"]["rows"], cols=o["r"]["cols"])
    elif op in ("write_fmts", "write_fmt_seq"):
        e.update(fmts=q["fmts"])
    if op in ("read_file", "read_seq", "read_line"):
        for b, w in zip(o["r"]["bits"], [q["w"]] * len(o["r"]["bits"]) if op == "read_file" else [i["w"] for i in q["items"]]):
            if len(b) != w or "X" in b:
                e["st"] = plain["st"] = "refused"
                return {"op": e["op"], "st": "refused"}, plain
        e["out"] = [enc(int(b, 2)) for b in o["r"]["bits"]]
    if op in ("read_fmts", "read_fmt_seq", "read_fmt_line"):
        e["fmts"] = o["r"]["bits"]
    if op in ("read_seq", "read_fmt_seq"):
        e["closed"] = o["r"]["closed"]
    return e, plain


def number(plan, start=0):
    for i, q in enumerate(plan):
        q["id"] = start + i + 1
    return plan


def flat(outs):
    """Outcomes of vhdl.run_chunk with the parsed fields under r."""
    return outs


@check("C16")
def c16(c):
    c.model("MC_TextIO", f"SPECIFICATION Spec\nCONSTANTS\n  LimbBits = 15\n  MaxW = {n(2, 3)}\n  MaxRows = {n(3, 3)}\n  MaxCols = {n(2, 1)}\n"
            "INVARIANTS WrittenOK Unique BitsBack WholeFile Widths Order Progress\nCHECK_DEADLOCK FALSE\n",
            "small files: numerals, numbers of a file, reading step by step")
    g = Gen(SEED)
    files = Files()
    writes = number(c16_writes(g, files))
    ow = text.execute(writes, "txw")
    evs = []
    for q in writes:
        o = ow[q["id"]]
        if q["op"] == "write_line" and o["st"] == "ok":
            o["row"] = o["r"]["row"]
        evs.append(event(q, o, text.lines_of(q["fn"]) if "fn" in q else None))
    pyw = c16_python(g, files)
    op_ = py.execute([q for q, _ in pyw])
    reads = c16_reads(g, files, [(q, ow[q["id"]]) for q in writes if q["op"] == "write_line" or os.path.exists(q["fn"])])
    for q, rd in pyw:
        if op_[q["id"]]["st"] == "ok" and os.path.exists(q["fn"]):
            reads.append(rd)
        else:
            evs.append(({"op": "write_file", "st": "refused"}, dict(q, why=op_[q["id"]].get("why", ""))))
    for q, o in [(q, ow[q["id"]]) for q in writes]:
        if q["op"] in ("write_fmts", "write_fmt_seq") and os.path.exists(q["fn"]):
            if g.r.random() < 0.5 or not q["fmts"]:
                reads.append({"op": "read_fmts", "skip": 0, "fn": q["fn"]})
            else:
                reads.append({"op": "read_fmt_seq", "fn": q["fn"], "items": [{"skip": 0, "close": int(i == len(q["fmts"]) - 1)}
                                                                           for i in range(len(q["fmts"]))]})
    number(reads)
    before = {q["fn"]: text.lines_of(q["fn"]) for q in reads if "fn" in q}
    orr = text.execute(reads, "txr")
    for q in reads:
        evs.append(event(q, orr[q["id"]], before.get(q.get("fn"))))
    c.trace("TraceText", [e for e, _ in evs], {"refused", "denotes", "numbers", "trip", "sizes", "closed"},
            "text files written and read by the testbench library, and files of the Python side", [p for _, p in evs],
            elements=sum(len(e.get("data", e.get("items", [0]))) for e, _ in evs))


# ------------------------------------------------------------------------------------------------
# C20: array helpers
# ------------------------------------------------------------------------------------------------
def array_reqs(g):
    from . import arrays
    r = g.r
    plan = []
    for _ in range(n(6000, 50000)):
        ty, _, _, _, _, meta = r.choice(arrays.TYPES)
        w = r.choice([1, 1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 65, r.randint(1, 100)])
        k = r.choice([0, 1, 1, 2, 2, 3, 5, 8])
        chars = "01" if not meta or r.random() < 0.6 else "01UXZWLH-"
        word = lambda v=w, cs=chars: "".join(r.choice(cs) for _ in range(v))
        q = {"ty": ty, "w": w, "ar": r.randint(0, 1), "el": r.randint(0, 2)}
        c = r.random()
        if c < 0.25:
            q.update(op="flatten", x=[word() for _ in range(k)])
        elif c < 0.32:
            q.update(op="numel", x=[word() for _ in range(k)])
        elif c < 0.6:
            q.update(op=r.choice(["unflatten_p", "unflatten_f"]), n=k, v=word(w * k), vr=r.randint(0, 2))
        elif c < 0.93:
            cs = "01" if "signed" in ty else chars      # numeric comparison of metavalues is always false
            got = [word(cs=cs) for _ in range(k)]
            exp = list(got)
            d = r.random()
            if d < 0.45 and k:
                i = r.choice([0, k - 1, r.randrange(k)])
                j = r.choice([0, w - 1, r.randrange(w)])
                exp[i] = exp[i][:j] + r.choice([x for x in cs if x != exp[i][j]]) + exp[i][j + 1:]
            elif d < 0.55:
                exp = exp + [word(cs=cs)]
            elif d < 0.65:
                exp = exp[:-1]
            elif d < 0.7:
                got, exp = exp[:-1], got
            q.update(op=r.choice(["check", "check_c"]), got=got, expected=exp)
        else:
            if ty not in ("bv", "bits_unsigned", "bits_signed"):
                continue
            a = word()
            b = a
            if r.random() < 0.6:
                j = r.choice([0, w - 1, r.randrange(w)])
                b = b[:j] + ("1" if b[j] == "0" else "0") + b[j + 1:]
            q.update(op=r.choice(["vcheck", "vcheck_c"]), got=[a], expected=[b])
        plan.append(q)
    return number(plan)


def array_event(q, o):
    op = q["op"]
    st = o["st"]
    cs = lambda ws: [codes(x) for x in ws]
    plain = dict(q, st=st, out=o.get("r"), why=o.get("why", ""))
    e = {"op": "check" if "check" in op else op.split("_")[0], "st": st}
    if "check" in op:
        e.update(got=cs(q["got"]), expected=cs(q["expected"]), checker=int(op.endswith("_c")), failures=0, who=0)
    if st != "ok":
        return e, plain
    if "check" in op:
        e.update(failures=o["r"]["failures"], who=o["r"]["who"])
    elif op == "flatten":
        e.update(x=cs(q["x"]), w=q["w"], out=codes(o["r"]["d"][0]))
    elif op == "numel":
        e.update(x=cs(q["x"]), w=q["w"], out=o["r"]["n"])
    else:
        e.update(v=codes(q["v"]), w=q["w"], n=q["n"], out=cs(o["r"]["d"]))
    return e, plain


@check("C20")
def c20(c):
    from . import arrays
    c.model("MC_Arrays", f"SPECIFICATION Spec\nCONSTANTS\n  MaxW = {n(2, 3)}\n  MaxN = {n(3, 4) if n(2, 3) == 2 else 3}\n"
            "INVARIANTS RoundTrip Count Place Same Spot\nPROPERTY Stable\nCHECK_DEADLOCK FALSE\n", "small arrays: flattening and comparison")
    g = Gen(SEED)
    plan = array_reqs(g)
    out = arrays.execute(plan)
    evs = [array_event(q, out[q["id"]]) for q in plan]
    c.trace("TraceArrays", [e for e, _ in evs], {"refused", "value", "missed", "spurious", "checker"},
            "array helpers of all element types", [p for _, p in evs], small=True)
