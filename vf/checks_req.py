"""C19: what is refused and what is not."""
from . import drive, plans, py, text, vhdl
from .checks import array_req, check, compare_req, int_req, mixed_plan, n, near_limit, real_req, toreal_req
from .checks_str import NAMES, casing, field_fmt, fmt_string
from .checks_text import codes
from .common import SEED
from .gen import Gen, hi, is_wide, lo, mid_fmt, narrow_ok, ok, round_fmt, width

CLASS = {"object": "wide", "float64": "narrow"}


def rep_of(q, o, f):
    d = q.get(o)
    if not d or not d["v"] or q["op"] in ("from_real", "from_integer") or q["src"] == "vhdl":
        return ""
    if q["op"] == "unpack":
        return "words" if d.get("as", "uint64") == "uint64" else "other"
    if d.get("as"):
        return CLASS.get(d["as"], "other")
    if q["src"] != "py":
        return q["src"]
    return "wide" if q["op"] == "pack" or is_wide(f) else "narrow"


def small_values(g, f, k):
    vs = [v for v in (0, 1, -1, 2) if lo(f) <= v <= hi(f)] or [0]
    return [g.r.choice(vs) for _ in range(k)]


def reshape(g, d, v=None):
    """Another shape for operand data d."""
    r = g.r
    sh = r.choice([[], [1], [3], [2, 2]])
    k = 1
    for s in sh:
        k *= s
    v = list(v if v is not None else d["v"])
    return dict(d, sh=sh, v=[v[i % len(v)] for i in range(k)], **({"hex": [d["hex"][i % len(v)] for i in range(k)]} if "hex" in d else {}))


def edit_fmt(r, f):
    g = list(f)
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.randint(0, 2)
        g[i] = 1 - g[i] if i == 0 else g[i] + r.choice([1, -1, 1, -1, 2, -2, 5])
    return g


def null_fmt(r):
    k = r.choice([0, 0, 1, -1, r.randint(-20, 20)])
    return [0, -k, k]


def well_formed_fr(f):
    return ok(f) and width(f) > 0


def edited(g):
    """One request with some part changed, so that it may have lost its meaning."""
    r = g.r
    c = r.randint(0, 11)
    if c == 0:
        a = r.choice([r.randint(-3, 3), r.randint(-100, 100)])
        return g.req("format", fa=[r.choice([0, 1, 0, 1, 2, -1, 3, 10]), a, -a + r.choice([0, -1, 1, 0, -1, -2, -5, 3, 40])])
    if c == 1:
        q = g.round_req(2)
        f = edit_fmt(r, q["fr"])
        return dict(q, fr=f) if well_formed_fr(f) else q
    if c == 2:
        q = g.sat_req(2)
        f = list(q["fr"])
        d = r.choice([1, -1, 1, -1, 2, -2, 7])
        f[2] += d
        if r.random() < 0.5:            # same width
            f[1] -= d
        return dict(q, fr=f) if well_formed_fr(f) else q
    if c == 3:
        q = real_req(g, 3)
        if r.random() < 0.4:
            q = g.req("from_real", fr=q["fr"], a={"sh": [2], "v": [0, 0], "F": 0, "hex": [(0.0).hex()] * 2, "pres": "array"})
        return dict(q, sat=r.randint(0, 3), a=reshape(g, q["a"]))
    if c == 4:
        q = int_req(g, "from_integer", 4)
        f = q["fr"]
        a = reshape(g, q["a"])
        if r.random() < 0.7:
            i = r.randrange(len(a["v"]))
            w = 1 << width(f)
            a["v"][i] = r.choice([hi(f) + 1, lo(f) - 1, hi(f) + r.randint(1, 100), lo(f) - r.randint(1, 100), hi(f) + w, lo(f) - w,
                                  w, -w, hi(f), lo(f), 2 * w + g.value(f)])
        q = dict(q, a=a, dt="int64" if all(-2**63 <= v < 2**63 for v in a["v"]) and r.random() < 0.7 else "object")
        if a.get("pres") not in (None, "array"):
            a["pres"] = "array"
        if width(f) < 54 and max(abs(v) for v in a["v"]) > 2**1000:
            return edited(g)
        return q
    if c == 5:
        fa, fb = g.fmt_pair()
        k = r.randint(0, 2)
        if k == 0:
            fa = null_fmt(r)
        elif k == 1:
            fb = null_fmt(r)
        op = r.choice(["add_fmt", "sub_fmt", "addsub_fmt", "mult_fmt", "neg_fmt", "abs_fmt", "shift_fmt", "round_fmt", "union_fmt"])
        if op == "union_fmt":
            return g.req(op, fs=[fa, fb])
        if op in ("neg_fmt", "abs_fmt"):
            return g.req(op, fa=fa)
        if op == "shift_fmt":
            x = r.randint(-5, 5)
            return g.req(op, fa=fa, x=[x, x + r.choice([0, 1, 3])])
        if op == "round_fmt":
            return g.req(op, fa=fa, x=[fa[2] + r.randint(-4, 2)], rnd=r.randint(0, 6))
        return g.req(op, fa=fa, fb=fb)
    if c == 6:                          # operations on operands without bits
        op = r.choice(["add", "sub", "addsub", "mult", "neg", "abs", "shift", "round", "resize", "in_range"])
        fa, fb = null_fmt(r), g.fmt(r.choice(["tiny", "small"]))
        fr = g.near_fmt(fb)
        kw = {}
        zero = {"sh": [1], "v": [0], "F": fa[2], "pres": "array"}
        if op in ("add", "sub", "addsub", "mult"):
            kw = {"fb": fb, "b": dict(g.data(fb, 1))}
            if op == "addsub":
                kw["sel"] = {"sh": [1], "v": [r.randint(0, 1)]}
            if r.random() < 0.5:
                return g.req(op, fa=fb, a=kw["b"], fr=fr, **dict(kw, fb=fa, b=zero))
        if op == "shift":
            kw["k"] = {"sh": [], "v": [r.randint(-3, 3)]}
        return g.req(op, fa=fa, fr=fr, a=zero, sat=r.randint(0, 3) if op != "in_range" else 0, **kw)
    if c == 7:
        x = r.randint(-6, 6)
        return g.req("shift_fmt", fa=g.fmt(), x=[x, x + r.choice([0, 1, -1, -1, -1, -2, -7, 3])])
    if c in (8, 9):                     # representation
        q = r.choice([g.round_req, g.sat_req, g.resize_req, lambda: g.resize_req(op="in_range"), g.arith_req, g.arith_req,
                      lambda: toreal_req(g), lambda: int_req(g, "to_integer"), lambda: compare_req(g)])()
        o = "b" if q.get("b") and r.random() < 0.5 else "a"
        f = q["f" + o]
        d = dict(q[o], v=small_values(g, f, len(q[o]["v"])), pres="array")
        if is_wide(f):
            d["as"] = r.choice(["float64", "int64", "floatobj", "float32", "object", "uint64" if not f[0] else "int64"])
        else:
            d["as"] = r.choice(["object", "int64", "float32", "float64", "bool", "int32"])
        if "hex" in d:
            d.pop("hex")
        if d["as"] in ("bool", "uint64"):
            d["v"] = [abs(v) & 1 for v in d["v"]]
        if d["as"] == "float64" and not is_wide(f):
            d.pop("as")
        return dict(q, **{o: d})
    if c == 10:
        f = g.fmt(r.choice(["small", "mid", "edge", "wideedge", "wide"]))
        return g.req("construct", src=r.choice(["narrow", "wide"]), fa=f,
                     a={"sh": r.choice([[1], [2]]), "v": small_values(g, f, 2), "F": f[2], "pres": "array",
                        "as": r.choice(["object", "float64", "int64", "float32", "floatobj"])})
    f = g.fmt(r.choice(["small", "edge", "wideedge", "wideedge", "wide", "wide"]))
    if r.random() < 0.5:
        return g.req("pack", fa=f, a={"sh": [2], "v": small_values(g, f, 2), "F": f[2], "pres": "array",
                                      "as": r.choice(["object", "object", "float64", "int64", "floatobj"])})
    words = (width(f) + 63) // 64
    return g.req("unpack", fr=f, a={"sh": [2, words], "v": [r.randint(0, 1) for _ in range(2 * words)], "F": 0, "pres": "array",
                                    "as": r.choice(["uint64", "uint64", "int64", "float64", "object"])})


def fix_shapes(q):
    """Operand data as one consistent array request."""
    for o in ("a", "b"):
        d = q.get(o)
        if d and d["v"]:
            k = 1
            for s in d["sh"]:
                k *= s
            if k != len(d["v"]):
                d["v"] = (d["v"] * k)[:k]
    return q


def object_variants(g, q):
    """The same request on objects, where it exists there."""
    op = q["op"]
    if op in ("format", "construct") or op.endswith("_fmt") or q.get("a", {}).get("pres") not in (None, "array"):
        return []
    if any(q.get(o, {}).get("as") for o in ("a", "b")) and op == "compare":
        return [drive.with_src(g, q, s) for s in ("narrow", "wide") if s == "wide" or not (is_wide(q["fa"]) or is_wide(q["fb"]))]
    if op == "compare":
        return [drive.with_src(g, q, "wide")] + ([drive.with_src(g, q, "narrow")] if narrow_ok(q) else [])
    if op in ("pack", "unpack"):
        return []
    out = []
    if op not in ("in_range", "to_integer", "from_integer"):
        out.append(drive.with_src(g, q, "wide"))
    if op != "to_real" and narrow_ok(q):
        out.append(drive.with_src(g, q, "narrow"))
    return out


def judge(c, rec, what):
    """rec: recorded calls; the specification says which of them have a meaning."""
    def event(q, o, small):
        e = drive.event(q, o, small)
        e = {k: e[k] for k in ("op", "src", "fa", "fb", "fr", "rnd", "sat", "a", "b", "sel", "k", "x", "fs")}
        e.update(st=st(o), ra=rep_of(q, "a", q["fa"]), rb=rep_of(q, "b", q["fb"]))
        if q["op"] != "from_integer":   # the values do not matter
            for k in ("a", "b"):
                e[k] = {"sh": [], "v": [], "F": 0}
        return e

    st = lambda o: "ok" if o.get("did") or o["st"] == "ok" else o["st"]
    parts = {True: [], False: []}
    for q, o in rec:
        parts[drive.fits_small(q, o)].append((q, o))
        k = q["op"] + "/" + st(o)
        c.notes.setdefault("requests", {}).setdefault(what, {}).setdefault(k, 0)
        c.notes["requests"][what][k] += 1
    for small, part in parts.items():
        if part:
            c.either("TraceRequests", lambda sm: [event(q, o, sm) for q, o in part], small, {"accepted", "refused"}, what,
                     plains=[drive.plain(q, o) for q, o in part])


# ---- texts ----------------------------------------------------------------------------------------------
def spoil(r, t):
    """A text with something missing or changed."""
    for _ in range(r.choice([1, 1, 2])):
        if not t:
            break
        i = r.randrange(len(t))
        p = [k for k, x in enumerate(t) if x in "(,)"]
        c = r.random()
        if c < 0.6 and p:
            i = r.choice(p)
            t = t[:i] + r.choice(["", " ", ".", ";"]) + t[i + 1:]
        elif c < 0.8:
            t = t[:i]
        else:
            t = t[:i] + r.choice("23x (") + t[i + 1:]
    return t


def text_requests(g):
    r = g.r
    V = []
    for _ in range(n(250, 2500)):
        f = field_fmt(g)
        if r.random() < 0.3:
            t, want = fmt_string(r, f), f
        else:
            t = fmt_string(r, [r.choice([0, 1, 2, 3, 9]), f[1], f[2]])
            if r.random() < 0.75:
                t = spoil(r, t)
            want = []
        V.append(g.req("fmt_from_string", src="vhdl", want=want, codes=codes(t), first=1))
    for t, names in NAMES.items():
        for name in names:
            for _ in range(n(12, 120)):
                x = casing(r, name)
                if r.random() < 0.75:
                    i = r.randrange(len(x))
                    x = r.choice([x[:-2], x[:i] + x[i + 1:], x + r.choice("s _"), " " + x, x[:i] + r.choice("abz_1") + x[i + 1:],
                                  r.choice(NAMES["sat" if t == "rnd" else "rnd"]), "", x.replace("_", "-")])
                V.append(g.req(t + "_from_string", src="vhdl", want=-1, codes=codes(x), first=1))
    return V


def text_event(q, o):
    if q["op"] == "fmt_from_string":
        return {"op": "fmt_try", "st": o["st"], "text": q["codes"], "f": q["want"]}
    return {"op": "mode_try", "st": o["st"], "table": q["op"][:3], "text": q["codes"]}


# ---- VHDL -----------------------------------------------------------------------------------------------
def hw_requests(g):
    """Requests to the VHDL package that may have lost their meaning."""
    r = g.r
    V = []
    for _ in range(n(1200, 8000)):
        c = r.randint(0, 5)
        if c == 0:
            q = g.round_req(1)
            q["fr"] = r.choice([q["fr"], edit_fmt(r, q["fr"]), edit_fmt(r, q["fr"])])
            if r.random() < 0.4:
                q = g.req("pipe_round", fa=q["fa"], fr=q["fr"], rnd=q["rnd"])
        elif c == 1:
            q = g.sat_req(1)
            q["fr"] = r.choice([q["fr"], edit_fmt(r, q["fr"]), edit_fmt(r, q["fr"])])
            if r.random() < 0.4:
                q = g.req("pipe_sat", fa=q["fa"], fr=q["fr"], sat=q["sat"])
        elif c == 2:
            q = dict(real_req(g, 1), sat=r.randint(0, 3))
        elif c == 3:
            x = r.randint(-6, 6)
            q = g.req("shift_fmt", fa=g.fmt(), x=[x, x + r.choice([0, 1, 4, -1, -1, -3])])
        elif c == 4:
            q = compare_req(g, 1)
            q["x"] = [r.choice([1, 2, 3, 4, 5, 6, 7, 7, 7, 8, 9, 10, 11, 12])]
        else:
            q = g.resize_req(1)
        if q["fr"] and not well_formed_fr(q["fr"]):
            continue
        V += g.elements(q) if q.get("a") else [dict(q, src="vhdl")]
    return V


@check("C19")
def c19(c):
    c.model("MC_Requests", f"SPECIFICATION Spec\nCONSTANTS\n  MaxW = {n(3, 5)}\n  Fs = {{0, 2}}\n"
            "INVARIANTS Same Total Resizable OneRound Integers\nCHECK_DEADLOCK FALSE\n",
            "a request without a reason against it has exactly one answer, which the result format holds; the others have none")
    g = Gen(SEED)
    plan = [fix_shapes(edited(g)) for _ in range(n(6000, 60000))]
    objs = [v for q in plan for v in object_variants(g, q)]
    plan = [q for q in plan if q["op"] != "compare"]
    judge(c, drive.record_py(plan) + drive.record_py(objs, "obj"), "edited requests to the Python package")
    plan = [q for q in hw_requests(g) if drive.vhdl_real_ok(q)]
    out = vhdl.execute(plan, "hwreq", reruns=len(plan))
    judge(c, [(q, out[q["id"]]) for q in plan], "edited requests to the VHDL package")
    plan = text_requests(g)
    out = vhdl.execute(plan, "hwtext", reruns=len(plan))
    c.trace("TraceTexts", [text_event(q, out[q["id"]]) for q in plan], {"accepted", "refused"}, "spoilt texts for the VHDL package",
            [dict(drive.plain(q, out[q["id"]]), text="".join(map(chr, q["codes"]))) for q in plan])
    # well-formed requests of every kind are answered
    plan = mixed_plan(g, n(250, 2500)) + [near_limit(g) for _ in range(n(500, 5000))]
    plan += [int_req(g, "to_integer") for _ in range(n(300, 3000))]
    rec = drive.record_py(plan + [array_req(g) for _ in range(n(1500, 15000))])
    rec += drive.record_py([v for q in plan for v in object_variants(g, q)], "obj")
    rec += drive.record_vhdl(g, [q for q in plan if q["op"] not in ("from_integer", "to_integer")], group=False)
    judge(c, rec, "well-formed requests")
