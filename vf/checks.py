"""The checks of the properties that concern single calls."""
import math
import random
from fractions import Fraction
from . import drive, pipe, plans, py, vhdl
from .common import SEED, THOROUGH, MachineryError
from .gen import Gen, lo, hi, width, is_wide, ok, mid_fmt, round_fmt, narrow_ok
from .num import enc, dyadic, common

CHECKS = {}


def check(pid):
    def reg(f):
        CHECKS[pid] = f
        return f
    return reg


def n(quick, thorough):
    return thorough if THOROUGH else quick


def unary_model(c, invs, what, maxw=(4, 5)):
    c.model("MC_Unary", f"SPECIFICATION Spec\nCONSTANTS\n  MaxW = {n(*maxw)}\n  Fs = {{0, 2}}\n"
            f"INVARIANTS {invs}\nCHECK_DEADLOCK FALSE\n", what)


def binary_model(c, invs, what, fbs=("{0, 1, 3}", "{0, 1, 2, 3, 4}")):
    c.model("MC_Binary", f"SPECIFICATION Spec\nCONSTANTS\n  MaxW = 3\n  Fas = {{0}}\n  Fbs = {n(*fbs)}\n"
            f"INVARIANTS {invs}\nCHECK_DEADLOCK FALSE\n", what)


def everywhere(c, g, plan, claims, what, objects=True, hw=True, small=True):
    """Executes the plan on all implementations and judges every call."""
    rec = drive.record_py(plan)
    if objects:
        rec += drive.record_objects(g, plan)
    if hw:
        rec += drive.record_vhdl(g, plan)
    c.calls(rec, claims, what, small)
    return rec


# ------------------------------------------------------------------------------------------------
# C01, C02: result formats
# ------------------------------------------------------------------------------------------------
def fmt_requests(g):
    r = g.r
    box = [[S, I, F] for S in (0, 1) for I in range(-2, n(3, 4)) for F in range(-2, n(3, 4))]
    box = [f for f in box if ok(f) and width(f) >= 1]
    reqs = []
    for fa in box:
        for fb in box:
            for op in ("add_fmt", "sub_fmt", "addsub_fmt", "mult_fmt"):
                reqs.append(g.req(op, fa=fa, fb=fb))
            if r.random() < 0.3:
                reqs.append(g.req("union_fmt", fs=[fa, fb]))
        for op in ("neg_fmt", "abs_fmt"):
            reqs.append(g.req(op, fa=fa))
        for a in range(-3, 4):
            reqs.append(g.req("shift_fmt", fa=fa, x=[a, a], one=True))
            for b in range(a, 4):
                reqs.append(g.req("shift_fmt", fa=fa, x=[a, b]))
        for F in range(fa[2] - width(fa) - 2, fa[2] + 3):
            for rnd in range(7):
                reqs.append(g.req("round_fmt", fa=fa, x=[F], rnd=rnd))
    for _ in range(n(4000, 40000)):
        kind = r.choice(["tiny", "mid", "wide", "skew", "small", "power"])
        fa, fb = g.fmt(kind), g.fmt(r.choice([kind, "tiny", "skew", "power"]))
        if r.random() < 0.5:            # binary points and bounds that coincide or nearly do
            fb = g.near_fmt(fa, 3)
        if r.random() < 0.2:
            fb[1] = -fa[2] + r.randint(-1, 1)
            if not ok(fb) or width(fb) < 1:
                fb[2] = -fb[1] + r.randint(1, 4)
        if r.random() < 0.15:           # ... and formats of one bit next to anything
            d = r.randint(-3, 3)
            S = r.randint(0, 1)
            fb = [S, 1 - S - (fa[2] + d), fa[2] + d]
        if r.random() < 0.3:
            fa, fb = fb, fa
        op = r.choice(["add_fmt", "sub_fmt", "addsub_fmt", "mult_fmt", "neg_fmt", "abs_fmt", "shift_fmt", "round_fmt",
                       "union_fmt"])
        if op == "shift_fmt":
            a = r.randint(-60, 60)
            reqs.append(g.req(op, fa=fa, x=[a, a + r.choice([0, 1, r.randint(0, 70)])]))
        elif op == "round_fmt":
            reqs.append(g.req(op, fa=fa, x=[fa[2] + r.randint(-width(fa) - 5, 5)], rnd=r.randint(0, 6)))
        elif op == "union_fmt":
            k = r.choice([1, 2, 2, 3, 5])
            fs = [fa, fb] + [g.fmt() for _ in range(5)]
            r.shuffle(fs)
            reqs.append(g.req(op, fs=fs[:k], coll=r.choice(["list", "tuple", None if k == 2 else "list"])))
        elif op in ("neg_fmt", "abs_fmt"):
            reqs.append(g.req(op, fa=fa))
        else:
            reqs.append(g.req(op, fa=fa, fb=fb))
    return reqs


def fmt_check(c, claims):
    g = Gen(SEED)
    reqs = fmt_requests(g)
    op_ = py.execute(reqs)
    hw = [q for q in reqs if q["op"] != "union_fmt"]
    oh = vhdl.execute([dict(q, src="vhdl") for q in hw])
    small, big, ps, pb = [], [], [], []
    for q in reqs:
        outs = [["py", op_[q["id"]]]] + ([["vhdl", oh[q["id"]]]] if q["id"] in oh else [])
        e = {"op": q["op"][:-4], "fa": q["fa"], "fb": q["fb"] or [0, 0, 1], "fs": q.get("fs", []), "rnd": q["rnd"],
             "x": q["x"], "outs": [{"src": s, "st": o["st"], "f": o["r"]["x"]} for s, o in outs]}
        exps = [x for f in [q["fa"], q["fb"]] + e["fs"] + [o["f"] for o in e["outs"]] for x in f] + q["x"]
        s = all(abs(x) <= 6 for x in exps) and e["op"] != "mult" or all(abs(x) <= 3 for x in exps)
        (small if s else big).append(e)
        (ps if s else pb).append(e)
    c.trace("TraceFmtsSmall", small, claims, "result formats of small formats, Python and VHDL (native integers)", ps, small=True)
    c.trace("TraceFmts", big, claims, "result formats of larger formats, Python and VHDL", pb)


@check("C01")
def c01(c):
    binary_model(c, "Hold Verdicts", "result formats hold all exact results; verdicts on formats agree with their definition")
    unary_model(c, "RoundFits", "rounding formats hold all rounded values", (3, 5))
    fmt_check(c, {"refused", "small", "differ", "bad"})


@check("C02")
def c02(c):
    binary_model(c, "Verdicts", "the tightness verdicts single out exactly one format per operation")
    fmt_check(c, {"sign", "int", "frac", "bad"})


# ------------------------------------------------------------------------------------------------
# C03 .. C07
# ------------------------------------------------------------------------------------------------
@check("C03")
def c03(c):
    unary_model(c, "RoundExact RoundDown RoundNear RoundTies RoundMirror RoundMonotone RoundFits", "laws of rounding")
    g = Gen(SEED)
    everywhere(c, g, list(plans.rounds(g, n(5, 7), (0, 2), extra=2)), {"value", "status", "fmt"},
               "rounding: all small formats, targets, modes and values")
    everywhere(c, g, [g.round_req() for _ in range(n(2500, 20000))], {"value", "status", "fmt"},
               "rounding: formats of any width, values at ties and bounds")


@check("C04")
def c04(c):
    unary_model(c, "SatOK", "laws of saturation and wrapping")
    g = Gen(SEED)
    everywhere(c, g, list(plans.saturates(g, n(5, 7), (0, 2), extra=2)), {"value", "status", "fmt"},
               "saturation: all small formats, modes and values")
    plan = [g.sat_req() for _ in range(n(2500, 20000))]
    for q in plan:                      # scalars and 0-dimensional data as well
        if g.r.random() < 0.3:
            q["a"] = dict(q["a"], sh=[], v=q["a"]["v"][:1], pres=g.r.choice(["array", "scalar", "array"]))
    everywhere(c, g, plan, {"value", "status", "fmt"}, "saturation: formats of any width, values around the bounds")


def lonely(g, q):
    """Leaves at most one interesting element in the arrays of a request (0 is a value of every format)."""
    k = g.r.randrange(max(1, len(q["a"]["v"])))
    for o in ("a", "b"):
        if o in q:
            q[o] = dict(q[o], v=[v if i == k else 0 for i, v in enumerate(q[o]["v"])])
            if "hex" in q[o]:
                q[o]["hex"] = [h if i == k else "0x0p+0" for i, h in enumerate(q[o]["hex"])]
    return q


def stretch(g, q, L):
    """The same request on long arrays: the elements move to random places (one to the end), zeros fill the rest."""
    r = g.r
    k = len(q["a"]["v"])
    if any(o in q and (q[o]["sh"] != [k] or k == 0) for o in ("a", "b")):
        return None
    at = sorted(r.sample(range(L - 1), k - 1)) + [L - 1]
    sh = r.choice([[L], [L], [L // 25, 25]]) if L % 25 == 0 else [L]
    q = dict(q)
    for o in ("a", "b", "sel", "k"):
        if o in q and not (o in ("sel", "k") and q[o]["sh"] == []):
            fill = q[o]["v"][0] if o in ("sel", "k") else 0
            v = [fill] * L
            for i, j in enumerate(at):
                v[j] = q[o]["v"][i]
            q[o] = dict(q[o], v=v, sh=sh, pres="array")
            if "hex" in q[o]:
                h = ["0x0p+0"] * L
                for i, j in enumerate(at):
                    h[j] = q[o]["hex"][i]
                q[o]["hex"] = h
    return dict(q, id=g.req("resize")["id"])


def long_requests(g, narrow, wide, lone=0.5):
    """Requests on arrays of 1000 to 70000 elements, in all functions that take a saturation mode."""
    r = g.r
    out = []
    while narrow or wide:
        q = r.choice([g.sat_req, g.resize_req, lambda n: real_req(g, n), g.arith_req, g.arith_req])(n=4)
        if q["op"] != "from_real" and r.random() < 0.6:
            q["sat"] = r.choice([1, 3])
        if r.random() < lone:
            lonely(g, q)
        w = any(is_wide(q[f]) for f in ("fa", "fb", "fr") if q.get(f))
        if (wide if w else narrow) <= 0:
            continue
        L = r.choice([1025, 1100, 1500]) if w else 66000 if narrow == 1 else r.choice([1025, 2050, 4100, 5000, 9000])
        q = stretch(g, q, L)
        if q:
            out.append(q)
            narrow, wide = narrow - (not w), wide - w
    return out


@check("C05")
def c05(c):
    unary_model(c, "ResizeOK SatOK", "in range iff nothing is clipped or wrapped", (3, 4))
    g = Gen(SEED)
    r = g.r
    small = list(plans.saturates(g, 4, (0,))) + list(plans.resizes(g, 4, (0,), keep=n(0.1, 0.6)))
    small += list(plans.ariths(g, 3, (-1, 0, 1), keep=n(0.2, 1)))
    everywhere(c, g, small, {"warn"}, "warnings: small formats, all values")
    plan = []
    for _ in range(n(600, 5000)):
        plan += [g.sat_req(n=4), g.resize_req(n=4), real_req(g, 4)]
        plan += [g.arith_req(n=4) for _ in range(4)]
    for q in plan:
        if r.random() < 0.6:
            q["sat"] = r.choice([1, 3]) if q["op"] != "from_real" else 3
        if r.random() < 0.5:
            lonely(g, q)
    everywhere(c, g, plan, {"warn"}, "warnings: formats of any width, at most one offending element in half of the calls")
    everywhere(c, g, long_requests(g, n(30, 150), n(12, 80), 0.7), {"warn"}, "warnings: long arrays", hw=False)


@check("C06")
def c06(c):
    binary_model(c, "Hold Algebra", "exact results and their formats")
    g = Gen(SEED)
    claims = {"value", "status", "fmt", "shape"}
    everywhere(c, g, list(plans.ariths(g, 3, (-1, 0, 1, 3), keep=n(0.5, 1))), claims,
               "arithmetic: small formats, all operand values")
    everywhere(c, g, [g.arith_req() for _ in range(n(4500, 40000))], claims,
               "arithmetic: formats of any width, results aimed at ties and bounds")
    plan = []
    for _ in range(n(300, 3000)):       # without any optional argument: full precision
        q = g.arith_req(n=4)
        q.update(fr=[], rnd=0, sat=0, dflt=True)
        plan.append(q)
    everywhere(c, g, plan, claims, "arithmetic without a result format")
    plan = [with_dflt(q, "op") for q in plan]
    c.calls(drive.record_objects(g, plan), claims, "arithmetic operators of the objects")


def with_dflt(q, d):
    return dict(q, dflt=d)


@check("C07")
def c07(c):
    unary_model(c, "ResizeOK", "resize is round then saturate, identity on representable values, predicted by in_range")
    g = Gen(SEED)
    claims = {"value", "status", "fmt"}
    everywhere(c, g, list(plans.resizes(g, n(4, 5), (0,), keep=n(0.25, 0.5)))
               + list(plans.resizes(g, n(4, 5), (0,), "in_range", keep=n(0.7, 1))), claims,
               "resize and in_range: small formats, all values")
    everywhere(c, g, [g.resize_req() for _ in range(n(2500, 20000))] +
               [g.resize_req(op="in_range") for _ in range(n(2000, 15000))], claims,
               "resize and in_range: formats of any width")


# ------------------------------------------------------------------------------------------------
# C08, C09, C21: agreement of several executions
# ------------------------------------------------------------------------------------------------
def outcome(q, o, small):
    r = o["r"]
    nn = (lambda v: v) if small else enc
    return {"src": q["src"], "st": o["st"], "kind": r["kind"], "sh": r["sh"], "v": [nn(v) for v in r["v"]], "F": r["F"],
            "rep": r["rep"], "w": r["w"], "x": r["x"]}


def agree(c, kind, groups, claims, what):
    """groups: lists of recorded calls [(request, outcome)...] of the same request."""
    parts = {True: [], False: []}
    for rec in groups:
        parts[all(drive.fits_small(q, o) for q, o in rec)].append(rec)

    def event(rec, small):
        e = {k: v for k, v in drive.event(*rec[0], small).items() if k not in ("r", "st", "warn", "ws")}
        return dict(e, kind=kind, outs=[outcome(qq, o, small) for qq, o in rec])

    for small, part in parts.items():
        if part:
            c.either("TraceAgree", lambda sm: [event(rec, sm) for rec in part], small, claims, what,
                     plains=[{"request": {k: v for k, v in rec[0][0].items() if v not in ([], None)},
                              "outcomes": [dict(src=qq["src"], **o) for qq, o in rec]} for rec in part],
                     elements=sum(max(1, len(o["r"]["v"])) for rec in part for _, o in rec))


def mixed_plan(g, k, real=True):
    plan = []
    for _ in range(k):
        plan += [g.round_req(), g.sat_req(), g.resize_req(), g.resize_req(op="in_range"), int_req(g, "from_integer")]
        plan += [g.arith_req() for _ in range(5)]
        if real:
            plan += [real_req(g, 6), toreal_req(g, 6)]
    for _ in range(k // 2):
        plan += [g.req(op, fr=g.fmt(g.fmt_kinds(), 1)) for op in ("max_value", "min_value")]
    return plan


@check("C08")
def c08(c):
    unary_model(c, "ResizeOK", "resizing does not depend on the representation", (3, 4))
    g = Gen(SEED)
    plan = mixed_plan(g, n(450, 4000))
    plan += [near_limit(g) for _ in range(n(2000, 15000))]
    plan += list(plans.resizes(g, 3, (0, 1), keep=0.1)) + list(plans.ariths(g, 2, (-1, 0, 1)))
    rec = {q["id"]: [(q, o)] for q, o in drive.record_py(plan)}
    todo, parent = [], {}
    for q in plan:
        srcs = []
        if narrow_ok(q) and (q["op"] not in ("from_real", "max_value", "min_value", "from_integer") or not is_wide(q["fr"])):
            srcs.append("narrow")
        if q["op"] not in ("in_range", "to_integer", "from_integer"):
            srcs.append("wide")
        for s in srcs:
            x = drive.with_src(g, q, s)
            parent[x["id"]] = q["id"]
            todo.append(x)
    for q, o in drive.record_py(todo, "obj"):
        rec[parent[q["id"]]].append((q, o))
    agree(c, "rep", list(rec.values()), {"refused", "value", "rep"},
          "functions, narrow objects and wide objects: same numbers, right representation, on the grid")


def near_limit(g):
    """Requests whose formats lie on both sides of the 53-bit limit."""
    r = g.r
    c = r.random()
    if c < 0.4:
        fa = g.fmt(r.choice(["edge", "wideedge"]))
        w = r.randint(50, 57)
        fr = [r.randint(0, 1), 0, fa[2] + r.randint(-4, 4)]
        fr[1] = w - fr[0] - fr[2]
        op = r.choice(["resize", "in_range"])
        q = g.req(op, fa=fa, fr=fr, rnd=r.randint(0, 6), sat=r.randint(0, 3) if op == "resize" else 0,
                  a=g.data(fa, 6, max(0, fa[2] - fr[2]), g.bounds_in(fa, fr)))
        return q
    for _ in range(200):
        q = g.arith_req()
        m = mid_fmt(q["op"], q["fa"], q["fb"] or None, q["k"]["v"] if q["op"] == "shift" else None)
        if 50 <= width(m) <= 58 or (q["fr"] and 51 <= width(q["fr"]) <= 56):
            break
    return q


@check("C09")
def c09(c):
    unary_model(c, "BitsOK", "bit patterns identify values", (4, 5))
    g = Gen(SEED)
    plan = mixed_plan(g, n(450, 3500)) + [near_limit(g) for _ in range(n(500, 5000))]
    plan += [int_req(g, "to_integer", hw=True) for _ in range(n(300, 2000))]
    plan += list(plans.rounds(g, 4, (0,))) + list(plans.saturates(g, 4, (0,)))
    plan += list(plans.resizes(g, 4, (0,), keep=n(0.05, 0.4))) + list(plans.ariths(g, 3, (-1, 0, 2), keep=n(0.3, 1)))
    plan = [q for q in plan if drive.vhdl_real_ok(q) and (q["op"] != "from_integer" or all(-2**31 < v < 2**31 for v in q["a"]["v"]))]
    for q in plan:                      # VHDL shift has no default result format
        if q["op"] == "shift" and not q["fr"]:
            q["fr"] = mid_fmt("shift", q["fa"], None, q["k"]["v"])
    rec = drive.record_py(plan)
    hw = drive.record_vhdl(g, plan, group=False)
    it = iter(hw)
    groups = []
    for q, o in rec:
        m = 1 if q["op"] in drive.SINGLE else len(q["a"]["v"])
        parts = [next(it) for _ in range(m)]
        if o["st"] == "ok" and len(o["r"]["v"]) == m and all(p[1]["st"] == "ok" for p in parts):
            j = drive.join(q, parts)
            groups.append([(q, o), j])
        else:
            groups.append([(q, o)] + parts)
    agree(c, "agree", groups, {"refused", "value"}, "VHDL functions against Python functions")


# ------------------------------------------------------------------------------------------------
# C10: comparison
# ------------------------------------------------------------------------------------------------
def compare_req(g, n_=8):
    r = g.r
    fa, fb = g.fmt_pair()
    a, b = g.data(fa, n_), g.data(fb, n_)
    for i in range(n_):                 # equal, adjacent, or only different in sign / last bits
        c = r.random()
        if c < 0.6:
            F = max(fa[2], fb[2])
            x = a["v"][i] << (F - fa[2])
            y = (x >> (F - fb[2])) + r.choice([0, 0, 0, 1, -1])
            if c < 0.1:
                y = -y
            if c < 0.2 and width(fb) == width(fa):      # same bits, different meaning
                y = a["v"][i] if lo(fb) <= a["v"][i] <= hi(fb) else a["v"][i] - (1 << width(fb))
            if lo(fb) <= y <= hi(fb):
                b["v"][i] = y
    return g.req("compare", fa=fa, fb=fb, a=a, b=b, x=[r.randint(1, 6)])


@check("C10")
def c10(c):
    binary_model(c, "Compare", "comparison is the total order of the exact values")
    g = Gen(SEED)
    plan = [compare_req(g) for _ in range(n(4000, 30000))]
    for fa in plans.small_formats(3, (0, 1)):
        for fb in plans.small_formats(3, (-1, 0, 2)):
            for i in (range(1, 7) if THOROUGH else g.r.sample(range(1, 7), 3)):
                a, b = plans.pairs(fa, fb)
                plan.append(g.req("compare", fa=fa, fb=fb, a=plans.arr(a, fa[2]), b=plans.arr(b, fb[2]), x=[i]))
    rec = drive.record_objects(g, plan) + drive.record_vhdl(g, plan)
    signs = [g.req("sign", fa=f, a=plans.arr(plans.values(f), f[2])) for f in plans.small_formats(4, (0, 2, -2))]
    for _ in range(n(300, 3000)):
        f = g.fmt(g.fmt_kinds())
        signs.append(g.req("sign", fa=f, a=g.data(f, 6)))
    rec += drive.record_vhdl(g, signs)
    c.calls(rec, {"value", "status"}, "comparisons and sign queries")


# ------------------------------------------------------------------------------------------------
# C11: reals
# ------------------------------------------------------------------------------------------------
def hexes(xs):
    vals = [dyadic(float(x)) for x in xs]
    v, F = common(vals, 0)
    if any(v) and F == 0:               # keep the numbers short
        return v, 0
    return v, F


def to_double(q):
    """The double nearest to a number (or the largest finite one)."""
    try:
        return float(q)
    except OverflowError:
        return 1.7976931348623157e308 if q > 0 else -1.7976931348623157e308


def some_real(g, fr):
    r = g.r
    F = fr[2]
    c = r.random()
    L, H = lo(fr), hi(fr)
    base = r.choice([L, H, 0, L - 1, H + 1, 2 * L, 2 * H + 2, g.value(fr), g.value(fr), g.value(fr)])
    if c < 0.08:
        return r.choice([0.0, -0.0, 5e-324, -5e-324, 1e-300, -1e-300, 2.0**-1022, 1e300, -1e300, 1.7e308])
    if c < 0.14:
        return math.ldexp(r.choice([-1, 1]) * r.random(), r.randint(-60, 60))
    if c < 0.2 and F < 900:             # odd integers in units of the LSB, 2^52 .. 2^54
        k = r.randint(2**52, 2**54) | 1
        x = Fraction(k if r.random() < 0.5 else -k) / 2
        return to_double(x * Fraction(2) ** -F)
    q = Fraction(base)
    if c < 0.55:
        q += Fraction(1, 2) * r.choice([1, -1])
    elif c < 0.7:
        q += Fraction(r.randint(-8, 8), 8)
    elif c < 0.75:
        q += Fraction(r.randint(-2**30, 2**30), 2**30)
    x = to_double(q * Fraction(2) ** -F)
    if r.random() < 0.35:
        x = math.nextafter(x, r.choice([math.inf, -math.inf]))
    return x if math.isfinite(x) else 0.0


def real_req(g, k=6, fr=None):
    r = g.r
    fr = fr or g.fmt("vast" if r.random() < 0.01 else g.fmt_kinds())
    xs = [some_real(g, fr) for _ in range(k)]
    v, F = hexes(xs)
    return g.req("from_real", fr=fr, sat=r.choice([2, 3]), a={"sh": [k], "v": v, "F": F, "hex": [x.hex() for x in xs],
                                                            "pres": "array"})


def exact_value(g, f):
    """A value of format f that a double holds exactly."""
    for _ in range(100):
        v = g.value(f)
        d = abs(v)
        if d.bit_length() > 53:
            keep = g.r.randint(1, 53)
            v = (v >> (d.bit_length() - keep)) << (d.bit_length() - keep)
        top = abs(v).bit_length() - f[2]
        if v and not -1000 < top <= 1023:
            continue
        if lo(f) <= v <= hi(f) and abs(v).bit_length() - (abs(v) & -abs(v)).bit_length() + 1 <= 53:
            return v
    return 0


def toreal_req(g, k=6):
    f = g.fmt("vast" if g.r.random() < 0.01 else g.fmt_kinds())
    d = g.data(f, k)
    d["v"] = [exact_value(g, f) for _ in range(k)]
    return g.req("to_real", fa=f, a=d)


def near_req(g):
    """Wide data around the limit of precision of doubles."""
    r = g.r
    while True:
        f = g.fmt("wide")
        if f[1] < 900 and f[2] < 900 and is_wide(f):
            break
    k = r.choice([1, 1, 3])
    d = g.data(f, k)
    for i in range(k):
        if r.random() < 0.6:
            v = r.choice([-1, 1]) * (2**r.choice([52, 52, 53, 53, 54, 60]) + r.choice([-1, 0, 1, 1, 2, 3]))
            d["v"][i] = max(lo(f), min(hi(f), v))
    q = g.req("to_real_near", fa=f, a=d)
    return q if r.random() < 0.7 else drive.with_src(g, q, "wide")


@check("C11")
def c11(c):
    unary_model(c, "FromRealOK", "conversion of reals: nearest, half up, clipped, identity on representable values")
    g = Gen(SEED)
    r = g.r
    claims = {"value", "status", "lossy"}
    plan = []
    for f in plans.small_formats(n(5, 7), (0, 1, -2, 3)):
        # the whole range and beyond in quarter-LSB steps
        vs = list(range(4 * lo(f) - 10, 4 * hi(f) + 11))
        xs = [float(Fraction(v) * Fraction(2) ** -(f[2] + 2)) for v in vs]
        v, F = hexes(xs)
        plan.append(g.req("from_real", fr=f, sat=r.choice([2, 3]),
                          a={"sh": [len(xs)], "v": v, "F": F, "hex": [x.hex() for x in xs], "pres": "array"}))
        plan.append(g.req("to_real", fa=f, a=plans.arr(plans.values(f), f[2])))
    everywhere(c, g, plan, claims, "small formats: quarter-LSB grid over the range and beyond")
    plan = [real_req(g, 6) for _ in range(n(3000, 20000))] + [toreal_req(g) for _ in range(n(1200, 8000))]
    for q in plan:
        if r.random() < 0.25:
            q["a"] = dict(q["a"], sh=[], v=q["a"]["v"][:1], hex=q["a"].get("hex", [])[:1],
                          pres=r.choice(["array", "scalar", "npscalar"]))
            if q["op"] == "to_real" or not q["a"]["hex"]:
                q["a"].pop("hex")
                if is_wide(q["fa"]):
                    q["a"]["pres"] = "array"
    everywhere(c, g, plan, claims, "formats of any width: ties, neighbours of ties, bounds, extreme magnitudes")
    c.calls(drive.record_py([near_req(g) for _ in range(n(1500, 8000))]), claims | {"shape"}, "wide data that doubles need not hold")


# ------------------------------------------------------------------------------------------------
# C12: integers, bounds, zeros, random
# ------------------------------------------------------------------------------------------------
def int_req(g, op, k=6, hw=False):
    r = g.r
    f = g.fmt(g.fmt_kinds())
    if hw or (op == "to_integer" and r.random() < 0.3):
        w = r.randint(1, 31)
        f = [r.randint(0, 1), 0, r.randint(-6, w + 6)]
        f[1] = w - f[2]
        if not ok(f) or f[1] + f[2] > 31:
            f = [1, 31 - f[2], f[2]]
    d = g.data(f, k)
    if op == "to_integer":
        return g.req(op, fa=f, a=d)
    d["F"] = 0
    dt = "int64" if all(-2**63 <= v < 2**63 for v in d["v"]) and r.random() < 0.6 else "object"
    if not is_wide(f):
        dt = "int64"
    return g.req(op, fr=f, a=d, dt=dt)


@check("C12")
def c12(c):
    unary_model(c, "BitsOK FromRealOK", "bounds and bit patterns", (4, 5))
    g = Gen(SEED)
    r = g.r
    claims = {"value", "status", "shape", "rep", "fmt", "even"}
    plan = [int_req(g, "from_integer") for _ in range(n(1500, 10000))] + [int_req(g, "to_integer") for _ in range(n(1500, 10000))]
    for q in plan:
        if r.random() < 0.3:
            f = q["fr"] or q["fa"]
            q["a"] = dict(q["a"], sh=[], v=q["a"]["v"][:1], pres=r.choice(["array", "scalar"]))
        elif r.random() < 0.3:
            q["a"]["sh"] = r.choice([[3, 2], [2, 3], [1, 6], [6, 1], [1, 2, 3]])
    for f in plans.small_formats(n(5, 6), (0, 2, -1)):
        for op in ("max_value", "min_value"):
            plan.append(g.req(op, fr=f))
        plan.append(g.req("to_integer", fa=f, a=plans.arr(plans.values(f), f[2])))
        plan.append(g.req("from_integer", fr=f, dt="int64", a=plans.arr(plans.values(f), 0)))
    for _ in range(n(800, 5000)):
        plan += [g.req(op, fr=g.fmt(g.fmt_kinds())) for op in ("max_value", "min_value")]
    rec = drive.record_py(plan)
    rec += drive.record_objects(g, [q for q in plan if q["op"] in ("max_value", "min_value")], narrow=False)
    nw = [q for q in plan if (q["op"] == "to_integer" and not is_wide(q["fa"])) or
          (q["op"] in ("max_value", "min_value", "from_integer") and not is_wide(q["fr"]))]
    rec += drive.record_py([drive.with_src(g, dict(q, a=dict(q["a"], pres="array")) if "a" in q else q, "narrow") for q in nw], "obj")
    def hw_ok(q):
        if q["op"] == "from_integer":
            return all(-2**31 < v < 2**31 for v in q["a"]["v"])
        if q["op"] == "to_integer":
            return all(-2**31 < v < 2**31 for v in q["a"]["v"]) and q["fa"][1] + q["fa"][2] <= 31
        return True
    rec += drive.record_vhdl(g, [q for q in plan if hw_ok(q)])
    c.calls(rec, claims, "integers and bounds")
    plan = []
    for _ in range(n(500, 3000)):
        f = g.fmt(g.fmt_kinds())
        sh = r.choice([[], [1], [5], [2, 3], [3, 1, 2], [7]])
        plan += [g.req("zeros", fr=f, x=sh), g.req("random", fr=f, x=sh)]
    for f in plans.small_formats(4, (0, 1, -2, 60)):
        plan.append(g.req("random", fr=f, x=[20, 50]))
    for _ in range(n(12, 40)):
        plan.append(g.req("random", fr=g.fmt(g.fmt_kinds()), x=[8, 110]))
    for _ in range(n(60, 400)):
        plan.append(g.req("random_ends", fr=g.fmt(r.choice(["mid", "wide", "wide", "small"])), x=[200]))
    for _ in range(n(40, 200)):
        f = g.fmt(g.fmt_kinds())
        plan.append(g.req("zeros", fr=g.fmt("vast"), x=[2]))
        plan.append(g.req("random_twice", fr=f, x=[3] + r.choice([[200], [20, 10], [100 if width(f) > 2 else 200]])))
    c.calls(drive.record_py(plan), claims, "zeros and random data")


# ------------------------------------------------------------------------------------------------
# C13: uint64 packing
# ------------------------------------------------------------------------------------------------
@check("C13")
def c13(c):
    unary_model(c, "BitsOK", "bit patterns are lossless", (4, 5))
    g = Gen(SEED)
    r = g.r
    packs, unpacks = [], []
    for _ in range(n(1500, 12000)):
        w = r.choice([54, 55, 62, 63, 64, 65, 66, 100, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 320, r.randint(54, 200)])
        S = r.randint(0, 1)
        F = r.choice([0, 10, w - S, -7, r.randint(-20, w + 20)])
        f = [S, w - S - F, F]
        sh = r.choice([[], [1], [3], [2, 2], [2, 1], [1, 3], [2, 1, 2], [1, 1, 2, 1]])
        d = g.data(f, 1, 0, [s * (1 << k) for k in (63, 64, 127, 128, 192) for s in (1, -1)], sh=sh)
        if r.random() < 0.25:
            d["pres"] = r.choice(["strided", "reversed", "fortran", "transposed"])
        packs.append(g.req("pack", fa=f, a=d))
        words = (w + 63) // 64
        for src in ("py", "wide"):
            u = []
            for v in d["v"]:
                b = v & ((1 << w) - 1)
                u.append([(b >> 64 * i) & (2**64 - 1) for i in range(words)])
            if src == "py":
                ush, uv = sh + [words], [x for e in u for x in e]
            else:
                ush, uv = [words] + sh, [e[i] for i in range(words) for e in u]
            unpacks.append(g.req("unpack", src=src, fr=f, a={"sh": ush, "v": uv, "F": 0, "pres": r.choice(
                ["array", "array", "strided", "fortran", "transposed"])}))
    rec = drive.record_py(packs) + drive.record_py([drive.with_src(g, q, "wide") for q in packs])
    # scalars as Python integers
    sc = [dict(q, a=dict(q["a"], pres="scalar")) for q in packs if q["a"]["sh"] == []]
    rec += drive.record_py([drive.with_src(g, q, "py") for q in sc])
    rec += drive.record_py(unpacks)
    c.calls(rec, {"value", "status", "shape", "rep"}, "packing and unpacking")
    # round trip through the real code: what was packed is unpacked
    trip = []
    for q, o in rec:
        if q["op"] == "pack" and o["st"] == "ok" and o["r"]["kind"] == "num" and o["r"]["sh"]:
            trip.append(g.req("unpack", src=q["src"], fr=q["fa"],
                              a={"sh": o["r"]["sh"], "v": o["r"]["v"], "F": 0, "pres": "array"}))
    out = drive.record_py(trip)
    src = [(q, o) for q, o in rec if q["op"] == "pack" and o["st"] == "ok" and o["r"]["kind"] == "num" and o["r"]["sh"]]
    groups = []
    for (q, _), (u, ou) in zip(src, out):
        first = (dict(u, a=q["a"]), {"st": "ok", "warn": 0, "r": {"kind": "data", "sh": q["a"]["sh"], "v": q["a"]["v"],
                                     "F": q["fa"][2], "rep": "wide", "w": 0, "x": []}})
        groups.append([first, (u, ou)])
    agree(c, "agree", groups, {"refused", "value"}, "round trip through the packed form")


# ------------------------------------------------------------------------------------------------
# C21: arrays
# ------------------------------------------------------------------------------------------------
SHAPES = [[], [1], [4], [2, 3], [3, 1], [1, 3], [2, 1, 2], [1, 1]]
BINARY_SHAPES = [([4], []), ([], [4]), ([2, 3], [3]), ([3], [2, 3]), ([3, 1], [1, 4]), ([1, 3], [2, 1]), ([4], [1]),
                 ([1], [4]), ([2, 1, 2], [3, 1]), ([], []), ([2, 3], [2, 3]), ([5], [5]), ([], [2, 2]), ([1, 1], [3])]


def size(sh):
    k = 1
    for d in sh:
        k *= d
    return k


def bshape(*shs):
    m = max(len(s) for s in shs)
    p = [[1] * (m - len(s)) + list(s) for s in shs]
    return [max(q[i] for q in p) for i in range(m)]


def source(k, sh, t):
    """Index into an array of shape sh that belongs to index k of shape t (row-major)."""
    ix = []
    for d in reversed(t):
        ix.append(k % d)
        k //= d
    i, stride = 0, 1
    for j, d in enumerate(reversed(sh)):
        if d != 1:
            i += ix[j] * stride
        stride *= d
    return i


def pres_of(g, f, vals, sh):
    r = g.r
    ps = ["array", "array", "strided", "reversed", "fortran", "transposed", "readonly"]
    if sh == []:
        ps = ["array", "scalar", "scalar"] + (["npscalar"] if not is_wide(f) else [])
    elif not is_wide(f) or all(abs(v) >= 1 << 64 for v in vals):
        ps += ["list", "list", "tuple"]
    return r.choice(ps)


def array_req(g):
    """A request on arrays of various shapes and presentations."""
    r = g.r
    c = r.random()
    if c < 0.6:
        q = g.arith_req(n=24)
    elif c < 0.7:
        q = g.round_req(n=24)
    elif c < 0.8:
        q = g.sat_req(n=24)
    elif c < 0.88:
        q = g.resize_req(n=24, op=r.choice(["resize", "in_range"]))
    elif c < 0.92:
        q = real_req(g, 24)
    elif c < 0.94:
        q = toreal_req(g, 24)
    else:
        q = int_req(g, r.choice(["to_integer", "from_integer"]), 24)
    if q["sat"] in (1, 3) and q["op"] != "from_real":
        q["sat"] -= 1
    if "b" in q:
        sa, sb = r.choice(BINARY_SHAPES)
    else:
        sa, sb = r.choice(SHAPES), None
    t = bshape(sa, sb or [])
    def cut(d, sh, f):
        d = dict(d, sh=sh, v=d["v"][:size(sh)])
        if "hex" in d:
            d["hex"] = d["hex"][:size(sh)]
        if f is not None:
            d["pres"] = pres_of(g, f, d["v"], sh)
        return d
    fa = q["fa"] or q["fr"]
    if q["op"] in ("from_real", "from_integer"):
        q["a"] = cut(q["a"], sa, None)
        q["a"]["pres"] = r.choice(["array", "strided", "list", "tuple", "transposed"]) if sa else r.choice(["array", "scalar"])
        if q["op"] == "from_integer" and sa:
            q["a"]["pres"] = r.choice(["array", "strided", "transposed"])
    else:
        q["a"] = cut(q["a"], sa, fa)
    if "b" in q:
        q["b"] = cut(q["b"], sb, q["fb"])
    if q["op"] == "addsub":
        ss = r.choice([[], t, t, [1] * len(t), t[-1:] if t else []])
        q["sel"] = {"sh": ss, "v": [r.randint(0, 1) for _ in range(size(ss))],
                    "pres": r.choice(["array", "scalar"]) if ss == [] else "array"}
    if q["op"] == "shift":
        ks = r.choice([[], sa, sa, [1] * len(sa), sa[-1:] if sa else []])
        base = r.randint(-6, 6)
        q["k"] = {"sh": ks, "v": [base + r.randint(0, 5) for _ in range(size(ks))],
                  "pres": "scalar" if ks == [] else "array"}
        if q["fr"]:
            m = mid_fmt("shift", q["fa"], None, q["k"]["v"])
            q["fr"] = g.near_fmt(m, 4)
    return q


def full_shape(q):
    shs = [q["a"]["sh"]] + [q[o]["sh"] for o in ("b", "sel", "k") if o in q and isinstance(q[o], dict)]
    return bshape(*shs)


def singles(g, q):
    t = full_shape(q)
    res = []
    for k in range(size(t)):
        e = dict(q)
        for o in ("a", "b", "sel", "k"):
            if o in q and isinstance(q[o], dict):
                i = source(k, q[o]["sh"], t)
                e[o] = dict(q[o], sh=[], v=[q[o]["v"][i]], pres="scalar" if o != "k" else "scalar")
                if "hex" in q[o]:
                    e[o]["hex"] = [q[o]["hex"][i]]
        g.n += 1
        e["id"] = g.n
        res.append(e)
    return res


@check("C21")
def c21(c):
    c.model("MC_Shapes", "SPECIFICATION Spec\nCONSTANTS\n  MaxDim = 3\n  MaxLen = 2\nINVARIANTS Sym Assoc Idem SourceOK Onto\n"
            "CHECK_DEADLOCK FALSE\n", "laws of broadcasting")
    g = Gen(SEED)
    plan = [array_req(g) for _ in range(n(2500, 20000))]
    objs = [q for q in plan if g.r.random() < 0.5]
    allq = list(plan)
    for q in objs:
        if q["op"] in ("from_integer",):
            continue
        arr = {o: dict(q[o], pres="array" if q[o]["sh"] or is_wide(q["fa"] or q["fr"]) else q[o].get("pres", "array"))
               for o in ("a", "b") if o in q}
        if narrow_ok(q) and not (q["op"] == "from_real" and is_wide(q["fr"])):
            allq.append(drive.with_src(g, dict(q, **{o: dict(q[o], pres="array") for o in arr}), "narrow"))
        elif q["op"] not in ("in_range", "to_integer"):
            allq.append(drive.with_src(g, dict(q, **{o: dict(q[o], pres="array") for o in arr}), "wide"))
    subs = []
    for q in allq:
        ss = singles(g, q)
        if q["src"] != "py":
            for e in ss:
                for o in ("a", "b"):
                    if o in e:
                        e[o] = dict(e[o], pres="array")
        subs.append(ss)
    out = dict((q["id"], o) for q, o in drive.record_py(allq))
    so = dict((q["id"], o) for q, o in drive.record_py([e for ss in subs for e in ss], "one"))
    groups = [[(q, out[q["id"]])] + [(e, so[e["id"]]) for e in ss] for q, ss in zip(allq, subs)]
    agree(c, "element", groups, {"refused", "shape", "value"}, "array calls against calls on single elements")
    everywhere(c, g, long_requests(g, n(20, 100), n(8, 60), 0.2), {"value", "shape", "status"}, "long arrays", hw=False)


# ------------------------------------------------------------------------------------------------
# C14, C15: clocked components
# ------------------------------------------------------------------------------------------------
def instances(g, k, cycles):
    r = g.r
    box = [f for f in ([S, I, F] for S in (0, 1) for I in range(-1, 4) for F in range(-1, 4)) if ok(f) and width(f) >= 1]
    insts = []
    for j in range(k):
        kind, reg = j % 3, (j // 3) % 3
        rnd, sat = r.randint(0, 6), r.randint(0, 3)
        c = r.random()
        if c < 0.55:
            fa, t = r.choice(box), r.choice(box)
        else:
            fa = g.fmt(g.fmt_kinds())
            t = g.near_fmt(fa, 4)
        if kind == 0:
            F = fa[2] + r.choice([0, 1, 2]) if r.random() < 0.2 else fa[2] - r.randint(1, 3) if r.random() < 0.5 else t[2]
            fr = round_fmt(fa, F, rnd)
        elif kind == 1:
            fr = [t[0], t[1] if t[1] + fa[2] >= 1 else 1 - fa[2], fa[2]]
            if r.random() < 0.2:
                fr[1] = fa[1]
            if r.random() < 0.3:
                fr[0] = fa[0]
        else:
            fr = t
            if r.random() < 0.2:
                m = round_fmt(fa, fr[2], rnd)
                fr = [m[0], m[1], fr[2]]
        if not ok(fr) or width(fr) < 1:
            fr = list(fa) if kind else round_fmt(fa, fa[2], rnd)
        i = {"kind": kind, "fa": fa, "fr": fr, "rnd": rnd, "sat": sat, "reg": reg, "mw": r.choice([0, 1, 3, 8, 8, 16]),
             "fc": int(r.random() < 0.8)}
        i["in"] = pipe.inputs(g, i, "all" if r.random() < 0.5 else "random", cycles)
        insts.append(i)
    return insts


def pipe_traces(c, insts, claims, what):
    pipe.simulate(insts)
    for small, mod in ((True, "TracePipeSmall"), (False, "TracePipe")):
        part = [i for i in insts if pipe.is_small(i) == small]
        if part:
            c.trace(mod, [pipe.event(i, small) for i in part], claims, what, [pipe.plain(i) for i in part],
                    elements=sum(len(i["in"]) for i in part), small=small, name=f"{mod}_{len(c.models)}")


def pipe_model(c):
    c.model("MC_Pipeline", f"SPECIFICATION Spec\nCONSTANTS\n  Cycles = {n(4, 5)}\n  Fault = \"none\"\n"
            "INVARIANTS Delivered Once Genuine AfterReset Complete\nCHECK_DEADLOCK FALSE\n",
            "two stages, every register configuration and schedule: delivery as specified")


@check("C14")
def c14(c):
    pipe_model(c)
    g = Gen(SEED)
    pipe_traces(c, instances(g, n(450, 3000), n(200, 500)), {"refused", "deliver"},
                "component instances under all control schedules of 4 cycles, and random ones")


@check("C15")
def c15(c):
    pipe_model(c)
    unary_model(c, "PipeFree", "no register is recommended only where nothing is computed", (3, 5))
    g = Gen(SEED)
    r = g.r
    box = [f for f in ([S, I, F] for S in (0, 1) for I in range(-1, 3) for F in range(-1, n(2, 3))) if ok(f) and width(f) >= 1]
    plan = []
    for fa in box:
        for fr in box:
            for rnd in range(7):
                for sat in range(4):
                    if r.random() < n(0.5, 1):
                        plan.append(g.req("pipe_resize", src="vhdl", fa=fa, fr=fr, rnd=rnd, sat=sat))
            if fa[2] == fr[2]:
                for sat in range(4):
                    plan.append(g.req("pipe_sat", src="vhdl", fa=fa, fr=fr, sat=sat))
        for F in range(-3, 5):
            for rnd in range(7):
                plan.append(g.req("pipe_round", src="vhdl", fa=fa, fr=round_fmt(fa, F, rnd), rnd=rnd))
    for _ in range(n(2000, 20000)):
        fa = g.fmt(g.fmt_kinds())
        fr = g.near_fmt(fa, 5)
        rnd, sat = r.randint(0, 6), r.randint(0, 3)
        op = r.choice(["pipe_resize", "pipe_resize", "pipe_sat", "pipe_round"])
        if op == "pipe_sat":
            fr[2] = fa[2]
            if not ok(fr) or width(fr) < 1:
                continue
        if op == "pipe_round":
            fr = round_fmt(fa, fr[2], rnd)
        plan.append(g.req(op, src="vhdl", fa=fa, fr=fr, rnd=rnd, sat=sat))
    out = vhdl.execute(plan)
    c.calls([(q, out[q["id"]]) for q in plan], {"value", "status"}, "recommended pipelining of small and other formats")
    pipe_traces(c, instances(g, n(300, 2000), 60), {"refused", "latency"}, "latency of component instances")
from . import checks_text, checks_str, checks_hist, checks_req, checks_cosim
