"""Executes requests on the Python package of the repository and records the outcomes.

usage: pyexec.py REPO PLAN OUT      (one JSON request per line of PLAN, one outcome per line of OUT)

Only the public interface is used: the cl_fix_* functions, and the documented classes through their
methods, .data and .fmt.
"""
import json, math, os, random, sys, warnings
sys.path.insert(0, os.path.join(sys.argv[1], "bittrue/models/python"))
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import numpy as np
import en_cl_fix_pkg as P
from num import dyadic, common, enc

RND = list(P.FixRound)
SAT = list(P.FixSaturate)
rnd_of = lambda k: next(r for r in RND if r.value == k)
sat_of = lambda k: next(s for s in SAT if s.value == k)
NARROW = 53


class Machinery(BaseException):
    """A defect of this program, not of the code under test."""


FIELDS = [int]          # how the numbers of a format are given: Python's int or numpy's, with S as a bool


def fmt(t):
    S, I, F = map(FIELDS[0], t)
    return P.FixFormat(bool(S) if FIELDS[0] is np.int64 and S in (0, 1) else S, I, F)


def vary_fields(k):
    FIELDS[0] = {3: np.int64}.get(k % 7, int)


def is_wide(t):
    return sum(t) > NARROW


def to_float(m, F):
    """m * 2**-F as a float (exact, or an error)."""
    x = math.ldexp(float(m), -F)
    if int(float(m)) != m or (m and x == 0.0) or not math.isfinite(x):
        raise Machinery(f"{m} * 2**-{F} is not a double")
    return x


def nest(vals, sh):
    """Row-major values -> object array of shape sh."""
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a.reshape(sh)


def present(vals, sh, pres, dtype):
    """Builds the argument in the requested presentation."""
    try:
        return present_(vals, sh, pres, dtype)
    except Exception as x:
        raise Machinery(repr(x))


def present_(vals, sh, pres, dtype):
    a = nest(vals, sh)
    if dtype is not None:
        a = a.astype(dtype)
    if pres == "scalar":
        v = a.reshape(-1)[0]
        return v if dtype is None else v.item()
    if pres == "npscalar":
        return a.reshape(-1)[0]
    if pres == "list":
        return a.tolist()
    if pres == "tuple":
        return tuple(a.tolist())
    if pres == "strided" and a.ndim >= 1:
        big = np.empty(a.shape[:-1] + (2 * a.shape[-1] + 1,), dtype=a.dtype)
        big[...] = 0 if dtype is None else dtype(0)
        big[..., 1::2] = a
        return big[..., 1::2]
    if pres == "reversed" and a.ndim >= 1:
        big = a[..., ::-1].copy()
        return big[..., ::-1]
    if pres == "fortran":
        return np.asfortranarray(a) if a.ndim >= 2 else a
    if pres == "transposed":
        return a.T.copy().T
    if pres == "readonly":
        a = a.copy()
        a.flags.writeable = False
        return a
    return a


AS = {"object": None, "float64": np.float64, "float32": np.float32, "int64": np.int64, "int32": np.int32,
      "uint64": np.uint64, "bool": bool}


def data_arg(q, o, f, wide=None):
    d = q[o]
    if d.get("as") == "floatobj":
        return present([float(m) for m in d["v"]], d["sh"], d.get("pres", "array"), None)
    if d.get("as"):                     # in a given representation
        return present(list(d["v"]), d["sh"], d.get("pres", "array"), AS[d["as"]])
    wide = is_wide(f) if wide is None else wide
    if wide:
        return present(list(d["v"]), d["sh"], d.get("pres", "array"), None)
    return present([to_float(m, f[2]) for m in d["v"]], d["sh"], d.get("pres", "array"), np.float64)


INTS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]


def vary(q, vals, types, usual):
    """A type that holds the values, in a third of the calls another one than the usual type."""
    h = (q["id"] * 2654435761 >> 7) % 1000003
    t = types[h // 3 % len(types)]
    if h % 3 or q.get("dflt") == "usual":
        return usual
    if isinstance(t, type) and issubclass(t, np.integer):
        i = np.iinfo(t)
        fits = all(v == int(v) and i.min <= v <= i.max for v in vals)
    else:
        with np.errstate(all="ignore"):
            fits = all(float(t(v)) == v and math.copysign(1, v) == math.copysign(1, float(t(v))) for v in vals)
    return t if fits else usual


def amounts(q):
    """The shift amounts."""
    s = q["k"]
    t = vary(q, s["v"], INTS + [np.float64, np.float32], np.int64)
    return present(list(s["v"]), s["sh"], s.get("pres", "array"), t)


def selector(q):
    s = q["sel"]
    v = [bool(x) for x in s["v"]]
    return present(v, s["sh"], s.get("pres", "array"), vary(q, v, [np.uint8, np.int64, np.float64], bool))


def real_arg(q):
    d = q["a"]
    v = [float.fromhex(h) for h in d["hex"]]
    return present(v, d["sh"], d.get("pres", "array"), vary(q, v, [np.float32, np.float16, np.int64, np.int8], np.float64))


def int_arg(q):
    d = q["a"]
    dt = {"int64": np.int64, "object": None}[q.get("dt", "object")]
    return present(list(d["v"]), d["sh"], d.get("pres", "array"), vary(q, d["v"], INTS, dt))


def pack_data(r, f, x=()):
    """Result data -> record (see spec/TraceCalls.tla)."""
    if isinstance(r, (list, tuple)) or r is None:
        return {"kind": "none", "why": str(type(r))}
    arr = r if isinstance(r, np.ndarray) else None
    sh = list(arr.shape) if arr is not None else []
    vals = list(arr.reshape(-1)) if arr is not None else [r]
    if arr is not None and arr.dtype == object:
        rep = "wide" if all(type(v) is int for v in vals) else "bad"
    elif arr is not None:
        rep = "narrow" if arr.dtype == np.float64 else "bad"
    else:
        rep = "wide" if type(r) is int else "narrow" if isinstance(r, float) else "bad"
    out = []
    for v in vals:
        if isinstance(v, (np.integer, np.bool_, bool)):
            v = int(v)
        if isinstance(v, (float, np.floating)) and not math.isfinite(v):
            return {"kind": "none", "why": repr(v)}
        if isinstance(v, int) and rep == "wide":
            out.append((v, f[2]))
        elif isinstance(v, int):        # an integer where a real was expected, or native ints
            out.append((v, f[2] if is_wide(f) else 0))
        else:
            m, F = dyadic(v)
            out.append((m, F))
    if rep == "narrow" and all(F <= f[2] or m == 0 for m, F in out) or rep == "wide":
        v, F = common(out, f[2])
    else:
        v, F = common(out, f[2])
    return {"kind": "data", "sh": sh, "v": v, "F": F, "rep": rep, "x": list(x)}


def pack_num(r):
    arr = r if isinstance(r, np.ndarray) else None
    sh = list(arr.shape) if arr is not None else []
    vals = list(arr.reshape(-1)) if arr is not None else [r]
    out = []
    for v in vals:
        if isinstance(v, (bool, np.bool_, np.integer)):
            v = int(v)
        if isinstance(v, (float, np.floating)):
            if not math.isfinite(v):
                return {"kind": "none", "why": repr(v)}
            v = float(v)
        if not isinstance(v, (int, float)):
            return {"kind": "none", "why": repr(type(v))}
        out.append(dyadic(v))
    v, F = common(out, 0)
    return {"kind": "num", "sh": sh, "v": v, "F": F, "rep": "", "x": []}


def pack_words(r):
    if not isinstance(r, np.ndarray) or r.dtype != np.uint64:
        return {"kind": "none", "why": str(type(r))}
    return pack_num(r)


def pack_fmt(f):
    return {"kind": "fmt", "sh": [], "v": [], "F": 0, "rep": "", "x": [int(f.S), int(f.I), int(f.F)]}


FMT_FN = {"add_fmt": "cl_fix_add_fmt", "sub_fmt": "cl_fix_sub_fmt", "addsub_fmt": "cl_fix_addsub_fmt",
          "mult_fmt": "cl_fix_mult_fmt"}


def run_fmt(q):
    op = q["op"]
    if op in FMT_FN:
        return getattr(P, FMT_FN[op])(fmt(q["fa"]), fmt(q["fb"]))
    if op == "neg_fmt":
        return P.cl_fix_neg_fmt(fmt(q["fa"]))
    if op == "abs_fmt":
        return P.cl_fix_abs_fmt(fmt(q["fa"]))
    if op == "shift_fmt":
        lo, hi = q["x"]
        if q.get("one"):
            return P.cl_fix_shift_fmt(fmt(q["fa"]), lo)
        return P.cl_fix_shift_fmt(fmt(q["fa"]), lo, hi)
    if op == "round_fmt":
        return P.cl_fix_round_fmt(fmt(q["fa"]), q["x"][0], rnd_of(q["rnd"]))
    if op == "union_fmt":
        fs = [fmt(t) for t in q["fs"]]
        if len(fs) == 2 and not q.get("coll"):
            return P.cl_fix_union_fmt(*fs)
        return P.cl_fix_union_fmt(tuple(fs) if q.get("coll") == "tuple" else fs)


def res_fmt(q):
    """The format in which the result data has to be interpreted (as the specification does)."""
    if q["fr"]:
        return q["fr"]
    op = q["op"]
    if op == "shift":
        k = q["k"]["v"]
        f = q["fa"]
        return [f[0], f[1] + max(k), f[2] - min(k)]
    # full-precision formats all have F = max(Fa, Fb) or Fa or Fa+Fb; the width decides about the
    # representation, which is judged by the specification; here only F matters
    if op in ("add", "sub", "addsub"):
        return [0, 0, max(q["fa"][2], q["fb"][2])]
    if op == "mult":
        return [0, 0, q["fa"][2] + q["fb"][2]]
    return q["fa"]


def shape_arg(q):
    x = tuple(q["x"])
    return {1: list(x), 2: x[0] if len(x) == 1 else x}.get(q["id"] % 4, x)


def call_fn(q):
    op = q["op"]
    fa = fmt(q["fa"]) if q["fa"] else None
    fb = fmt(q["fb"]) if q["fb"] else None
    fr = fmt(q["fr"]) if q["fr"] else None
    rnd, sat = rnd_of(q["rnd"]), sat_of(q["sat"])
    kw = {}
    if op in ("add", "sub", "addsub", "mult"):
        args = [data_arg(q, "a", q["fa"]), fa, data_arg(q, "b", q["fb"]), fb]
        if op == "addsub":
            args.append(selector(q))
        f = getattr(P, "cl_fix_" + op)
        return f(*args, fr, rnd, sat) if not q.get("dflt") else f(*args)
    if op in ("neg", "abs"):
        f = getattr(P, "cl_fix_" + op)
        return f(data_arg(q, "a", q["fa"]), fa, fr, rnd, sat) if not q.get("dflt") else f(data_arg(q, "a", q["fa"]), fa)
    if op == "shift":
        k = amounts(q)
        return P.cl_fix_shift(data_arg(q, "a", q["fa"]), fa, k, fr, rnd, sat)
    if op == "resize":
        return P.cl_fix_resize(data_arg(q, "a", q["fa"]), fa, fr, rnd, sat)
    if op == "round":
        return P.cl_fix_round(data_arg(q, "a", q["fa"]), fa, fr, rnd)
    if op == "saturate":
        return P.cl_fix_saturate(data_arg(q, "a", q["fa"]), fa, fr, sat)
    if op == "in_range":
        return P.cl_fix_in_range(data_arg(q, "a", q["fa"]), fa, fr, rnd)
    if op == "from_real":
        return P.cl_fix_from_real(real_arg(q), fr, sat)
    if op == "from_integer":
        return P.cl_fix_from_integer(int_arg(q), fr)
    if op == "to_integer":
        return P.cl_fix_to_integer(data_arg(q, "a", q["fa"]), fa)
    if op in ("to_real", "to_real_near"):
        return P.cl_fix_to_real(data_arg(q, "a", q["fa"]), fa)
    if op == "max_value":
        return P.cl_fix_max_value(fr)
    if op == "min_value":
        return P.cl_fix_min_value(fr)
    if op == "zeros":
        return P.cl_fix_zeros(shape_arg(q), fr)
    if op in ("random", "random_ends"):
        return P.cl_fix_random(shape_arg(q), fr)
    if op == "random_twice":
        return np.stack([P.cl_fix_random(tuple(q["x"][1:]), fr) for _ in range(q["x"][0])])
    if op == "pack":
        return P.to_uint64_array(data_arg(q, "a", q["fa"], True), fa)
    if op == "unpack":
        return P.from_uint64_array(present(list(q["a"]["v"]), q["a"]["sh"], q["a"].get("pres", "array"), AS[q["a"].get("as", "uint64")]), fr)
    if op == "fmt_text":                # returned as character codes
        f = fmt(q["fa"])
        t = {"str": str, "repr": repr, "to_string": P.cl_fix_format_to_string, "format": "{}".format}[q["how"]](f)
        return [ord(c) for c in t]
    if op == "fmt_eval":
        f = eval("".join(map(chr, q["codes"])), {"FixFormat": P.FixFormat})
        return [f.S, f.I, f.F]
    if op == "mode_text":
        return [ord(c) for c in (rnd_of if q["table"] == "rnd" else sat_of)(q["x"][0]).name]
    if op == "mode_parse":
        return [(P.FixRound if q["table"] == "rnd" else P.FixSaturate)["".join(map(chr, q["codes"]))].value]
    if op == "save":                    # the way the repository's co-simulations save data
        d = P.cl_fix_to_integer(data_arg(q, "a", q["fa"]), fa)
        np.savetxt(q["fn"], d, fmt="%i", delimiter=q.get("delim", " "), header=q["header"])
        return None
    if op == "write_formats":
        fs = [fmt(f) for f in q["fs"]]
        P.cl_fix_write_formats(fs[0] if q.get("scalar") else np.array(fs) if q.get("arr") else fs, q["names"], q["fn"])
        return None
    raise Machinery(op)


def call_obj(q):
    """The same request on NarrowFix or WideFix objects."""
    op, wide = q["op"], q["src"] == "wide"
    C = P.WideFix if wide else P.NarrowFix
    fr = fmt(q["fr"]) if q["fr"] else None
    rnd, sat = rnd_of(q["rnd"]), sat_of(q["sat"])
    if op == "from_real":
        return C.from_real(real_arg(q), fr, sat)
    if op == "max_value":
        return C.max_value(fr)
    if op == "min_value":
        return C.min_value(fr)
    if op == "from_integer":
        return C.from_integer(int_arg(q), fr)
    if op == "unpack":
        return C.from_uint64_array(present(list(q["a"]["v"]), q["a"]["sh"], q["a"].get("pres", "array"), AS[q["a"].get("as", "uint64")]), fr)
    obj = lambda o, f: C(data_arg(q, o, f, wide), fmt(f))
    a = obj("a", q["fa"])
    if op == "construct":
        return a
    if op == "compare":
        b = obj("b", q["fb"])
        i = q["x"][0]
        return [lambda: a == b, lambda: a != b, lambda: a < b, lambda: a > b, lambda: a <= b, lambda: a >= b][i - 1]()
    if op in ("add", "sub", "mult"):
        b = obj("b", q["fb"])
        if q.get("dflt") == "op":
            return {"add": lambda: a + b, "sub": lambda: a - b, "mult": lambda: a * b}[op]()
        return getattr(a, op)(b, fr, rnd, sat)
    if op == "addsub":
        return a.addsub(obj("b", q["fb"]), selector(q), fr, rnd, sat)
    if op in ("neg", "abs"):
        if op == "neg" and q.get("dflt") == "op":
            return -a
        return getattr(a, op)(fr, rnd, sat)
    if op == "shift":
        k = amounts(q)
        if q.get("dflt") == "op":
            return a << k
        return a.shift(k, fr, rnd, sat)
    if op == "resize":
        return a.resize(fr, rnd, sat)
    if op == "round":
        return a.round(fr, rnd)
    if op == "saturate":
        return a.saturate(fr, sat)
    if op == "in_range":
        return a.in_range(fr, rnd)
    if op == "to_integer":
        return a.to_integer()
    if op in ("to_real", "to_real_near"):
        return a.to_real()
    if op == "pack":
        return a.to_uint64_array()
    raise Machinery(op)


def untemper(y):
    """The state word from which a Mersenne twister produces the output word y."""
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def extreme_entropy(w):
    """Makes the entropy of the standard generators (random, numpy.random) begin with words that lead to the ends of
    any range of 2^w (or 2^w - 1) values: a generator that draws from them reaches both ends or neither."""
    m = w // 32 + 1
    k = (w + 31) // 32
    one = 0xffffffff
    py = ([one] * (m - 1) + [one >> 1]) * (80 // m) + [one] * 80 + ([one - 1] + [one] * (k - 1)) * (80 // k)
    py += [0] * (624 - len(py))
    random.setstate((3, tuple(untemper(x) for x in py) + (0,), None))
    nk = [one] * 60 + [one, one - 1] * 30 + [0] * 504
    np.random.set_state(("MT19937", np.array([untemper(x) for x in nk], dtype=np.uint32), 0, 0, 0.0))


def is_sat_warning(w):
    """Not a warning of numpy's arithmetic, of Python, or the one about the precision of floats."""
    m = str(w.message)
    return not issubclass(w.category, DeprecationWarning) and "precision" not in m and \
        not (issubclass(w.category, RuntimeWarning) and ("encountered" in m or "numpy" in m))


def execute(q):
    op = q["op"]
    out = {"id": q["id"], "st": "ok", "warn": 0}
    np.random.seed(q["id"] % 2**31)
    random.seed(q["id"])
    vary_fields(q["id"])
    if op == "random_ends":
        extreme_entropy(sum(q["fr"]))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            if q["op"].endswith("_fmt"):
                out["r"] = pack_fmt(run_fmt(q))
            elif q["op"] == "format":
                fmt(q["fa"])
                out["r"] = {"kind": "none"}
            elif q["src"] == "py":
                r = call_fn(q)
                out["did"] = 1
                out["r"] = ({"kind": "none"} if r is None and op in ("save", "write_formats") else
                            {"kind": "str", "x": r} if op in ("fmt_text", "fmt_eval", "mode_text", "mode_parse") else pack_num(r) if q["op"] in ("in_range", "to_integer", "to_real", "to_real_near") else
                            pack_words(r) if q["op"] == "pack" else pack_data(r, res_fmt(q)))
            else:
                r = call_obj(q)
                out["did"] = 1
                if q["op"] in ("in_range", "to_integer", "to_real", "to_real_near", "compare"):
                    out["r"] = pack_num(r)
                elif q["op"] == "pack":
                    out["r"] = pack_words(r)
                else:
                    rf = r.fmt
                    out["r"] = pack_data(r.data, [rf.S, rf.I, rf.F], [rf.S, rf.I, rf.F])
        except Exception as x:
            out.update(st="refused", why=repr(x)[:200])
        out["warn"] = int(any(op == "to_real_near" or is_sat_warning(w) for w in ws))
    if out["st"] == "refused" or "r" not in out:
        out["r"] = {"kind": "none", "sh": [], "v": [], "F": 0, "rep": "", "x": []}
    r = out["r"]
    for k, d in (("sh", []), ("v", []), ("F", 0), ("rep", ""), ("x", []), ("w", 0)):
        r.setdefault(k, d)
    return out


if __name__ == "__main__":
    with open(sys.argv[2]) as fi, open(sys.argv[3], "w") as fo:
        for line in fi:
            fo.write(json.dumps(execute(json.loads(line))) + "\n")
            fo.flush()
