"""Replays histories of calls and in-place modifications on the repository's Python package.

usage: pyhist.py REPO PLAN OUT      (one JSON history per line of PLAN, one record per line of OUT)

After every step all live values are compared with what they were; every call is also made with copies of
its arguments in a child process in which nothing has been called before.
"""
import io, json, math, os, pickle, random, struct, sys, warnings
sys.path.insert(0, os.path.join(sys.argv[1], "bittrue/models/python"))
sys.dont_write_bytecode = True
import numpy as np
import en_cl_fix_pkg as P

FIX = (P.NarrowFix, P.WideFix)
REFUSED = "refused"


class Refused:
    def __init__(self, why):
        self.why = why


def num(x):
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    if isinstance(x, (float, np.floating)):
        return float(x).hex() if not isinstance(x, np.float64) or True else ""
    return str(x)


def encode(x):
    """Value -> (m, v)."""
    if isinstance(x, Refused):
        return REFUSED, []
    if isinstance(x, P.FixFormat):
        return "FixFormat", [str(x.S), str(x.I), str(x.F)]
    if isinstance(x, FIX):
        d, f = x.data, x.fmt
        m, v = encode(d)
        return f"{type(x).__name__}|{f.S},{f.I},{f.F}|{m}", v
    if isinstance(x, np.ndarray):
        return f"array|{x.dtype}|{list(x.shape)}", [num(e) for e in x.reshape(-1).tolist()] if x.dtype != object else \
            [num(e) for e in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        es = [encode(e) for e in x]
        return f"{type(x).__name__}|" + ";".join(m for m, _ in es), [p for _, v in es for p in v]
    return type(x).__name__, [num(x)]


def is_sat_warning(w):
    """Not a warning of numpy's arithmetic, of Python, or the one about the precision of floats."""
    m = str(w.message)
    return not issubclass(w.category, DeprecationWarning) and "precision" not in m and \
        not (issubclass(w.category, RuntimeWarning) and ("encountered" in m or "numpy" in m))


OPER = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "<<": lambda a, b: a << b,
        "neg": lambda a: -a, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
        ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "len": len, "str": str, "repr": repr,
        "data": lambda a: a.data, "fmt": lambda a: a.fmt, "width": lambda f: f.width}


def function(name):
    if name.startswith("op:"):
        return OPER[name[3:]]
    if name.startswith("m:"):           # method
        return lambda o, *a: getattr(o, name[2:])(*a)
    o = P
    for part in name.split("."):
        o = getattr(o, part)
    return o


def invoke(name, args, kw, seed):
    """(result or Refused, warned)"""
    if any(isinstance(a, Refused) for a in args):
        return Refused("argument"), 0
    np.random.seed(seed)
    random.seed(seed)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r = function(name)(*args, **kw)
        except Exception as x:
            r = Refused(repr(x)[:200])
    return r, int(any(is_sat_warning(w) for w in ws))


# ---- calls in a process that did nothing else -------------------------------------------------------
class Isolated:
    def __init__(self):
        self.rq = os.pipe()
        self.rs = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.serve()
            finally:
                os._exit(0)
        os.close(self.rq[0])
        os.close(self.rs[1])
        self.w = os.fdopen(self.rq[1], "wb")
        self.r = os.fdopen(self.rs[0], "rb")

    @staticmethod
    def put(f, x):
        b = pickle.dumps(x)
        f.write(struct.pack("<I", len(b)) + b)
        f.flush()

    @staticmethod
    def get(f):
        h = f.read(4)
        return f.read(struct.unpack("<I", h)[0]) if len(h) == 4 else None

    def serve(self):
        os.close(self.rq[1])
        os.close(self.rs[0])
        r = os.fdopen(self.rq[0], "rb")
        w = os.fdopen(self.rs[1], "wb")
        while True:
            b = self.get(r)
            if b is None:
                return
            pid = os.fork()
            if pid == 0:
                name, args, kw, seed = pickle.loads(b)
                x, warned = invoke(name, args, kw, seed)
                self.put(w, (encode(x), warned))
                os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                self.put(w, (("crash", []), 0))

    def call(self, name, args, kw, seed):
        self.put(self.w, (name, args, kw, seed))
        return pickle.loads(self.get(self.r))


# ---- histories ------------------------------------------------------------------------------------------
def number(v, F, wide):
    return v if wide else math.ldexp(float(v), -F)


def build(s):
    """The value that a "new" step creates."""
    k = s["kind"]
    if k == "fmt":
        return P.FixFormat(*s["f"])
    if k == "list":
        return None
    if k == "dat":
        vals = [number(v, s["F"], s["wide"]) for v in s["v"]]
        dt = object if s["wide"] else np.float64
    elif k == "real":
        vals, dt = [float.fromhex(x) for x in s["v"]], np.float64
    elif k == "int":
        vals, dt = s["v"], object if s["wide"] else np.int64
    elif k == "bool":
        vals, dt = [bool(x) for x in s["v"]], bool
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    a = a.reshape(s["sh"])
    pres = s.get("pres", "array")
    if pres == "scalar":
        return a.reshape(-1)[0]
    if pres == "list":
        return a.tolist()
    a = a.astype(dt)
    if pres == "fortran":
        return np.asfortranarray(a)
    return a


def poke(x, s):
    """Changes part s["i"] of value x in place; returns the new part as text, or None if x cannot be changed."""
    i = s["i"]
    if isinstance(x, P.FixFormat):
        f = "SIF"[i]
        setattr(x, f, getattr(x, f) + s["d"])
        return str(getattr(x, f))
    if isinstance(x, list) and i < len(x) and not isinstance(x[i], list):
        old = x[i]
    elif isinstance(x, np.ndarray) and x.flags.writeable and i < x.size:
        old = x.reshape(-1)[i] if x.ndim else x[()]
    else:
        return None
    if isinstance(old, (bool, np.bool_)):
        new = not old
    elif isinstance(old, (float, np.floating)):
        c = [math.ldexp(float(v), -s["F"]) for v in s["cand"]]
        new = c[0] if c[0] != old else c[1]
    elif isinstance(old, np.uint64):
        new = np.uint64(int(old) ^ 1)
    elif isinstance(old, (int, np.integer)):
        new = s["cand"][0] if s["cand"][0] != old else s["cand"][1]
        if isinstance(old, np.integer) and not -2**63 <= new < 2**63:
            return None
    else:
        return None
    if isinstance(x, list):
        x[i] = new
        return encode(x)[1][i]
    if x.ndim:
        x[np.unravel_index(i, x.shape)] = new
    else:
        x[()] = new
    return encode(np.array(x[np.unravel_index(i, x.shape)] if x.ndim else x[()], dtype=x.dtype))[1][0]


def rec(m, v):
    return {"m": m, "v": v}


def replay(hist, iso):
    store, old, out, log = [], [], [], []
    for k, s in enumerate(hist["steps"]):
        do = s["do"]
        e = {"do": do}
        new = None
        if do == "new":
            new = build(s)
        elif do == "call":
            args = [store[a["h"]] if "h" in a else
                    [store[h] for h in a["hs"]] if "hs" in a else
                    tuple(store[h] for h in a["tup"]) if "tup" in a else
                    P.FixRound(a["rnd"]) if "rnd" in a else
                    P.FixSaturate(a["sat"]) if "sat" in a else
                    tuple(a["shape"]) if "shape" in a else a["x"] for a in s["args"]]
            kw = {}
            if s.get("fresh"):          # a result that may differ from time to time
                new, _ = invoke(s["fn"], args, kw, k)
                e["do"] = "new"
            else:
                ref, rw = iso.call(s["fn"], args, kw, k)
                new, w = invoke(s["fn"], args, kw, k)
                lists = [{"was": [h + 1 for h in a["hs"]],
                          "now": [next((h + 1 for h in a["hs"] if store[h] is x), 0) for x in v]}
                         for a, v in zip(s["args"], args) if "hs" in a]
                e.update(ref=[rec(*ref)], rw=rw, w=w, lists=lists)
        elif do == "poke":
            x = poke(store[s["h"]], s)
            if x is None:
                continue
            e.update(h=s["h"] + 1, i=s["i"] + 1, x=x)
        seen = []
        for h, v in enumerate(store):
            c = encode(v)
            if c != old[h]:
                seen.append({"h": h + 1, **rec(*c)})
                old[h] = c
        e["seen"] = seen
        if do != "poke":
            c = encode(new)
            store.append(new)
            old.append(c)
            e["new"] = [rec(*c)]
        out.append(e)
        log.append({"step": k, **{x: s[x] for x in s if x != "v"}, **({"why": new.why} if isinstance(new, Refused) else {})})
    return {"id": hist["id"], "st": "ok", "h": out, "log": log}


if __name__ == "__main__":
    iso = Isolated()
    with open(sys.argv[2]) as fi, open(sys.argv[3], "w") as fo:
        for line in fi:
            fo.write(json.dumps(replay(json.loads(line), iso)) + "\n")
            fo.flush()
