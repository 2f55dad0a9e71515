"""Histories of the Python package: behaviours of spec/GenHist.tla with concrete formats, values and functions."""
import json, os, re, concurrent.futures as cf
from . import common
from .common import REPO, ROOT, PY, CORES, MachineryError, path, run_watched
from .gen import (Gen, lo, hi, width, is_wide, ok, add_fmt, sub_fmt, mult_fmt, neg_fmt, round_fmt, union, mid_fmt, narrow_ok)


def behaviours(num, depth, handles, seed, name="GenHist"):
    """Behaviours of GenHist, simulated by TLC."""
    cfg = (f"SPECIFICATION Spec\nCONSTANTS\n  Depth = {depth}\n  MaxHandles = {handles}\nINVARIANTS Report\nCHECK_DEADLOCK FALSE\n")
    out, st = common.tlc("GenHist", cfg, workers=1, name=name,
                         extra=("-simulate", f"num={num}", "-depth", str(2 * depth + 3), "-seed", str(seed)))
    hs = [json.loads(json.loads(m.group(1))[5:]) for m in re.finditer(r'^("HIST .*")$', out, re.M)]
    if len(hs) < num // 2:
        raise MachineryError("no behaviours:\n" + out[-3000:])
    return hs


class Concrete:
    """Chooses formats, values and functions for one behaviour."""
    def __init__(self, g, beh):
        self.g, self.r = g, g.r
        r = self.r
        self.kinds = r.choice([["tiny", "small"], ["small", "mid"], ["edge", "wideedge"], ["wide"], ["small", "wide"],
                               ["small", "mid", "edge", "wideedge", "wide"]])
        self.sh = r.choice([[1], [2], [3], [3], [4], [2, 2], []])
        self.steps, self.n = [], 0
        self.meta = []                  # per handle: dict(kind, f: format, fh: handle of the format, cls)
        self.map = {0: None}            # handle of the behaviour -> handle
        self.calls = []
        for i, s in enumerate(beh):
            new = getattr(self, "do_" + s["do"])(*s["a"])
            if s["do"] != "poke":
                self.map[len(self.map)] = new
            if r.random() < 0.25 and self.calls:
                self.again()
        self.sweep()

    # ---- handles ---------------------------------------------------------------------------------
    def add(self, step, **meta):
        self.steps.append(step)
        self.meta.append(meta)
        return len(self.meta) - 1

    def new_fmt(self, f):
        return self.add({"do": "new", "kind": "fmt", "f": list(f)}, kind="fmt", f=list(f))

    def call(self, fn, *args, fresh=False, **meta):
        s = {"do": "call", "fn": fn, "args": list(args)}
        if fresh:
            s["fresh"] = 1
        self.calls.append((s, meta))
        return self.add(s, **meta)

    def again(self):
        """The same call with the same arguments once more."""
        s, meta = self.r.choice(self.calls)
        self.add(dict(s), **meta)

    def fmt_of(self, h):
        """Handle of a format that describes h."""
        m = self.meta[h]
        if m.get("fh") is None:
            m["fh"] = self.new_fmt(m["f"])
        return m["fh"]

    def f(self, h):
        return self.meta[h]["f"]

    def fit(self, h):
        """A format handle that may be used as a result format."""
        return h

    rnd = property(lambda self: {"rnd": self.r.randint(0, 6)})
    sat = property(lambda self: {"sat": self.r.randint(0, 3)})

    # ---- actions ---------------------------------------------------------------------------------
    def pick(self):
        fs = [m["f"] for m in self.meta if m["kind"] == "fmt"]
        f = self.g.fmt(self.r.choice(self.kinds)) if not fs or self.r.random() < 0.4 else self.g.near_fmt(self.r.choice(fs))
        return f if width(f) <= 160 and abs(f[1]) <= 120 and abs(f[2]) <= 120 else self.g.fmt(self.r.choice(self.kinds))

    def do_new_fmt(self):
        return self.new_fmt(self.pick())

    def shape(self):
        return self.r.choice([self.sh, self.sh, self.sh, [], [1]])

    def do_new_dat(self, f, fh=None):
        fh = self.map[f] if fh is None else fh
        fm = self.f(fh)
        d = self.g.data(fm, 1, sh=self.shape())
        pres = self.r.choice(["array", "array", "array", "array", "fortran", "scalar" if not d["sh"] else "array",
                              "list" if len(d["sh"]) == 1 and (not is_wide(fm) or all(abs(v) >= 2**64 for v in d["v"])) else "array"])
        return self.add({"do": "new", "kind": "dat", "F": fm[2], "wide": is_wide(fm), "v": d["v"], "sh": d["sh"], "pres": pres},
                        kind="dat", f=fm, fh=fh, pres=pres)

    def arr(self, d):
        """The data handle, as an array handle (objects need arrays)."""
        m = self.meta[d]
        if m.get("pres") in ("list", "scalar"):
            return self.do_new_dat(None, m["fh"] if m["fh"] is not None else self.fmt_of(d)) if m.get("pres") == "list" else d
        return d

    def do_new_obj(self, d):
        d = self.map[d]
        if self.meta[d].get("pres") in ("list", "scalar"):
            fm = self.f(d)
            v = self.g.data(fm, 1, sh=self.sh)
            d = self.add({"do": "new", "kind": "dat", "F": fm[2], "wide": is_wide(fm), "v": v["v"], "sh": v["sh"]},
                         kind="dat", f=fm, fh=self.fmt_of(d))
        fm = self.f(d)
        cls = "wide" if is_wide(fm) else "narrow"
        o = self.call("WideFix" if cls == "wide" else "NarrowFix", {"h": d}, {"h": self.fmt_of(d)}, kind="obj", f=fm, cls=cls)
        if cls == "narrow" and self.r.random() < 0.4:
            return self.call("WideFix.from_narrowfix", {"h": o}, kind="obj", f=fm, cls="wide")
        return o

    def do_fmt1(self, f):
        h = self.map[f]
        fm = self.f(h)
        c = self.r.choice(["neg", "abs", "shift", "round", "union1"])
        if c == "neg":
            return self.call("cl_fix_neg_fmt", {"h": h}, kind="fmt", f=neg_fmt(fm))
        if c == "abs":
            return self.call("cl_fix_abs_fmt", {"h": h}, kind="fmt", f=union(fm, neg_fmt(fm)))
        if c == "shift":
            a = self.r.randint(-3, 3)
            b = a + self.r.choice([0, 0, 1, 4])
            return self.call("cl_fix_shift_fmt", {"h": h}, {"x": a}, {"x": b}, kind="fmt", f=[fm[0], fm[1] + b, fm[2] - a])
        if c == "round":
            F, k = fm[2] + self.r.randint(-4, 2), self.r.randint(0, 6)
            return self.call("cl_fix_round_fmt", {"h": h}, {"x": F}, {"rnd": k}, kind="fmt", f=round_fmt(fm, F, k))
        return self.call("cl_fix_union_fmt", {"hs": [h]}, kind="fmt", f=fm)

    def do_fmt2(self, f, g):
        a, b = self.map[f], self.map[g]
        fa, fb = self.f(a), self.f(b)
        c = self.r.choice(["add", "sub", "addsub", "mult", "union", "unionl", "uniont"])
        if c == "mult" and width(fa) + width(fb) > 150:
            c = "sub"
        if c.startswith("union"):
            args = [{"h": a}, {"h": b}] if c == "union" else [{"hs" if c == "unionl" else "tup": [a, b]}]
            return self.call("cl_fix_union_fmt", *args, kind="fmt", f=union(fa, fb))
        m = {"add": add_fmt, "sub": sub_fmt, "mult": mult_fmt, "addsub": lambda x, y: union(add_fmt(x, y), sub_fmt(x, y))}[c](fa, fb)
        return self.call(f"cl_fix_{c}_fmt", {"h": a}, {"h": b}, kind="fmt", f=m)

    def do_gen(self, f):
        h = self.map[f]
        fm = self.f(h)
        c = self.r.choice(["max", "min", "zeros", "random", "real", "real", "int", "int"])
        if self.r.random() < 0.3 and c in ("max", "min", "real"):
            return self.gen_obj(c, h, fm)
        if c in ("max", "min"):
            return self.call(f"cl_fix_{c}_value", {"h": h}, kind="dat", f=fm, fh=h)
        if c in ("zeros", "random"):
            return self.call(f"cl_fix_{c}", {"shape": self.sh}, {"h": h}, fresh=c == "random", kind="dat", f=fm, fh=h)
        if c == "real":
            x = self.reals(fm)
            return self.call("cl_fix_from_real", {"h": x}, {"h": h}, {"sat": self.r.choice([2, 3])}, kind="dat", f=fm, fh=h)
        d = self.g.data(fm, 1, sh=self.shape())
        wide = is_wide(fm) or width(fm) > 62
        x = self.add({"do": "new", "kind": "int", "v": d["v"], "sh": d["sh"], "wide": wide}, kind="int")
        return self.call("cl_fix_from_integer", {"h": x}, {"h": h}, kind="dat", f=fm, fh=h)

    def reals(self, fm):
        import math
        d = self.g.data(fm, 1, sh=self.shape())
        x = [math.ldexp(float(v), -fm[2]) for v in d["v"]]
        if self.r.random() < 0.5:
            x = [v + self.r.choice([0, 0.5, 0.25]) * 2.0**-fm[2] for v in x]
        return self.add({"do": "new", "kind": "real", "v": [v.hex() for v in x], "sh": d["sh"]}, kind="real")

    def gen_obj(self, c, h, fm):
        cls = "WideFix" if is_wide(fm) or self.r.random() < 0.3 else "NarrowFix"
        if c == "real":
            x = self.reals(fm)
            o = self.call(cls + ".from_real", {"h": x}, {"h": h}, {"sat": self.r.choice([2, 3])}, kind="obj", f=fm,
                          cls="wide" if cls == "WideFix" else "narrow")
        else:
            o = self.call(f"{cls}.{c}_value", {"h": h}, kind="obj", f=fm, cls="wide" if cls == "WideFix" else "narrow")
        wide = cls == "WideFix"
        r = self.call("op:data", {"h": o}, kind="dat", f=fm, fh=h)
        if wide != is_wide(fm):         # not data of the function interface
            return self.do_new_dat(None, h)
        return r

    def sel(self, shape=True):
        if self.r.random() < 0.3:
            return {"x": self.r.random() < 0.5}
        sh = self.shape()
        k = 1
        for d in sh:
            k *= d
        return {"h": self.add({"do": "new", "kind": "bool", "v": [self.r.randint(0, 1) for _ in range(k)], "sh": sh}, kind="bool")}

    def shifts(self):
        if self.r.random() < 0.6:
            k = self.r.randint(-4, 4)
            return {"x": k}, [k]
        sh = self.sh
        k = 1
        for d in sh:
            k *= d
        v = [self.r.randint(-3, 3) for _ in range(k)]
        return {"h": self.add({"do": "new", "kind": "int", "v": v, "sh": sh, "wide": False}, kind="int")}, v

    def tail(self, r, m):
        """Arguments for the result format and modes, and what is known about the result."""
        if r is None:
            return [], dict(kind="dat", f=m)
        return [{"h": r}, self.rnd, self.sat], dict(kind="dat", f=self.f(r), fh=r)

    def do_dat1(self, d, r):
        d, r = self.map[d], self.map[r]
        fd, fh = self.f(d), self.fmt_of(d)
        c = self.r.choice(["abs", "neg", "shift"] + (["resize", "resize", "resize", "round", "round", "saturate", "saturate"] if r else []))
        if c in ("round", "saturate"):
            return self.stage(c, d, fd, fh, r, "fn")
        if c == "resize":
            return self.call("cl_fix_resize", {"h": d}, {"h": fh}, {"h": r}, self.rnd, self.sat, kind="dat", f=self.f(r), fh=r)
        if c == "shift":
            k, ks = self.shifts()
            t, m = self.tail(r, mid_fmt("shift", fd, None, ks))
            return self.call("cl_fix_shift", {"h": d}, {"h": fh}, k, *(t or [{"x": None}]), **m)
        t, m = self.tail(r, mid_fmt(c, fd))
        return self.call("cl_fix_" + c, {"h": d}, {"h": fh}, *t, **m)

    def stage(self, c, x, fx, fh, r, how, cls=None):
        """Rounding and saturation on their own, often with nothing to do."""
        if c == "round":
            k = self.r.randint(0, 6)
            F = self.r.choice([fx[2], fx[2], fx[2] + 1, fx[2] - 1, fx[2] - 3])
            m = round_fmt(fx, F, k)
            rf = fh if m == fx and fh is not None and self.r.random() < 0.5 else self.new_fmt(m)
            mode = {"rnd": k}
        else:
            m = self.r.choice([fx, [fx[0], max(fx[1] + self.r.randint(-2, 3), -fx[2]), fx[2]], [1 - fx[0], fx[1], fx[2]]])
            if width(m) < 1 or cls == "narrow" and is_wide(m):
                m = fx
            rf = fh if m == fx and fh is not None and self.r.random() < 0.5 else self.new_fmt(m)
            mode = self.sat
        if how == "fn":
            return self.call("cl_fix_" + c, {"h": x}, {"h": fh}, {"h": rf}, mode, kind="dat", f=m, fh=rf)
        if cls == "narrow" and is_wide(m):
            return self.call("op:neg", {"h": x}, kind="obj", f=neg_fmt(fx), cls=cls) if width(fx) < 52 else self.same(x)
        return self.call("m:" + c, {"h": x}, {"h": rf}, mode, kind="obj", f=m, cls=cls)

    def same(self, x):
        """An object like x, made of its data and format."""
        m = self.meta[x]
        d = self.call("op:data", {"h": x}, kind="dat", f=m["f"])
        f = self.call("op:fmt", {"h": x}, kind="fmt", f=m["f"])
        return self.call("WideFix" if m["cls"] == "wide" else "NarrowFix", {"h": d}, {"h": f}, kind="obj", f=m["f"], cls=m["cls"])

    def do_dat2(self, d, e, r):
        d, e, r = self.map[d], self.map[e], self.map[r]
        fd, fe = self.f(d), self.f(e)
        c = self.r.choice(["add", "sub", "mult", "addsub"])
        if c == "mult" and width(fd) + width(fe) > 150:
            c = "add"
        args = [{"h": d}, {"h": self.fmt_of(d)}, {"h": e}, {"h": self.fmt_of(e)}]
        if c == "addsub":
            args.append(self.sel())
        t, m = self.tail(r, mid_fmt(c, fd, fe))
        return self.call("cl_fix_" + c, *args, *t, **m)

    def do_query(self, d, r):
        d, r = self.map[d], self.map[r]
        fd, fh = self.f(d), self.fmt_of(d)
        c = self.r.choice(["in_range", "in_range", "to_integer", "to_real", "width", "is_wide", "format_to_string", "pack", "pack"])
        m = dict(kind="oth", f=fd)
        if c == "in_range":
            return self.call("cl_fix_in_range", {"h": d}, {"h": fh}, {"h": r}, self.rnd, **m)
        if c in ("width", "is_wide", "format_to_string"):
            return self.call("cl_fix_" + c, {"h": r}, **m)
        if c == "pack" and is_wide(fd) and self.meta[d].get("pres") != "list":
            p = self.call("to_uint64_array", {"h": d}, {"h": fh}, **m)
            if self.r.random() < 0.6:
                return self.call("from_uint64_array", {"h": p}, {"h": fh}, **m)
            return p
        if c == "pack":
            c = "to_integer"
        return self.call("cl_fix_" + c, {"h": d}, {"h": fh}, **m)

    def obj_ok(self, x, op, r=None, y=None, ks=None):
        """Do all formats involved suit narrow objects?"""
        if self.meta[x]["cls"] == "wide":
            return True
        q = {"op": op, "fa": self.f(x), "fb": self.f(y) if y is not None else [], "fr": self.f(r) if r is not None else [],
             "rnd": 1, "k": {"v": ks or [0]}}
        return narrow_ok(q)

    def do_obj1(self, x, r):
        x, r = self.map[x], self.map[r]
        cls, fx = self.meta[x]["cls"], self.f(x)
        m = lambda f: dict(kind="obj", f=f, cls=cls)
        c = self.r.choice(["abs", "neg", "shift", "round", "saturate"] + (["resize"] * 2 if r is not None else []))
        if c in ("round", "saturate"):
            return self.stage(c, x, fx, None, r, "obj", cls)
        k, ks = self.shifts() if c == "shift" else (None, None)
        if not self.obj_ok(x, c, r, None, ks):
            return self.same(x)
        if c == "resize":
            return self.call("m:resize", {"h": x}, {"h": r}, self.rnd, self.sat, **m(self.f(r)))
        t, mm = self.tail(r, mid_fmt(c, fx, None, ks))
        args = [k] if c == "shift" else []
        if not t and c != "abs" and self.r.random() < 0.5:
            return self.call("op:" + {"neg": "neg", "shift": "<<"}[c], {"h": x}, *args, **m(mm["f"]))
        return self.call("m:" + c, {"h": x}, *args, *t, **m(mm["f"]))

    def pair(self, x, y):
        """Both objects in one class."""
        if self.meta[x]["cls"] != self.meta[y]["cls"]:
            up = lambda h: h if self.meta[h]["cls"] == "wide" else self.call("WideFix.from_narrowfix", {"h": h}, kind="obj",
                                                                            f=self.f(h), cls="wide")
            return up(x), up(y)
        return x, y

    def do_obj2(self, x, y, r):
        x, y = self.pair(self.map[x], self.map[y])
        r = self.map[r]
        cls = self.meta[x]["cls"]
        c = self.r.choice(["add", "sub", "mult", "addsub"])
        if c == "mult" and width(self.f(x)) + width(self.f(y)) > 150:
            c = "add"
        if not self.obj_ok(x, c, r, y):
            return self.same(x)
        t, mm = self.tail(r, mid_fmt(c, self.f(x), self.f(y)))
        m = dict(kind="obj", f=mm["f"], cls=cls)
        if c == "addsub":
            return self.call("m:addsub", {"h": x}, {"h": y}, self.sel(), *t, **m)
        if not t and self.r.random() < 0.5:
            return self.call("op:" + {"add": "+", "sub": "-", "mult": "*"}[c], {"h": x}, {"h": y}, **m)
        return self.call("m:" + c, {"h": x}, {"h": y}, *t, **m)

    def do_obj_query(self, x, y, r):
        x, y = self.pair(self.map[x], self.map[y])
        r = self.map[r]
        cls = self.meta[x]["cls"]
        m = dict(kind="oth", f=self.f(x))
        c = self.r.choice(["==", "!=", "<", ">", "<=", ">=", "len", "str", "repr"] +
                          (["to_real", "to_uint64_array", "align"] if cls == "wide" else ["to_integer", "in_range"]))
        if c == "align":
            return self.call("WideFix.align_binary_points", {"hs": [x, y]}, **m)
        if c in ("len", "str", "repr"):
            return self.call("op:" + c, {"h": x}, **m)
        if c == "in_range":
            return self.call("m:in_range", {"h": x}, {"h": r}, self.rnd, **m) if self.obj_ok(x, "in_range", r) else self.call("op:data", {"h": x}, **m)
        if c in ("to_real", "to_uint64_array", "to_integer"):
            return self.call("m:" + c, {"h": x}, **m)
        return self.call("op:" + c, {"h": x}, {"h": y}, **m)

    def do_obj_data(self, x):
        x = self.map[x]
        m = self.meta[x]
        d = self.call("op:data", {"h": x}, kind="dat", f=m["f"])
        if (m["cls"] == "wide") != is_wide(m["f"]):
            return self.do_new_dat(None, self.fmt_of(d))
        return d

    def do_obj_fmt(self, x):
        x = self.map[x]
        return self.call("op:fmt", {"h": x}, kind="fmt", f=self.meta[x]["f"])

    # ---- in-place modifications ------------------------------------------------------------------
    def poke_at(self, h, i):
        m = self.meta[h]
        f = m.get("f", [0, 8, 0])
        if m["kind"] == "fmt":
            # and back, so that the format still describes its data
            self.steps.append({"do": "poke", "h": h, "i": i, "d": 1})
            self.steps.append({"do": "poke", "h": h, "i": i, "d": -1})
        elif m["kind"] == "obj":
            return
        elif m["kind"] in ("dat", "oth"):
            self.steps.append({"do": "poke", "h": h, "i": i, "F": f[2], "cand": [lo(f), hi(f)]})
        elif m["kind"] == "int":
            self.steps.append({"do": "poke", "h": h, "i": i, "F": 0, "cand": [0, 1]})
        else:
            self.steps.append({"do": "poke", "h": h, "i": i, "F": 0, "cand": [0, 1]})

    def do_poke(self, h):
        self.poke_at(self.map[h], self.r.randint(0, 2))

    def sweep(self):
        hs = list(range(len(self.meta)))
        self.r.shuffle(hs)
        for h in hs:
            for i in range(3 if self.meta[h]["kind"] == "fmt" else 2):
                self.poke_at(h, i)


def plan(g, behs):
    return [{"id": i, "steps": Concrete(g, b).steps} for i, b in enumerate(behs)]


def run_chunk(hs, tag):
    fin, fout = path(tag + ".plan"), path(tag + ".out")
    out, todo, runs = {}, list(hs), 0
    while todo:
        runs += 1
        with open(fin, "w") as f:
            for h in todo:
                f.write(json.dumps(h) + "\n")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
        err, hang = run_watched([PY, os.path.join(ROOT, "vf", "pyhist.py"), REPO, fin, fout], fout, env)
        if hang:
            err = "hang"
        n = 0
        for line in (open(fout) if os.path.exists(fout) else []):
            o = json.loads(line)
            out[o["id"]] = o
            n += 1
        if n >= len(todo):
            break
        out[todo[n]["id"]] = {"id": todo[n]["id"], "st": "refused", "h": [], "log": [], "why": err[-1500:]}
        todo = todo[n + 1:]
        if runs > 10:
            for h in todo:
                out[h["id"]] = {"id": h["id"], "st": "refused", "h": [], "log": [], "why": err[-1500:]}
            break
    return out


def execute(hs, tag="hist"):
    out = {}
    with cf.ThreadPoolExecutor(CORES) as ex:
        for o in ex.map(lambda c: run_chunk(c[1], f"{tag}{c[0]}"), enumerate([hs[i::CORES] for i in range(CORES)])):
            out.update(o)
    return out
