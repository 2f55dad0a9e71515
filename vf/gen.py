"""Generation of requests: formats, values and modes that reach the interesting cases.

All numbers are Python ints (mantissas); spec/Calls.tla defines what a request means.
"""
import random
from fractions import Fraction

NARROW = 53
width = lambda f: f[0] + f[1] + f[2]
is_wide = lambda f: width(f) > NARROW
lo = lambda f: -(1 << (f[1] + f[2])) if f[0] else 0
hi = lambda f: (1 << (f[1] + f[2])) - 1


def ok(f):
    return f[0] in (0, 1) and f[1] + f[2] >= 0


# Result formats as the specification defines them (only used to aim requests at interesting
# places, and to keep object requests within the representation's limits -- never to judge).
def union(a, b):
    return [max(x, y) for x, y in zip(a, b)]


def add_fmt(a, b):
    g = 1 if min(a[1], b[1]) + min(a[2], b[2]) > 0 or (a[0] and b[0]) else 0
    return [max(a[0], b[0]), max(a[1], b[1]) + g, max(a[2], b[2])]


def neg_fmt(a):
    return [1, a[1] - 1, a[2]] if a[0] == 0 and width(a) == 1 else [1, a[1] + a[0], a[2]]


def sub_fmt(a, b):
    rmax = a[1] if not b[0] else max(a[1], b[1]) + (1 if min(a[1], b[1]) >= -a[2] else 0)
    F = max(a[2], b[2])
    if a[0] == 0:
        if width(b) == 1 and b[0]:
            return [0, rmax, F]
        return [1, max(rmax, -b[2] if b[1] == -b[2] + 1 else b[1]), F]
    rmin = max(a[1], b[1]) + (1 if min(a[1], b[1]) > -b[2] else 0)
    return [1, max(rmax, rmin), F]


def mult_fmt(a, b):
    if a[0] and b[0]:
        I = a[1] + b[1] + 1
    elif a[1] + a[2] <= 1 or b[1] + b[2] <= 1:
        I = a[1] + b[1] - 1
    else:
        I = a[1] + b[1]
    if a[0] == 0 and b[0] == 1:
        I = max(I, neg_fmt(a)[1] + b[1])
    elif a[0] == 1 and b[0] == 0:
        I = max(I, a[1] + neg_fmt(b)[1])
    S = 0 if a[0] and b[0] and width(a) == 1 and width(b) == 1 else max(a[0], b[0])
    return [S, I, a[2] + b[2]]


def round_fmt(a, F, rnd):
    I = a[1] if F >= a[2] or rnd == 0 else a[1] + 1
    if a[0] + I + F < 1:
        I = 1 - a[0] - F
    return [a[0], I, F]


def mid_fmt(op, fa, fb=None, ks=None):
    if op == "add":
        return add_fmt(fa, fb)
    if op == "sub":
        return sub_fmt(fa, fb)
    if op == "addsub":
        return union(add_fmt(fa, fb), sub_fmt(fa, fb))
    if op == "mult":
        return mult_fmt(fa, fb)
    if op == "neg":
        return neg_fmt(fa)
    if op == "abs":
        return union(fa, neg_fmt(fa))
    if op == "shift":
        return [fa[0], fa[1] + max(ks), fa[2] - min(ks)]
    return fa


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0

    # ---- formats -------------------------------------------------------------------------------
    def fmt(self, kind=None, minw=1):
        r = self.r
        kind = kind or r.choice(["tiny", "small", "small", "mid", "edge", "wideedge", "wide", "skew"])
        for _ in range(1000):
            S = r.randint(0, 1)
            if kind == "tiny":
                w = r.randint(1, 4)
            elif kind == "small":
                w = r.randint(1, 10)
            elif kind == "mid":
                w = r.randint(8, 40)
            elif kind == "edge":
                w = r.randint(51, 53)
            elif kind == "wideedge":
                w = r.randint(54, 56)
            elif kind == "wide":
                w = r.choice([r.randint(57, 70), r.randint(60, 135)])
            elif kind == "power":       # around powers of two and other internal limits
                w = r.choice([8, 16, 24, 30, 31, 32, 33, 48, 52, 53, 54, 60, 63, 64, 65, 90, 95, 96, 97, 120, 126,
                              127, 128, 129, 130, 160, 192, 256]) + r.choice([0, 0, -1, 1])
            elif kind in ("huge", "vast"):      # vast: beyond the bit weights of a double
                w = r.choice([r.randint(200, 500), r.randint(500, 1100), 1023, 1024, 1025, 1100, 1200])
            else:                       # "skew", "far": binary point far away
                w = r.randint(1, 60)
            w = max(w, minw)
            if w - S < 0:
                continue
            if kind == "skew":
                F = r.choice([r.randint(-90, -20), r.randint(40, 110)])
            elif kind == "huge":
                F = r.randint(max(-8, w - 950), min(950, w + 8))
            elif kind == "far":
                F = r.choice([-1, 1]) * r.randint(150, 430)
            elif kind in ("tiny", "small"):
                F = r.randint(-5, w + 4)
            else:
                F = r.choice([0, r.randint(0, w - S), r.randint(0, w - S), r.randint(-8, w + 8)])
            f = [S, w - S - F, F]
            if ok(f) and width(f) >= minw:
                return f
        raise AssertionError

    def near_fmt(self, f, spread=4, minw=1):
        """A format related to f (as result formats are in practice)."""
        r = self.r
        for _ in range(1000):
            g = [r.randint(0, 1), f[1] + r.randint(-spread, spread), f[2] + r.randint(-spread, spread)]
            if r.random() < 0.2:
                g[1] = f[1]
            if r.random() < 0.2:
                g[2] = f[2]
            if r.random() < 0.08:       # many dropped bits
                g[2] = f[2] - r.randint(0, max(1, width(f) + 3))
                g[1] = max(g[1], -g[2])
            if ok(g) and width(g) >= minw:
                return g
        raise AssertionError

    # ---- values --------------------------------------------------------------------------------
    def value(self, f, drop=0, bounds=()):
        """A mantissa of format f; drop: number of LSBs that rounding will drop; bounds: mantissas
        (in units of f's LSB, possibly out of range) around which something changes."""
        r = self.r
        L, H = lo(f), hi(f)
        c = r.random()
        if c < 0.12:
            v = r.choice([L, H])
        elif c < 0.2:
            v = r.choice([L + 1, H - 1, 0, -1, 1])
        elif c < 0.5 and drop > 0:
            half = 1 << (drop - 1)
            base = r.randint(L, H) >> drop << drop
            if r.random() < 0.3:
                base = r.choice([L, 0, H]) >> drop << drop
            v = base + half + r.choice([0, 0, 0, 0, -1, 1])
            if r.random() < 0.15:
                v = base + r.choice([0, -1, 1])
        elif c < 0.75 and bounds:
            v = r.choice(bounds)
            half = 1 << (drop - 1) if drop > 0 else 0
            v += r.choice([0, 0, 1, -1, half, -half, half - 1, half + 1, -half - 1, -half + 1])
        elif c < 0.85:
            n = r.randint(0, f[1] + f[2])
            v = r.getrandbits(n) if n else 0
            if f[0] and r.random() < 0.5:
                v = -v
        else:
            v = r.randint(L, H)
        if v < L or v > H:
            v = r.choice([L, H]) if r.random() < 0.3 else max(L, min(H, v)) if r.random() < 0.5 else r.randint(L, H)
        return v

    def bounds_in(self, f, fr):
        """Bounds of fr (and multiples of its span) in units of f's LSB."""
        d = f[2] - fr[2]
        sh = lambda x: x << d if d >= 0 else x >> -d
        span = 1 << max(0, width(fr))
        return [sh(lo(fr)), sh(hi(fr)), sh(hi(fr) + 1), sh(lo(fr) - 1), sh(span), sh(-span), sh(lo(fr) - span), sh(hi(fr) + span)]

    def data(self, f, n, drop=0, bounds=(), sh=None, pres="array"):
        sh = [n] if sh is None else sh
        k = 1
        for d in sh:
            k *= d
        return {"sh": sh, "v": [self.value(f, drop, bounds) for _ in range(k)], "F": f[2], "pres": pres}

    # ---- requests ------------------------------------------------------------------------------
    def req(self, op, src="py", fa=(), fb=(), fr=(), rnd=0, sat=0, **kw):
        self.n += 1
        q = {"id": self.n, "op": op, "src": src, "fa": list(fa), "fb": list(fb), "fr": list(fr), "rnd": rnd,
             "sat": sat, "x": []}
        q.update(kw)
        return q

    def fmt_kinds(self):
        return self.r.choice(2 * ["tiny", "small", "small", "mid", "edge", "edge", "wideedge", "wide", "wide", "skew", "power"]
                             + [self.r.choice(["huge", "far"])])

    def round_req(self, n=8, kind=None, rnd=None):
        r = self.r
        fa = self.fmt(kind or self.fmt_kinds())
        rnd = r.randint(0, 6) if rnd is None else rnd
        c = r.random()
        if c < 0.15:
            F = fa[2] + r.randint(0, 5)
        elif c < 0.7:
            F = fa[2] - r.randint(1, max(1, min(6, width(fa) + 2)))
        else:
            F = fa[2] - r.randint(1, width(fa) + 3)
        fr = round_fmt(fa, F, rnd)
        drop = max(0, fa[2] - F)
        return self.req("round", fa=fa, fr=fr, rnd=rnd, a=self.data(fa, n, drop))

    def sat_req(self, n=8, kind=None, sat=None):
        r = self.r
        fa = self.fmt(kind or self.fmt_kinds())
        sat = r.randint(0, 3) if sat is None else sat
        for _ in range(100):
            c = r.random()
            if c < 0.7:
                I = fa[1] + r.randint(-5, 3)
            elif c < 0.85:
                I = -fa[2] + r.randint(0, 3)
            else:
                I = fa[1] + r.randint(-fa[1] - fa[2], 30)
            fr = [r.randint(0, 1), I, fa[2]]
            if ok(fr) and width(fr) > 0:
                break
        else:
            fr = list(fa)
        return self.req("saturate", fa=fa, fr=fr, sat=sat, a=self.data(fa, n, 0, self.bounds_in(fa, fr)))

    def resize_req(self, n=8, kind=None, op="resize"):
        r = self.r
        fa = self.fmt(kind or self.fmt_kinds())
        c = r.random()
        if c < 0.75:
            fr = self.near_fmt(fa, r.choice([2, 4, 8]))
        elif c < 0.9:
            fr = self.fmt()
            fr[1] += fa[1] - fr[1] // 2 if False else 0
        else:                           # across the narrow/wide limit
            w = r.randint(50, 57)
            F = fa[2] + r.randint(-6, 6)
            fr = [r.randint(0, 1), 0, F]
            fr[1] = w - fr[0] - F
        if abs(fr[1] - fa[1]) > 150 or abs(fr[2] - fa[2]) > 150:
            fr = self.near_fmt(fa)
        rnd = r.randint(0, 6)
        sat = r.randint(0, 3) if op == "resize" else 0
        drop = max(0, fa[2] - fr[2])
        return self.req(op, fa=fa, fr=fr, rnd=rnd, sat=sat, a=self.data(fa, n, drop, self.bounds_in(fa, fr)))

    def fmt_pair(self):
        r = self.r
        kind = self.fmt_kinds()
        fa = self.fmt(kind)
        fb = self.near_fmt(fa, 6) if r.random() < 0.5 else self.fmt(r.choice(["tiny", "small", kind, kind, "mid", "wide"]))
        if abs(fa[2] - fb[2]) > 140 or abs(fa[1] - fb[1]) > 140:
            fb = self.near_fmt(fa, 6)
        return fa, fb

    def res_for(self, m):
        """A requested result format for exact results of format m ([]: none requested)."""
        r = self.r
        c = r.random()
        if c < 0.15:
            return []
        if c < 0.25:
            return list(m)
        if c < 0.85:
            return self.near_fmt(m, r.choice([2, 4, 8]))
        w = r.randint(49, 58)
        F = m[2] + r.randint(-4, 2)
        f = [r.randint(0, 1), 0, F]
        f[1] = w - f[0] - F
        if abs(f[1] - m[1]) > 140:
            return self.near_fmt(m, 4)
        return f

    def arith_req(self, op=None, n=6, ks=None):
        r = self.r
        op = op or r.choice(["add", "sub", "addsub", "mult", "neg", "abs", "shift"])
        rnd, sat = r.randint(0, 6), r.randint(0, 3)
        if op in ("add", "sub", "addsub", "mult"):
            fa, fb = self.fmt_pair()
            if op == "mult" and width(fa) + width(fb) > 220:
                fb = self.fmt("small")
            m = mid_fmt(op, fa, fb)
            fr = self.res_for(m)
            kw = {}
            a, b = self.data(fa, n), self.data(fb, n)
            f = fr or m
            # aim the exact result at ties and bounds of the result format
            if r.random() < 0.8:
                self.aim(op, fa, fb, f, m, a, b)
            if op == "addsub":
                kw["sel"] = {"sh": [n], "v": [r.randint(0, 1) for _ in range(n)]}
                if r.random() < 0.3:
                    kw["sel"]["v"] = [r.randint(0, 1)] * n
            return self.req(op, fa=fa, fb=fb, fr=fr, rnd=rnd, sat=sat, a=a, b=b, **kw)
        fa = self.fmt(self.fmt_kinds())
        if op == "shift":
            if ks is None:
                base = r.randint(-12, 12)
                ks = [base + r.randint(0, 6) for _ in range(n)] if r.random() < 0.6 else [base] * n
            m = mid_fmt(op, fa, None, ks)
            fr = self.res_for(m)
            f = fr or m
            a = self.data(fa, n)
            for i in range(n):
                # value v of fa at 2^-(Fa-k)
                g = [fa[0], fa[1] + ks[i % len(ks)], fa[2] - ks[i % len(ks)]]
                a["v"][i] = self.value(fa, max(0, g[2] - f[2]), self.bounds_in(g, f))
            return self.req(op, fa=fa, fr=fr, rnd=rnd, sat=sat, a=a, k={"sh": [n], "v": ks})
        m = mid_fmt(op, fa)
        fr = self.res_for(m)
        f = fr or m
        bs = self.bounds_in(fa, f)
        return self.req(op, fa=fa, fr=fr, rnd=rnd, sat=sat,
                        a=self.data(fa, n, max(0, fa[2] - f[2]), bs + [-x for x in bs]))

    def aim(self, op, fa, fb, f, m, a, b):
        """Choose operand pairs whose exact result is a tie or next to a bound of f."""
        r = self.r
        for i in range(len(a["v"])):
            if r.random() < 0.4:
                continue
            drop = max(0, m[2] - f[2])
            t = self.value(m, drop, self.bounds_in(m, f))
            if op == "mult":
                bv = b["v"][i]
                if bv:
                    av = t // bv
                    if lo(fa) <= av <= hi(fa):
                        a["v"][i] = av
                continue
            sa, sb = m[2] - fa[2], m[2] - fb[2]
            s = -1 if op == "sub" or (op == "addsub" and r.random() < 0.5) else 1
            # a*2^sa + s*b*2^sb = t
            for _ in range(3):
                av = a["v"][i]
                d = s * (t - (av << sa))
                if d % (1 << sb) == 0 and lo(fb) <= d >> sb <= hi(fb):
                    b["v"][i] = d >> sb
                    break
                bv = b["v"][i]
                d = t - s * (bv << sb)
                if d % (1 << sa) == 0 and lo(fa) <= d >> sa <= hi(fa):
                    a["v"][i] = d >> sa
                    break
                a["v"][i] = self.value(fa)

    # ---- derived views -------------------------------------------------------------------------
    def elements(self, q, dirs=True):
        """Splits an array request into single-element requests (for VHDL)."""
        sub = []
        at = lambda v, i: v[i] if len(v) > 1 else v[0]
        n = len(q["a"]["v"])
        for i in range(n):
            e = dict(q, id=0, src="vhdl")
            for o in ("a", "b"):
                if o in q:
                    e[o] = dict(q[o], sh=[], v=[at(q[o]["v"], i)])
                    if "hex" in q[o]:
                        e[o]["hex"] = [at(q[o]["hex"], i)]
            for o in ("sel", "k"):
                if o in q:
                    e[o] = dict(q[o], sh=[], v=[at(q[o]["v"], i)])
            if q["op"] == "shift" and not q["fr"]:      # has no default in VHDL
                e["fr"] = mid_fmt("shift", q["fa"], None, e["k"]["v"])
            self.n += 1
            e["id"] = self.n
            e["dir"] = self.n % 3 if dirs else 0
            sub.append(e)
        return sub


def narrow_ok(q):
    """May the request be made on NarrowFix objects (all formats involved at most 53 bits)?"""
    op = q["op"]
    if op == "to_real":                 # the data of such objects is real already
        return False
    if not q["fa"]:
        return not is_wide(q["fr"])
    fs = [q["fa"]]
    if q["fb"]:
        fs.append(q["fb"])
    if op in ("add", "sub", "addsub", "mult", "neg", "abs", "shift"):
        m = mid_fmt(op, q["fa"], q["fb"], q["k"]["v"] if op == "shift" else None)
        fs.append(m)
        if op == "addsub":
            fs += [add_fmt(q["fa"], q["fb"]), sub_fmt(q["fa"], q["fb"])]
        if op == "abs":
            fs.append(neg_fmt(q["fa"]))
    else:
        m = q["fa"]
    if q["fr"]:
        fs.append(q["fr"])
        fs.append(round_fmt(m, q["fr"][2], q["rnd"]))
    return all(not is_wide(f) for f in fs)
