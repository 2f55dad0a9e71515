"""Exhaustive enumerations of small scopes (requests as in gen.py)."""
from .gen import lo, hi, width, ok, round_fmt, mid_fmt


def small_formats(maxw, Fs=(0,), minw=1):
    """All formats of minw..maxw bits for the given numbers of fraction bits."""
    return [[S, w - S - F, F] for S in (0, 1) for w in range(max(minw, S), maxw + 1) for F in Fs
            if ok([S, w - S - F, F])]


def values(f):
    return list(range(lo(f), hi(f) + 1))


def arr(vals, F, sh=None):
    return {"sh": [len(vals)] if sh is None else sh, "v": list(vals), "F": F, "pres": "array"}


def rounds(g, maxw, Fs=(0,), extra=2, drops=None):
    for fa in small_formats(maxw, Fs):
        for F in range(fa[2] - width(fa) - extra, fa[2] + 2):
            for rnd in range(7):
                yield g.req("round", fa=fa, fr=round_fmt(fa, F, rnd), rnd=rnd, a=arr(values(fa), fa[2]))


def saturates(g, maxw, Fs=(0,), extra=2):
    for fa in small_formats(maxw, Fs):
        for S in (0, 1):
            for I in range(-fa[2], fa[1] + extra + 1):
                fr = [S, I, fa[2]]
                if width(fr) < 1:
                    continue
                for sat in range(4):
                    yield g.req("saturate", fa=fa, fr=fr, sat=sat, a=arr(values(fa), fa[2]))


def resizes(g, maxw, Fs=(0,), op="resize", keep=1.0, minw=1):
    r = g.r
    for fa in small_formats(maxw, Fs, minw):
        for S in (0, 1):
            for F in range(fa[2] - width(fa) - 1, fa[2] + 2):
                for I in range(-F, max(-F, fa[1] + 1) + 1):
                    fr = [S, I, F]
                    if not ok(fr) or width(fr) < 1:
                        continue
                    for rnd in range(7):
                        for sat in (range(4) if op == "resize" else (0,)):
                            if keep < 1 and r.random() >= keep:
                                continue
                            yield g.req(op, fa=fa, fr=fr, rnd=rnd, sat=sat, a=arr(values(fa), fa[2]))


def pairs(fa, fb):
    va, vb = values(fa), values(fb)
    return [x for x in va for _ in vb], vb * len(va)


def ariths(g, maxw, offs, keep=1.0, ops=("add", "sub", "addsub", "mult", "neg", "abs", "shift"), full=True):
    """Binary operations on all pairs of small formats and all values; the result formats and modes
    are all full-precision formats plus randomly chosen narrower ones."""
    r = g.r
    for op in ops:
        binary = op in ("add", "sub", "addsub", "mult")
        for fa in small_formats(maxw, (0, 2)):
            for fb in (small_formats(maxw, offs) if binary else [None]):
                kss = [None] if op != "shift" else [[k] for k in range(-3, 4)]
                for ks in kss:
                    if keep < 1 and r.random() >= keep:
                        continue
                    m = mid_fmt(op, fa, fb, ks)
                    frs = ([[]] if full else []) + [near(r, m) for _ in range(2)]
                    for fr in frs:
                        kw = {}
                        if binary:
                            a, b = pairs(fa, fb)
                            kw = {"b": arr(b, fb[2]), "fb": fb}
                            if op == "addsub":
                                kw["sel"] = {"sh": [len(a)], "v": [r.randint(0, 1) for _ in a]}
                        else:
                            a = values(fa)
                            if ks:
                                kw = {"k": {"sh": [], "v": ks}}
                        yield g.req(op, fa=fa, fr=fr, rnd=r.randint(0, 6), sat=r.randint(0, 3),
                                    a=arr(a, fa[2]), **kw)


def near(r, m):
    while True:
        f = [r.randint(0, 1), m[1] + r.randint(-3, 1), m[2] + r.randint(-3, 1)]
        if ok(f) and width(f) > 0:
            return f
