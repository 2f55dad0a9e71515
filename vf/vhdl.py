"""Compiles the repository's VHDL with GHDL into the scratch directory and executes requests on it."""
import glob, os, re, subprocess, concurrent.futures as cf
from .common import REPO, ROOT, CORES, MachineryError, path, run_watched
from .num import dyadic

ENV = dict(os.environ, GHDL_BACKEND="gcc", HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8")
FLAGS = ["--std=08", "-frelaxed", "-Wno-hide"]

OPS = {"add": 1, "sub": 2, "addsub": 3, "mult": 4, "neg": 5, "abs": 6, "shift": 7, "resize": 8, "round": 9,
       "saturate": 10, "in_range": 11, "compare": 12, "sign": 13, "from_real": 14, "to_real": 15,
       "from_integer": 16, "to_integer": 17, "max_value": 18, "min_value": 19, "add_fmt": 20, "sub_fmt": 21,
       "addsub_fmt": 22, "mult_fmt": 23, "neg_fmt": 24, "abs_fmt": 25, "shift_fmt": 26, "round_fmt": 27,
       "width": 28, "pipe_round": 29, "pipe_sat": 30, "pipe_resize": 31, "choose": 32,
       "fmt_to_string": 40, "rnd_to_string": 41, "sat_to_string": 42, "val_to_string": 43,
       "fmt_from_string": 44, "rnd_from_string": 45, "sat_from_string": 46}
NULLFMT = [0, 0, -1]


class BuildError(Exception):
    pass


def ghdl(args, cwd):
    p = subprocess.run(["ghdl"] + args, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("ghdl " + " ".join(args) + "\n" + p.stdout.decode("utf-8", "replace")[-3000:])


def build(name, lib_files, top_files, top):
    """lib_files: {library: [files]}; returns the path of the simulation executable."""
    d = path(name)
    os.makedirs(d, exist_ok=True)
    for lib, files in lib_files:
        try:
            ghdl(["-a", *FLAGS, "--work=" + lib, "-P" + d, *files], d)
        except BuildError:
            analyse_all(lib, files, d)
    ghdl(["-a", *FLAGS, "-P" + d, *top_files], d)
    ghdl(["-e", *FLAGS, "-P" + d, top], d)
    return os.path.join(d, top)


def analyse_all(lib, files, d):
    """The sources may have been divided differently: analyses all files of the folder in any order that works."""
    extra = sorted({x for f in files for x in glob.glob(os.path.join(os.path.dirname(f), "*.vhd"))} - set(files))
    todo, err = list(files) + extra, None
    while todo:
        left = []
        for f in todo:
            try:
                ghdl(["-a", *FLAGS, "--work=" + lib, "-P" + d, f], d)
            except BuildError as x:
                left.append(f)
                err = x if f in files or err is None else err
        if len(left) == len(todo):
            if any(f in files for f in left):
                raise err
            return
        todo = left


FIX_LIB = [os.path.join(REPO, "hdl", f) for f in ("en_cl_fix_private_pkg.vhd", "en_cl_fix_pkg.vhd")]
TB = os.path.join(REPO, "lib", "en_tb", "hdl")
TB_BASE = [os.path.join(TB, "en_tb_base_pkg.vhd")]
TB_LIB = TB_BASE + [os.path.join(TB, f) for f in ("en_tb_fileio_text_private_pkg.vhd", "en_tb_fileio_text_pkg.vhd")]
FIX_IO = [os.path.join(REPO, "tb", "util", "en_cl_fix_fileio_pkg.vhd")]
STUB = [os.path.join(ROOT, "hdl", "vunit_stub.vhd")]
FIX_ENTITIES = [os.path.join(REPO, "hdl", f) for f in ("en_cl_fix_round.vhd", "en_cl_fix_saturate.vhd", "en_cl_fix_resize.vhd")]

_calls = None


def calls_exe():
    global _calls
    if _calls is None:
        _calls = build("vf_calls_build", [("lib", FIX_LIB)], [os.path.join(ROOT, "hdl", "vf_calls.vhd")], "vf_calls")
    return _calls


UNITS = {"fs": 1e-6, "ps": 1e-3, "ns": 1, "us": 1e3, "ms": 1e6, "sec": 1e9, "s": 1e9}
REPORT = re.compile(r"@(\d+)(fs|ps|ns|us|ms|sec|s):\((assertion|report) (note|warning|error|failure)\): (.*)")


def bits(m, w):
    return format(m & ((1 << w) - 1), "0%db" % w) if w else "-"


def stimulus(q):
    op = q["op"]
    fa, fb = q["fa"] or NULLFMT, q["fb"] or NULLFMT
    fr = q["fr"] or NULLFMT
    x = (list(q.get("x") or []) + [0, 0, 0, 0])[:4]
    ta = tb = "-"
    if op in ("from_real",):
        n = float.fromhex(q["a"]["hex"][0])
        m, F = dyadic(n)
        neg, m = int(m < 0), abs(m)
        if m and m < 2**27:             # keep both parts below 2**27
            k = 0
        x = [m >> 27, m & (2**27 - 1), -F, neg]
    elif op == "from_integer":
        x[0] = q["a"]["v"][0]
    elif op in ("fmt_from_string", "rnd_from_string", "sat_from_string"):
        x[0] = q.get("first", 1)
        ta = "".join("%d." % c for c in q["codes"]) or "-"
    elif op == "val_to_string":
        ta = "".join(map(chr, q["bits"])).replace("-", "?")
    else:
        if q.get("a"):
            ta = bits(q["a"]["v"][0], sum(fa))
        if q.get("b"):
            tb = bits(q["b"]["v"][0], sum(fb))
    if op == "addsub":
        x[0] = q["sel"]["v"][0]
    if op == "shift":
        x[0] = q["k"]["v"][0]
    vals = [q["id"], OPS[op], *fa, *fb, *fr, q["rnd"], q["sat"], q.get("dir", 0), int(bool(q.get("one"))), *x]
    return " ".join(map(str, vals)) + f" {ta} {tb}"


def parse(q, toks):
    op = q["op"]
    n = OPS[op]
    r = {"sh": [], "v": [], "F": 0, "rep": "", "x": [], "w": 0}
    if n <= 10 or op in ("from_real", "from_integer", "max_value", "min_value"):
        b = toks[1] if len(toks) > 1 else ""
        if "X" in b or len(b) != int(toks[0]):
            return dict(r, kind="none", why="metavalue")
        return dict(r, kind="bits", w=int(toks[0]), v=[int(b, 2) if b else 0])
    if op == "to_real":
        if toks[0] == "inf":
            return dict(r, kind="none")
        m = (int(toks[1]) << 27) + int(toks[2])
        e = int(toks[3])
        if toks[0] == "-":
            m = -m
        return dict(r, kind="num", v=[m if e >= 0 else m << -e], F=max(e, 0))
    if op in ("in_range", "compare", "sign", "to_integer", "width", "pipe_round", "pipe_sat", "pipe_resize",
              "rnd_from_string", "sat_from_string"):
        return dict(r, kind="num", v=[int(toks[0])])
    if op.endswith("_fmt") or op in ("fmt_from_string", "choose"):
        return dict(r, kind="fmt", x=[int(t) for t in toks[:3]])
    return dict(r, kind="str", x=[int(t) for t in toks])


NONE = {"kind": "none", "sh": [], "v": [], "F": 0, "rep": "", "x": [], "w": 0}


def run_chunk(exe, plan, tag, stimulus=stimulus, parse=parse, reruns=60):
    """Runs the requests; a request on which the simulation stops is refused, the rest is run again."""
    out = {}
    todo = list(plan)
    runs = hangs = 0
    while todo:
        runs += 1
        fin, fout = path(f"{tag}.{runs}.in"), path(f"{tag}.{runs}.out")
        with open(fin, "w") as f:
            f.write("\n".join(stimulus(q) for q in todo) + "\n")
        text, hang = run_watched([exe, "-gIN_FILE=" + fin, "-gOUT_FILE=" + fout, "--max-stack-alloc=0"], fout, ENV)
        hangs += hang
        lines = open(fout).read().split("\n") if os.path.exists(fout) else []
        done = 0
        end = False
        for line in lines:
            toks = line.split()
            if toks == ["END"]:
                end = True
                break
            if len(toks) >= 1 and line.strip() and int(toks[0]) == todo[done]["id"] if done < len(todo) and toks else False:
                q = todo[done]
                try:
                    r = parse(q, toks[1:])
                except (IndexError, ValueError):
                    break
                out[q["id"]] = {"id": q["id"], "st": "ok", "warn": 0, "r": r}
                done += 1
        for m in REPORT.finditer(text):
            k = round(int(m.group(1)) * UNITS[m.group(2)]) - 1
            if m.group(4) == "warning" and not m.group(5).startswith("NUMERIC_STD") and 0 <= k < done:
                out[todo[k]["id"]]["warn"] = 1
        os.remove(fin)
        if os.path.exists(fout):
            os.remove(fout)
        if end and done == len(todo):
            break
        if done >= len(todo):
            break
        # the simulation stopped at request todo[done]
        out[todo[done]["id"]] = {"id": todo[done]["id"], "st": "hang" if hang else "refused", "warn": 0,
                                 "r": dict(NONE), "why": ("no progress" if hang else text[-200:])}
        todo = todo[done + 1:]
        if runs > reruns or hangs > 1:                # systematically broken: the rest is refused as well
            for q in todo:
                out[q["id"]] = {"id": q["id"], "st": "refused", "warn": 0, "r": dict(NONE), "why": "simulation stops"}
            break
    return out


def execute(plan, tag="vh", exe=None, **kw):
    """Executes requests (single elements); returns {id: outcome}."""
    exe = exe or calls_exe()
    n = CORES
    chunks = [plan[i::n] for i in range(n)]
    out = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for o in ex.map(lambda c: run_chunk(exe, c[1], f"{tag}{c[0]}", **kw), enumerate(chunks)):
            out.update(o)
    return out
