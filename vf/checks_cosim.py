"""The check of the co-simulation reference data (C23): the generators are run on a scratch copy and all they wrote is judged."""
import os
import re
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
from .checks import check, n
from .common import CORES, PY, REPO, MachineryError, path, scratch

OPS = ["addsub", "compare", "add", "sub", "mult", "from_real", "round", "abs", "neg", "shift", "saturate", "resize"]  # longest first
TWO = {"add", "sub", "mult", "addsub", "compare"}
COMPARISONS = ["eq", "neq", "less", "greater", "leq", "geq"]
NOBODY = 65534
LIMIT = 600


class Unreadable(Exception):
    pass


def generate(root, op, kw):
    """Runs one generator; returns None or what went wrong."""
    d = os.path.join(root, "cosim", f"cl_fix_{op}")
    log = os.path.join(root, f"{op}.log")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", HOME=root, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    with open(log, "w") as f:
        try:
            p = subprocess.run([PY, os.path.join(d, "cosim.py")], cwd=d, stdout=f, stderr=subprocess.STDOUT, env=env,
                               stdin=subprocess.DEVNULL, timeout=LIMIT, **kw)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"generator {op} did not end in {LIMIT} s")
    if p.returncode == 0:
        return None
    with open(log, errors="replace") as f:
        return f.read()[-600:]


def unprivileged(root):
    """The generators delete and create directories: where possible they run as a user who owns only this copy."""
    if os.geteuid() != 0:
        return {}
    kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []}
    try:
        os.chmod(scratch(), 0o711)
        for d, _, files in os.walk(root):
            for x in [d] + [os.path.join(d, f) for f in files]:
                os.chown(x, NOBODY, NOBODY)
        p = subprocess.run([PY, "-c", "import numpy"], cwd=root, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **kw)
        return kw if p.returncode == 0 else {}
    except (OSError, subprocess.SubprocessError):  # there may be no other user (user namespaces)
        return {}


def numbers(fn):
    """The integers of a data file, below its header line."""
    try:
        with open(fn) as f:
            head, _, rest = f.read().partition("\n")
        if not head.startswith("#"):
            raise Unreadable(f"{os.path.basename(fn)}: no header line")
        return list(map(int, rest.split()))
    except (OSError, ValueError) as x:
        raise Unreadable(f"{os.path.basename(fn)}: {x}")


def formats(fn):
    try:
        with open(fn) as f:
            lines = f.read().splitlines()
    except OSError as x:
        raise Unreadable(str(x))
    if not lines or not lines[0].startswith("#"):
        raise Unreadable(f"{os.path.basename(fn)}: no header line")
    out = []
    for t in lines[1:]:
        m = re.fullmatch(r"\s*\(\s*(-?\d+)\s*,\s*(-?\d+)\s*,\s*(-?\d+)\s*\)\s*", t)
        if not m:
            raise Unreadable(f"{os.path.basename(fn)}: {t[:60]!r}")
        out.append([int(x) for x in m.groups()])
    return out


def scenarios(root, op):
    """The parameters of all scenarios of a generator, in order."""
    d = os.path.join(root, "cosim", f"cl_fix_{op}", "data")
    col = {"a": formats(f"{d}/a_fmt.txt")}
    k = len(col["a"])
    for key, has, read, file in (("b", op in TWO, formats, "b_fmt"), ("r", op != "compare", formats, "r_fmt"),
                                 ("rnd", op not in ("compare", "from_real", "saturate"), numbers, "rnd"),
                                 ("sat", op not in ("compare", "round"), numbers, "sat"),
                                 ("sh", op == "shift", numbers, "shift")):
        col[key] = read(f"{d}/{file}.txt") if has else [[] if key in "br" else 0] * k
        if len(col[key]) != k:
            raise Unreadable(f"{file}.txt has {len(col[key])} entries, a_fmt.txt has {k}")
    return [dict(zip(col, t)) for t in zip(*col.values())]


def data(root, op, i):
    d = os.path.join(root, "cosim", f"cl_fix_{op}", "data")
    if op != "compare":
        return numbers(f"{d}/test{i}_output.txt")
    cols = [numbers(f"{d}/test{i}_{c}.txt") for c in COMPARISONS]
    if len({len(c) for c in cols}) != 1 or any(x not in (0, 1) for c in cols for x in c):
        raise Unreadable(f"test{i}: comparisons of different lengths, or not 0 or 1")
    return [sum(x << k for k, x in enumerate(t)) for t in zip(*cols)]


def events(root, op, share):
    """Trace lines of a generator: the list of its scenarios, and every share-th scenario with its data."""
    try:
        sc = scenarios(root, op)
    except Unreadable as x:
        return [{"line": "list", "op": op, "st": "unreadable", "why": str(x)}]
    out = [{"line": "list", "op": op, "st": "ok",
            "keys": [[q["a"], q["b"], q["r"], q["rnd"], q["sat"], q["sh"]] for q in sc]}]
    for i, q in enumerate(sc):
        try:
            e = {"line": "scenario", "op": op, "st": "ok", "i": i, **q}
            if (i * 7919 + len(op)) % share == 0:
                e["v"] = data(root, op, i)
                out.append(e)
        except Unreadable as x:
            out.append({"line": "scenario", "op": op, "st": "unreadable", "i": i, **q, "why": str(x)})
    return out


@check("C23")
def c23(c):
    c.model("MC_Cosim", f"SPECIFICATION Spec\nCONSTANTS\n  Lo = 1\n  Hi = {n(1, 2)}\n"
            "INVARIANTS OnceEach AllReached InFormat Packed\nCHECK_DEADLOCK FALSE\n",
            "the enumeration of a scenario reaches every combination of operand values once")
    root = os.path.join(scratch(), "bittrue")
    shutil.copytree(os.path.join(REPO, "bittrue"), root, ignore=shutil.ignore_patterns("data", "__pycache__", ".*"))
    kw = unprivileged(root)
    t = time.time()
    with ThreadPoolExecutor(CORES) as ex:
        wrong = dict(zip(OPS, ex.map(lambda op: generate(root, op, kw), OPS)))
    c.notes["generation_s"] = round(time.time() - t, 1)
    share = n(1, 1)
    total = 0
    for op in OPS:
        if wrong[op] is not None:
            c.trace("TraceCosim", [{"line": "list", "op": op, "st": "failed", "why": wrong[op]}], CLAIMS,
                    f"generator of {op}", small=True, name=f"TraceCosim_{op}")
            continue
        ev = events(root, op, share)
        k = sum(len(e.get("v", ())) for e in ev)
        total += k
        shutil.rmtree(os.path.join(root, "cosim", f"cl_fix_{op}", "data"))
        c.trace("TraceCosim", ev, CLAIMS, f"data of {op}", plains=[brief(e) for e in ev], elements=k, small=True,
                name=f"TraceCosim_{op}")
    c.notes["entries"] = total
    c.assumptions.append("the grid of scenarios is the one stated in the property; more scenarios are accepted and judged too")


CLAIMS = {"generator", "missing", "entries", "value"}


def brief(e):
    e = dict(e)
    if "keys" in e:
        e["keys"] = f"{len(e['keys'])} scenarios"
    if len(e.get("v", ())) > 40:
        e["v"] = e["v"][:40] + ["..."]
    return e
