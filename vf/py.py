"""Executes requests on the repository's Python package in child processes."""
import json, os, concurrent.futures as cf
from .common import REPO, ROOT, PY, CORES, MachineryError, path, run_watched
NONE = {"kind": "none", "sh": [], "v": [], "F": 0, "rep": "", "x": [], "w": 0}


def run_chunk(plan, tag):
    out, todo, runs, hangs = {}, list(plan), 0, 0
    while todo:
        runs += 1
        fin, fout = path(f"{tag}.{runs}.plan"), path(f"{tag}.{runs}.out")
        with open(fin, "w") as f:
            for q in todo:
                f.write(json.dumps(q) + "\n")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
        err, hang = run_watched([PY, os.path.join(ROOT, "vf", "pyexec.py"), REPO, fin, fout], fout, env)
        hangs += hang
        n = 0
        for line in (open(fout) if os.path.exists(fout) else []):
            try:
                o = json.loads(line)
            except ValueError:
                break
            out[o["id"]] = o
            n += 1
        os.remove(fin)
        if os.path.exists(fout):
            os.remove(fout)
        if n >= len(todo):
            break
        if "Machinery" in err:
            raise MachineryError(err)
        out[todo[n]["id"]] = {"id": todo[n]["id"], "st": "hang" if hang else "crash", "warn": 0,
                              "r": dict(NONE), "why": "hang" if hang else err[-300:]}
        todo = todo[n + 1:]
        if runs > 20 or hangs > 1:
            for q in todo:
                out[q["id"]] = {"id": q["id"], "st": "skipped", "warn": 0, "r": dict(NONE), "why": "after crashes or hangs"}
            break
    return out


def execute(plan, tag="py"):
    n = CORES
    chunks = [plan[i::n] for i in range(n)]
    out = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for o in ex.map(lambda c: run_chunk(c[1], f"{tag}{c[0]}"), enumerate(chunks)):
            out.update(o)
    return out
