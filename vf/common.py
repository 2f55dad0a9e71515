"""Shared machinery of the checks: scratch space, TLC, evidence, verdicts."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, atexit

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CORES = max(2, min(8, os.cpu_count() or 2))

_scratch = None

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf_")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch

def path(name):
    return os.path.join(scratch(), name)


class Overflow(Exception):
    """TLC's native integers do not suffice for a trace."""


class MachineryError(Exception):
    pass


def classpath():
    import glob
    return ":".join([os.path.join(TLA, "tla2tools.jar")] + sorted(glob.glob(os.path.join(TLA, "*.jar"))))


def tlc(module, cfg_text, env=None, workers=CORES, timeout=840, extra=(), heap="8g", name=None):
    """Runs TLC on a module of spec/ with the given configuration; returns (stdout, stats)."""
    name = name or module
    cfg = path(name + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    meta = tempfile.mkdtemp(dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-Djava.io.tmpdir=" + scratch(),
           "-cp", classpath(), "tlc2.TLC", "-config", cfg, "-metadir", meta,
           "-workers", str(workers), "-noGenerateSpecTE", *extra, os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise MachineryError(f"TLC timed out on {module} after {timeout} s")
    finally:
        shutil.rmtree(meta, True)
    out = p.stdout.decode("utf-8", "replace")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    stats = {"rc": p.returncode, "states": int(m.group(2)) if m else 0,
             "transitions": int(m.group(1)) if m else 0, "wall": round(time.time() - t, 1)}
    return out, stats


def model_check(module, cfg_text, **kw):
    """Model checking of the specification itself: must pass, independently of the code."""
    out, st = tlc(module, cfg_text, **kw)
    if st["rc"] != 0 or "No error has been found" not in out:
        raise MachineryError(f"model {module} fails:\n" + out[-6000:])
    return st


def trace_check(module, trace, claims, constants="", shards=None, spec="Spec", env=None, name=None, timeout=840,
                small=False):
    """Evaluates a recorded trace (list of dicts) with a Trace* module; returns (bad, stats)."""
    name = name or module
    fn = path(name + ".ndjson")
    with open(fn, "w") as f:
        for e in trace:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    shards = shards or max(1, min(4 * CORES, len(trace)))
    big = "" if small else "  LimbBits = 15\n"
    cfg = (f"SPECIFICATION {spec}\nCONSTANTS\n{big}  Shards = {shards}\n"
           f"  Claims = {{{', '.join(json.dumps(c) for c in sorted(claims))}}}\n{constants}\n"
           "POSTCONDITION AllConsumed\nCHECK_DEADLOCK FALSE\n")
    out, st = tlc(module, cfg, env={"TRACE": fn, **(env or {})}, name=name, timeout=timeout)
    if st["rc"] != 0 or "No error has been found" not in out:
        i = out.find("Error:")
        if small and "verflow" in out:
            raise Overflow(name)
        raise MachineryError(f"TLC failed on {name}:\n" + out[i:i + 3000] + "\n...\n" + out[-2000:])
    bad = []
    # TLC may wrap long printed tuples over several lines
    for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*\{([^}]*)\}(.*?)>>', out, re.S):
        clauses = re.findall(r'"([^"]+)"', m.group(2))
        bad.append((int(m.group(1)) - 1, clauses))
    if len(bad) != out.count('"BAD"'):
        raise MachineryError("cannot parse TLC's report:\n" + out[-6000:])
    os.remove(fn)
    return sorted(set((i, tuple(c)) for i, c in bad)), st


class Check:
    """Collects what one check covered and what it found."""
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.states = self.transitions = self.validated = 0
        self.models, self.samples, self.notes, self.violations, self.known = [], [], {}, [], []
        self.assumptions = []

    def model(self, module, cfg, what, **kw):
        st = model_check(module, cfg, **kw)
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.models.append({"model": kw.get("name") or module, "what": what, "states": st["states"],
                            "transitions": st["transitions"], "wall_s": st["wall"]})

    def trace(self, module, trace, claims, what, plains=None, elements=None, **kw):
        """trace: events for a Trace* module; plains: the same in readable form."""
        if not trace:
            raise MachineryError(f"empty trace: {what}")
        bad, st = trace_check(module, trace, claims, **kw)
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.validated += len(trace)
        self.models.append({"model": kw.get("name") or module, "what": what, "events": len(trace),
                            "elements": elements if elements is not None else len(trace), "states": st["states"],
                            "wall_s": st["wall"], "rejected": len(bad)})
        plains = plains or trace
        s = json.dumps(plains[len(plains) // 2])
        self.samples.append(s if len(s) < 900 else s[:900] + "...")
        for i, clauses in bad:
            self.violate(plains[i], list(clauses), what)
        return bad

    def calls(self, rec, claims, what, small=True):
        """Verdicts of spec/Verdicts.tla on recorded calls [(request, outcome)]."""
        from . import drive
        s, b = drive.split(rec, small)
        for part, sm in ((s, True), (b, False)):
            if part:
                self.either("TraceCalls", lambda sm: [drive.event(q, o, sm) for q, o in part], sm, claims,
                            what + (" (native integers)" if sm else ""),
                            plains=[drive.plain(q, o) for q, o in part],
                            elements=sum(max(1, len(o["r"]["v"])) for q, o in part))

    def either(self, module, events, small, claims, what, **kw):
        """A trace over native integers if small, and over BigInt otherwise or when native integers overflow."""
        if small:
            try:
                return self.trace(module + "Small", events(True), claims, what, small=True,
                                  name=f"{module}Small_{len(self.models)}", **kw)
            except Overflow as x:
                self.notes["overflows"] = self.notes.get("overflows", 0) + 1
        return self.trace(module, events(False), claims, what, small=False, name=f"{module}_{len(self.models)}", **kw)

    def violate(self, event, clauses, what):
        self.violations.append({"clauses": clauses, "what": what, "event": event})

    def finish(self):
        known = load_known(self.pid)
        fresh, seen = [], set()
        for v in self.violations:
            k = next((k for k in known if matches(k, v)), None)
            if k is None:
                fresh.append(v)
            elif k["what"] not in seen:
                seen.add(k["what"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "samples": self.samples[:6], "runs": self.models, **self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(fresh)}
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not fresh:
            print(f"OK property={self.pid} states={self.states} traces={self.validated} wall={ev['wall_s']}s")
            return 0
        rd = os.path.join(os.environ.get("VF_REPLAY_DIR", os.path.join(ROOT, "evidence", "replay")))
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{self.pid}.json")
        with open(rp, "w") as f:
            json.dump({"property": self.pid, "seed": SEED, "violations": fresh[:50], "total": len(fresh)}, f, indent=1)
        for v in fresh[:5]:
            print("  violated:", ",".join(v["clauses"]), "|", v["what"], "|", json.dumps(v["event"])[:600])
        print(f"VIOLATION property={self.pid} replay={rp}")
        return 1


def load_known(pid):
    fn = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def matches(k, v):
    """A known finding names the fields of the event (a sub-record) and the clauses that fail."""
    return set(v["clauses"]) <= set(k["clauses"]) and all(v["event"].get(f) == x for f, x in k["match"].items())


def cpu(pid):
    """CPU seconds used by a child and its ended children."""
    try:
        with open(f"/proc/{pid}/stat") as f:
            return sum(map(int, f.read().rsplit(")", 1)[1].split()[11:15])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError, IndexError):
        return 0.0


def run_watched(cmd, fout, env, stall=25, wall=120, limit=4 << 30):
    """Runs a child that appends to fout; it is ended when it makes no progress for `stall` seconds of its CPU time (the
    machine may be busy) or `wall` seconds. Returns its messages and whether it had to be ended."""
    def quota():
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    with tempfile.TemporaryFile() as log:
        p = subprocess.Popen(cmd, env=env, cwd=scratch(), stdout=log, stderr=subprocess.STDOUT, preexec_fn=quota)
        size, t, u, hang = -1, time.time(), 0.0, False
        while True:
            try:
                p.wait(0.05 if size < 0 else 1)
                break
            except subprocess.TimeoutExpired:
                n = os.path.getsize(fout) if os.path.exists(fout) else 0
                if n != size:
                    size, t, u = n, time.time(), cpu(p.pid)
                elif cpu(p.pid) - u > stall or time.time() - t > wall:
                    p.kill()
                    p.wait()
                    hang = True
                    break
        log.seek(0)
        return log.read().decode("utf-8", "replace"), hang
