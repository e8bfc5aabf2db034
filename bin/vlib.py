"""Shared machinery of the checks: build the harness, run it, run TLC."""
import atexit
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(BASE, "spec")
HARNESS = os.path.join(BASE, "harness")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

ENVVARS = {
    "wt": {"WT_SESSION": "1", "WT_PROFILE_ID": "1"},
    "wez": {"TERM_PROGRAM": "WezTerm"},
    "contour": {"TERMINAL_NAME": "contour"},
    "plain": {},
    "vscode": {"WT_SESSION": "1", "WT_PROFILE_ID": "1", "VSCODE_PID": "1"},
    "halfwt": {"WT_SESSION": "1"},
}


class CheckError(Exception):
    """The check itself could not do its work (never a violation)."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-check-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv(extra=None):
    env = dict(os.environ)
    for k in ("WT_SESSION", "WT_PROFILE_ID", "TERM_PROGRAM", "TERMINAL_NAME", "VSCODE_PID"):
        env.pop(k, None)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
    env.setdefault("HOME", "/root")
    if extra:
        env.update(extra)
    return env


_built = {}


def build(tags="", race=False):
    """Build the harness against /repo's working tree; returns the binary."""
    key = (tags, race)
    if key in _built:
        return _built[key]
    out = os.path.join(scratch(), "harness-%s%s" % (tags or "std", "-race" if race else ""))
    cmd = ["go", "build", "-o", out]
    if tags:
        cmd += ["-tags", tags]
    if race:
        cmd += ["-race"]
    t0 = time.time()
    p = subprocess.run(cmd + ["."], cwd=HARNESS, env=goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("the harness does not build:\n" + p.stderr)
    log("built %s in %.1fs" % (os.path.basename(out), time.time() - t0))
    _built[key] = out
    return out


def _run_one(binary, mode, env, jobs, tag, timeout):
    """Run one harness process over jobs (list of dict); returns (trace files, rune files)."""
    base = os.path.join(scratch(), tag)
    jf = base + ".jobs"
    with open(jf, "w") as f:
        for j in jobs:
            f.write(json.dumps(j, separators=(",", ":")) + "\n")
    skip, part, outs, runes = 0, 0, [], []
    while True:
        of = "%s.%d.out" % (base, part)
        try:
            p = subprocess.run([binary, "-mode", mode, "-env", env, "-in", jf, "-out", of, "-skip", str(skip)],
                               env=goenv(ENVVARS[env]), capture_output=True, text=True, timeout=timeout,
                               cwd=scratch())
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out (%s)" % tag)
        outs.append(of)
        runes.append(of + ".runes")
        if p.returncode == 0:
            break
        m = re.search(r"^HANG (\d+)", p.stdout, re.M)
        if p.returncode == 3 and m:
            skip, part = int(m.group(1)), part + 1
            if part > 2:
                break
            continue
        raise CheckError("harness failed (%d) on %s: %s" % (p.returncode, tag, p.stderr[-2000:]))
    return outs, runes


def run_jobs(mode, jobs, tag, binary=None, procs=8, timeout=600):
    """Run jobs (each with cfg.env) on the real code. Returns list of (env, outs, runes)."""
    binary = binary or build()
    byenv = {}
    for j in jobs:
        byenv.setdefault((j["cfg"]["env"], j["cfg"].get("zw", "")), []).append(j)     # the second cannot be undone
    total = max(1, len(jobs))
    tasks = []
    for (env, zw), js in sorted(byenv.items()):
        n = max(1, min(procs, round(procs * len(js) / total), len(js)))
        for k in range(n):
            tasks.append((env, js[k::n], "%s-%s%s-%d" % (tag, env, zw, k)))
    res = []
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        futs = [(env, ex.submit(_run_one, binary, mode, env, js, tg, timeout)) for env, js, tg in tasks]
        for env, f in futs:
            o, r = f.result()
            res.append((env, o, r))
    return res


def merge(results, tag):
    """Concatenate trace files and merge rune tables; returns (traces path, runes path, n traces, n events)."""
    tpath = os.path.join(scratch(), tag + ".traces")
    rpath = os.path.join(scratch(), tag + ".runes")
    runes, n = {}, 0
    with open(tpath, "w") as out:
        for env, outs, rfs in results:
            for o in outs:
                with open(o) as f:
                    for line in f:
                        out.write(line)
                        n += 1
            for r in rfs:
                with open(r) as f:
                    d = json.loads(f.readline())
                e = runes.setdefault(d["env"]["name"], (d["env"], {}))
                for ri in d["runes"]:
                    e[1][ri["cp"]] = ri
    with open(rpath, "w") as f:
        for env, m in runes.values():
            f.write(json.dumps({"env": env, "runes": [m[c] for c in sorted(m)]}) + "\n")
    return tpath, rpath, n


class TlcResult:
    def __init__(self, out):
        self.out = out
        m2 = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m2[-1]) if m2 else (0, 0)
        d = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(d[-1]) if d else 0


def tlc(module, cfg, env=None, workers=8, heap="6g", timeout=800, extra=(), tag=None, ok=(0,)):
    """Run TLC; raises CheckError unless it ends with one of the codes in ok."""
    tag = tag or module
    meta = os.path.join(scratch(), "tlc-" + tag)
    os.makedirs(meta, exist_ok=True)
    e = {k: os.environ[k] for k in ("PATH", "HOME", "LANG") if k in os.environ}   # TLC prints its environment on errors
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg]
    cmd += list(extra) + [module]
    of = os.path.join(meta, "out.txt")
    t0 = time.time()
    with open(of, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % tag)
    with open(of, errors="replace") as f:
        out = f.read()
    shutil.rmtree(os.path.join(meta, "states"), ignore_errors=True)
    if p.returncode not in ok:
        lines = [l for l in out.splitlines() if not l.startswith('"BAD')]
        raise CheckError("TLC failed (%d) on %s:\n%s" % (p.returncode, tag, "\n".join(lines[-40:])))
    log("TLC on %s: %.1fs" % (tag, time.time() - t0))
    r = TlcResult(out)
    r.code = p.returncode
    return r


def bad_lines(out):
    """The disagreements a trace specification printed."""
    for line in out.splitlines():
        if line.startswith('"BAD '):
            yield json.loads(json.loads(line)[4:])


def validate(module, tpath, rpath, focus, tag, timeout=800, workers=8, heap="8g", events=None):
    """Validate recorded traces; returns (TlcResult, list of disagreements)."""
    fpath = os.path.join(scratch(), tag + ".focus")
    with open(fpath, "w") as f:
        for p in focus:
            f.write(json.dumps({"id": p}) + "\n")
    r = tlc(module, module + ".cfg", {"TRACES": tpath, "RUNES": rpath, "FOCUS": fpath},
            timeout=timeout, workers=workers, heap=heap, tag=tag)
    bad = list(bad_lines(r.out))
    return r, bad


def count_events(tpath):
    n = ev = 0
    with open(tpath) as f:
        for line in f:
            n += 1
            ev += len(json.loads(line)["ev"])
    return n, ev


def rng(*salt):
    return random.Random("%d/%s" % (SEED, "/".join(map(str, salt))))


# ---------------------------------------------------------------------------
# A run of a check: what it covered, what it found.
EVIDENCE = os.path.join(BASE, "evidence")
FINDINGS = os.path.join(BASE, "known-findings.txt")


def known_findings():
    """Lines `known: property=<id> input=<key> <what fails>` of known-findings.txt."""
    out = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) input=(\S+) (.*)", line)
                if m:
                    out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


class Run:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.models = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.assumptions = []
        self.known = known_findings()
        self.seen_known = set()

    def add_model(self, name, res, **kw):
        self.models.append(dict(model=name, states=res.distinct, transitions=res.generated, depth=res.depth, **kw))
        self.states += res.distinct
        self.transitions += res.generated

    def violation(self, key, what, replay):
        """Register a broken case; replay is a JSON-able object."""
        if (self.pid, key) in self.known:
            if key not in self.seen_known:
                self.seen_known.add(key)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[(self.pid, key)]), flush=True)
            return
        self.violations.append((key, what, replay))

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:4], "models": self.models}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.violations:
            print("OK property=%s %d states %d traces %.1fs" % (self.pid, self.states, self.traces, wall))
            return 0
        for n, (key, what, replay) in enumerate(self.violations[:5]):
            path = os.path.join(EVIDENCE, "replay-%s-%d.json" % (self.pid, n))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "what": what, "case": replay}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            log("  %s" % what)
        return 1
