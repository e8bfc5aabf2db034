"""One function per property: explore, execute, validate, judge."""
import copy
import hashlib
import json
import os
import shutil

import gen
import plans
import resize
import small
import vlib
from vlib import CheckError, THOROUGH, log, rng


# ---------------------------------------------------------------------------
# Small models: model checking and transition cover.
def rune_table(cps_, tag):
    """Tables for the code points of a model, for every terminal setting."""
    jf = [{"id": "r", "s": sorted(cps_), "cfg": {"env": e}} for e in vlib.ENVVARS]
    res = vlib.run_jobs("runes", jf, tag)
    return vlib.merge(res, tag)[1]


def all_ints(x, acc):
    if isinstance(x, bool):
        return
    if isinstance(x, int):
        if x >= 0:
            acc.add(x)
    elif isinstance(x, dict):
        for v in x.values():
            all_ints(v, acc)
    elif isinstance(x, (list, tuple)):
        for v in x:
            all_ints(v, acc)


# What the specification itself is checked for, per property (MC.cfg has all).
INVS = {
    "C01": ("CursorInLine", "Frame"), "C02": ("UndoIsPast", "CursorInLine", "Undoes"), "C03": ("InHistory", "ThereAndBack", "Container"),
    "C04": ("FoundMatches", "Searches"), "C05": ("RowFits",), "C06": ("RowHarmless",), "C07": ("WidthsAgree",), "C08": ("Ends",),
    "C12": ("Completes",), "C14": ("PredictionIsRest", "Predicts"), "C15": ("FeedIsLine",), "C16": ("Clips",),
    "C17": ("CursorInLine", "InHistory"), "C18": ("Sequences", "ColumnIsCount", "Ends", "Room"), "C20": ("Starts", "UndoIsPast"),
    "C22": ("CursorInLine", "UndoIsPast", "CallsDo"),
}
STEPS = {"Frame", "Undoes", "Container", "Searches", "Ends", "Completes", "Predicts", "Clips", "Starts", "CallsDo"}


def mc_cfg(pid):
    path = os.path.join(vlib.scratch(), "MC-%s.cfg" % pid)
    with open(path, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        f.write("ACTION_CONSTRAINT EmitPrompt\n" if pid == "C18" else "VIEW View\nACTION_CONSTRAINT EmitPath\n")
        for i in INVS[pid]:
            f.write(("PROPERTY " if i in STEPS and pid != "C18" else "INVARIANT ") + i + "\n")
    return path


def explore(run, models, module="MC"):
    """Model check each model; returns the jobs of their transition covers."""
    if not models:
        return []
    acc = set()
    for m in models:
        all_ints([m["items"], m["mc"]["cfg"]["hist"], m["mc"]["cfg"]["clip"], m["mc"]["cfg"]["prompt"], m["mc"]["cfg"]["comp"]], acc)
    table = rune_table({c for c in acc if c < 0x110000}, run.pid + "-mc")
    jobs = []

    def one(m):
        tag = "%s-%s" % (run.pid, m["name"])
        cf = os.path.join(vlib.scratch(), tag + ".mc")
        with open(cf, "w") as f:
            f.write(json.dumps(m["mc"]) + "\n")
        r = vlib.tlc(module, mc_cfg(run.pid), {"MCCFG": cf, "RUNES": table}, workers=1, heap="3g", tag=tag)
        paths = set()
        for line in r.out.splitlines():
            if line.startswith('"PATH '):
                paths.add(tuple(json.loads(json.loads(line)[5:])))
        return m, r, paths

    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        results = list(ex.map(one, models))
    for m, r, paths in results:
        if not paths:
            raise CheckError("model %s yields no transition" % m["name"])
        # a path that is a prefix of another one adds nothing
        pre = {p[:n] for p in paths for n in range(1, len(p))}
        leaves = sorted(p for p in paths if p not in pre)
        cap = 8000 if THOROUGH else m["cap"] or 1200
        if len(leaves) > cap:
            chosen = rng(run.pid, m["name"]).sample(leaves, cap)
        else:
            chosen = leaves
        run.add_model(m["name"], r, paths=len(leaves), paths_executed=len(chosen))
        for n, p in enumerate(chosen):
            sc = [copy.deepcopy(m["items"][i - 1]) for i in p]
            jobs.append({"id": "%s/%d" % (m["name"], n), "cfg": m["mc"]["cfg"], "script": sc})
    return jobs


# ---------------------------------------------------------------------------
# Corrupted traces that must be rejected (the comparison is not vacuous).
def is_key(e, *seqs):
    return e["k"] == "key" and not e["end"] and (not seqs or e["s"] in [list(s) for s in seqs])


def plain_key(e):
    return e["k"] == "key" and not e["end"] and len(e["s"]) == 1 and 97 <= e["s"][0] <= 99


def _addstr(e):
    e["str"] = e["str"] + [113]
    e["cells"] = e["cells"] + [[113]]


def _row(e):
    e["row"] = e["row"] + [[113]]


def _set(**kw):
    def f(e):
        e.update(copy.deepcopy(kw))
    return f


def _panic(e):
    e["k"], e["fail"] = "panic", "key"


def _attrs(e):
    e["attrs"] = ["99/99"] * len(e["attrs"])
    e["tail"] = ["7/"]


CORRUPT = {
    "C01": (plain_key, _addstr),
    "C02": (lambda e: is_key(e, [31], [26]), _addstr),
    "C03": (lambda e: is_key(e, [16], [14]), _addstr),
    "C04": (lambda e: is_key(e, [18]), _row),
    "C05": (plain_key, _row),
    "C06": (plain_key, _set(ops=["C1:155"])),
    "C07": (plain_key, lambda e: e.update(cells=e["cells"] + [[113]])),
    "C08": (lambda e: e["end"], _set(close=0, vis=False)),
    "C09": (lambda e: e["k"] == "resize", _row),
    "C12": (lambda e: is_key(e, [9]), _addstr),
    "C14": (lambda e: is_key(e, [6], [27, 91, 67]), _addstr),
    "C15": (lambda e: is_key(e) and e["attrs"], _attrs),
    "C16": (lambda e: is_key(e, [11], [21], [23]), lambda e: e.update(clip=e["clip"] + [113])),
    "C17": (is_key, _panic),
    "C18": (lambda e: e["k"] == "start" and not e["end"], lambda e: e.update(col=e["col"] + 1)),
    "C20": (lambda e: e["k"] == "start" and not e["end"], _addstr),
    "C22": (lambda e: e["k"] == "call" and e["rets"], lambda e: e["rets"][-1]["t"].append(113)),
}


def corruptions(pid, tpath, n=6):
    """Copies of recorded traces with one event changed."""
    pred, mut = CORRUPT[pid]
    out = []
    with open(tpath) as f:
        for line in f:
            t = json.loads(line)
            hits = [i for i, e in enumerate(t["ev"]) if pred(e)]
            if not hits or len(t["ev"]) > 60:
                continue
            i = hits[len(hits) // 2]
            t["ev"] = t["ev"][:i + 1]
            t["id"] = "corrupt-%d" % len(out)
            mut(t["ev"][i])
            out.append(t)
            if len(out) >= n:
                break
    return out


# ---------------------------------------------------------------------------
def key_histogram(tpath):
    h, ends = {}, {}
    with open(tpath) as f:
        for line in f:
            for e in json.loads(line)["ev"]:
                if e["k"] == "key":
                    s = e["s"]
                    n = "char" if len(s) == 1 and s[0] >= 32 and s[0] != 127 else "-".join(map(str, s[:6]))
                    if len(s) > 1 and s[0] != 27:
                        n = "text"
                else:
                    n = e["k"]
                h[n] = h.get(n, 0) + 1
                if e["end"]:
                    ends[e["err"]] = ends.get(e["err"], 0) + 1
    return h, ends


def job_key(job):
    return hashlib.sha1(json.dumps([job["cfg"], job["script"]], sort_keys=True).encode()).hexdigest()[:16]


def judge_edit(run, jobs, tag=None, mode="edit", module="Trace", tags=""):
    """Execute jobs on the real code, validate with TLC, register violations."""
    tag = tag or run.pid
    for n, j in enumerate(jobs):
        j["id"] = "%d:%s" % (n, j["id"])
    byid = {j["id"]: j for j in jobs}
    results = vlib.run_jobs(mode, jobs, tag, binary=vlib.build(tags))
    tpath, rpath, n = vlib.merge(results, tag)
    ntr, nev = vlib.count_events(tpath)
    hung = [o for _, outs, _ in results for o in outs if len(outs) > 1]
    if ntr < len(jobs) and not hung:
        raise CheckError("%d jobs but %d traces" % (len(jobs), ntr))
    cor = corruptions(run.pid, tpath)
    h, ends = key_histogram(tpath)
    with open(tpath, "a") as f:
        for t in cor:
            f.write(json.dumps(t) + "\n")
    r, bad = vlib.validate(module, tpath, rpath, [run.pid], tag)
    want = nev + ntr + sum(len(t["ev"]) for t in cor) + len(cor)
    if r.distinct != want:
        raise CheckError("TLC saw %d states, %d expected" % (r.distinct, want))
    rejected = {b["id"] for b in bad if b["id"].startswith("corrupt-")}
    # (a run in which every trace is broken may leave nothing to corrupt: that is judged, not refused)
    if len(rejected) < max(1, len(cor) // 2) and len(rejected) == len({b["id"] for b in bad}):
        raise CheckError("corrupted traces were accepted (%d of %d rejected)" % (len(rejected), len(cor)))
    run.traces += ntr
    run.extra.setdefault("events_validated", 0)
    run.extra["events_validated"] += nev
    run.extra["corrupted_traces_rejected"] = run.extra.get("corrupted_traces_rejected", 0) + len(rejected)
    run.extra.setdefault("events_by_key", {})
    for k_, v in h.items():
        run.extra["events_by_key"][k_] = run.extra["events_by_key"].get(k_, 0) + v
    run.extra.setdefault("reads_ended", {})
    for k_, v in ends.items():
        run.extra["reads_ended"][k_] = run.extra["reads_ended"].get(k_, 0) + v
    sample(run, tpath)
    first = {}
    for b in bad:
        if b["id"].startswith("corrupt-"):
            continue
        if b["id"] not in first or b["ev"] < first[b["id"]]["ev"]:
            first[b["id"]] = b
    report(run, first, byid, tpath, mode, module, tags)


def sample(run, tpath):
    with open(tpath) as f:
        for n, line in enumerate(f):
            if n % 97 == 5 and len(run.samples) < 4:
                t = json.loads(line)
                run.samples.append({"trace": t["id"], "cfg": {k_: v for k_, v in t["cfg"].items() if v not in ([], "", False, "none", "off")},
                                    "events": [[e["k"], e["s"], e["str"], e["cur"]] for e in t["ev"][:12]]})


def report(run, first, byid, tpath, mode, module, tags):
    if not first:
        return
    evs = {}
    with open(tpath) as f:
        for line in f:
            t = json.loads(line)
            if t["id"] in first:
                evs[t["id"]] = t["ev"][first[t["id"]]["ev"] - 1]
    hangs = 0        # one that is confirmed is enough
    order = sorted(first.values(), key=lambda b: (len(byid[b["id"]]["script"]), b["id"]))
    for b in order[:40]:
        job = byid[b["id"]]
        e = evs[b["id"]]
        what = "%s at event %d (%s %s): %s" % (b["id"], b["ev"], e["k"], e["s"], sorted(x[1] for x in b["hit"]))
        if e.get("msg"):
            what += " " + e["msg"][:200]
        if e["k"] == "hang":
            if hangs:
                continue
            if not confirm_hang(run, job, mode, tags):
                raise CheckError("a hang was not reproduced: " + what)
            hangs += 1
        run.violation(job_key(job), what, {"mode": mode, "module": module, "tags": tags, "job": job, "event": b["ev"],
                                           "hit": b["hit"], "observed": {k_: e[k_] for k_ in
                                                                         ("k", "s", "str", "cur", "vs", "row", "col", "msg", "err", "res", "clip") if k_ in e}})


def confirm_hang(run, job, mode, tags):
    j = copy.deepcopy(job)
    res = vlib.run_jobs(mode, [j], run.pid + "-confirm-" + hashlib.sha1(job["id"].encode()).hexdigest()[:6], binary=vlib.build(tags))
    tp = vlib.merge(res, run.pid + "-confirm")[0]
    with open(tp) as f:
        return any(e["k"] == "hang" for line in f for e in json.loads(line)["ev"])


def edit_check(run):
    r = rng(run.pid)
    ms, js = plans.PLANS[run.pid](r, THOROUGH)
    vlib.build()
    jobs = explore(run, ms) + js
    # big runs go in portions, to bound TLC's memory
    step = 6000
    for n in range(0, len(jobs), step):
        judge_edit(run, jobs[n:n + step], tag="%s-%d" % (run.pid, n))


def text_check(run):
    """C07: the functions on characters, then the characters in the editor."""
    small.text_check(run, lambda c: rune_table(set(c), "%s-%d" % (run.pid, c[1])), list(gen.ALPHA.values()),
                     list(plans.class_strings(4 if THOROUGH else 3)) + plans.point_strings(rng(run.pid, "points"), THOROUGH))
    edit_check(run)


def reads_check(run):
    """C20: the program and its editor, then series of reads."""
    small.session_check(run, lambda c: rune_table(c, run.pid + "-session-mc"))
    edit_check(run)


def prompt_check(run):
    """C18: all prompts of a few pieces (explored by TLC), then what edit_check does."""
    r = rng(run.pid)
    _, jobs = plans.PLANS[run.pid](r, THOROUGH)
    vlib.build()
    acc = set()
    all_ints(plans.PIECES, acc)
    table = rune_table(acc, run.pid + "-mc")
    for env in gen.ENVS if THOROUGH else ["wt", "plain"]:
        cf = os.path.join(vlib.scratch(), "prompt-%s.mc" % env)
        with open(cf, "w") as f:
            f.write(json.dumps({"cfg": gen.base_cfg(env=env), "pieces": plans.PIECES, "max": 4 if THOROUGH and env == "wt" else 3}) + "\n")
        t = vlib.tlc("Prompt", mc_cfg(run.pid), {"MCCFG": cf, "RUNES": table}, workers=4, heap="3g", tag="prompt-" + env)
        ps = sorted({tuple(json.loads(json.loads(line)[5:])) for line in t.out.splitlines() if line.startswith('"PATH ')})
        if len(ps) < 1000:
            raise CheckError("only %d prompts" % len(ps))
        text = lambda p: sum([plans.PIECES[i - 1] for i in p], [])
        chosen = r.sample([p for p in ps if not plans.tab_over(text(p), (13,))], (10000 if env == "wt" else 4000) if THOROUGH else 700)
        run.add_model("prompts-" + env, t, paths=len(ps), paths_executed=len(chosen))
        jobs += [plans.prompt_job(r, n, text(p), env) for n, p in enumerate(chosen)]
    for n in range(0, len(jobs), 6000):
        judge_edit(run, jobs[n:n + 6000], tag="%s-%d" % (run.pid, n))


CHECKS = {pid: edit_check for pid in plans.PLANS}
CHECKS["C07"] = text_check
CHECKS["C20"] = reads_check
CHECKS["C18"] = prompt_check
CHECKS["C09"] = lambda run: resize.resize_check(run, judge_edit)
CHECKS.update(small.SMALL)


def _small(spec, what, trusted="the scripted environment of the harness, TLC"):
    return ("TLC model checking of %s + replay of its behaviours and TLC validation of recorded calls of the real code" % spec,
            "TLC explores %s with small constants and checks the property's invariants on it; the explored behaviours (sampled above a cap) and seeded "
            "random ones are executed on the real code through its public API, and every recorded %s is judged by TLC. Trusted: %s." % (spec, what, trusted))


TECH = {"C07": ("TLC model checking of Text.tla and Editor.tla + replay of their behaviours and TLC validation of recorded calls and key strokes",
                "TLC explores all short texts over characters of every class with calls that change the settings (Text.tla), and all short ways to type and "
                "edit them (Editor.tla); the behaviours, all short strings over the classes and random texts are executed on the real code with both width "
                "libraries, and every split, width, count, display and edited line is judged by TLC. Trusted: the width tables, the terminal model, TLC."),
        "C09": ("TLC model checking of Resize.tla (editor, terminal watcher and lock) + replay of its schedules on the real editor, TLC validation of "
                "the recorded events against Editor.tla and Screen.tla, and the race detector",
                "TLC explores all interleavings of a read of a few commands with two notifications (safety, liveness, and refutation of six faulty "
                "disciplines); the schedules are executed on the real editor with the notification sent from another goroutine at the phase in question, "
                "and every event is judged by TLC; random walks with notifications run under Go's race detector. Trusted: TLC, the race detector, the "
                "terminal model of the harness; a race is seen only in code that the walks execute."),
        "C10": _small("KeyDecode.tla (all streams of units, burst boundaries and errors up to a length)", "call of GetKey, GetRawKey and GetKeys"),
        "C11": _small("Bind.tla (all sequences of bind and unbind operations on two editors and the global map)", "operation, lookup and key press"),
        "C13": _small("FileList.tla (all trees of a pool of entries, all of a list of words)", "listing of a real directory tree", "the file system, the Unicode case table, TLC"),
        "C19": _small("TtySession.tla (all splittings of short byte streams into arrivals and reads)", "arrival, line read, resize and hangup of a child process on a pseudo terminal", "the kernel's pseudo terminal, TLC"),
        "C20": ("TLC model checking of Session.tla and Editor.tla + replay of their behaviours and TLC validation of recorded programs and key strokes",
                "TLC explores all short programs that set fields of an editor, let it fill in the others and read from the scripted terminal "
                "(Session.tla), and all short series of reads (Editor.tla); the behaviours and random ones are executed on the real code and every "
                "field, result and line is judged by TLC. Trusted: the terminal model of the harness, TLC."),
        "C22": ("TLC model checking of Calls.tla over Editor.tla + transition-cover replay and TLC trace validation of commands of a program",
                "TLC explores the editor specification extended with commands that call the buffer's functions and checks the property's invariants; every "
                "explored transition (sampled above a cap) and random walks mixing keys and calls are executed on the real code, and every answer, line and "
                "screen is judged by TLC. Trusted: the terminal model and the width tables of the harness, TLC."),
        "C21": _small("Color.tla (all ways to build sequences of a few parameters)", "sequence written")}
