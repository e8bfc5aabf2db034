"""Checks of the properties with a specification of their own (not the editor's)."""
import copy
import hashlib
import json
import os

import gen
import vlib
from vlib import CheckError, THOROUGH, log, rng


def explore(run, module, mc, tag, workers=4, cfg=None, runes=None):
    """Model check a small specification; returns the paths it printed."""
    cf = os.path.join(vlib.scratch(), tag + ".mc")
    with open(cf, "w") as f:
        f.write(json.dumps(mc) + "\n")
    r = vlib.tlc(module, cfg or module + ".cfg", dict({"MCCFG": cf}, **({"RUNES": runes} if runes else {})), workers=workers, heap="4g", tag=tag)
    paths = {tuple(json.loads(json.loads(line)[5:])) for line in r.out.splitlines() if line.startswith('"PATH ')}
    if not paths:
        raise CheckError("model %s yields no behaviour" % tag)
    return r, paths


def leaves(paths):
    """A path that is a prefix of another one adds nothing."""
    pre = {p[:n] for p in paths for n in range(1, len(p))}
    return sorted(p for p in paths if p not in pre)


def pick(run, name, r, paths, cap):
    chosen = rng(run.pid, name).sample(paths, cap) if len(paths) > cap else list(paths)
    run.add_model(name, r, paths=len(paths), paths_executed=len(chosen))
    return chosen


def job_key(job):
    return job.get("key") or hashlib.sha1(json.dumps({k: v for k, v in job.items() if k != "id"}, sort_keys=True).encode()).hexdigest()[:16]


def judge(run, jobs, mode, module, corrupt, tag=None, tags="", hist=None, race=False, env=None, timeout=600, procs=8, confirm=0):
    """Execute jobs on the real code, validate the logs with TLC, register violations.

    corrupt(event, n) changes an event into one that must be rejected, or returns False."""
    tag = tag or run.pid
    for n, j in enumerate(jobs):
        j["id"] = "%d:%s" % (n, j["id"])
        j.setdefault("cfg", {}).setdefault("env", "plain")
    byid = {j["id"]: j for j in jobs}
    results = vlib.run_jobs(mode, jobs, tag, binary=vlib.build(tags, race), timeout=timeout, procs=procs)
    tpath, rpath, ntr = vlib.merge(results, tag)
    hung = any(len(outs) > 1 for _, outs, _ in results)
    if ntr < len(jobs) and not hung:
        raise CheckError("%d jobs but %d logs" % (len(jobs), ntr))
    cor, nev, counts = [], 0, {}
    with open(tpath) as f:
        for line in f:
            t = json.loads(line)
            nev += len(t["ev"])
            for e in t["ev"]:
                if e["fail"]:
                    counts[e["fail"]] = counts.get(e["fail"], 0) + 1
                elif hist:
                    for k in hist(e):
                        counts[k] = counts.get(k, 0) + 1
            if len(cor) < 8 and t["ev"] and not any(e["fail"] for e in t["ev"]) and ntr > 8 * len(cor):
                for n in range(len(t["ev"]) - 1, -1, -1):
                    c = copy.deepcopy(t)
                    if corrupt(c["ev"][n], n) is not False:
                        c["id"] = "corrupt-%d" % len(cor)
                        c["ev"] = c["ev"][:n + 1]
                        cor.append(c)
                        break
            if len(run.samples) < 4 and nev % 7 == 3:
                run.samples.append({"trace": t["id"], "events": t["ev"][:4]})
    with open(tpath, "a") as f:
        for t in cor:
            f.write(json.dumps(t) + "\n")
    r = vlib.tlc(module, module + ".cfg", {"TRACES": tpath, "RUNES": rpath}, workers=8, heap="8g", tag=tag)
    bad = list(vlib.bad_lines(r.out))
    want = nev + ntr + sum(len(t["ev"]) for t in cor) + len(cor)
    if r.distinct != want:
        raise CheckError("TLC saw %d states, %d expected" % (r.distinct, want))
    rejected = {b["id"] for b in bad if b["id"].startswith("corrupt-")}
    if len(rejected) < max(1, len(cor)) and len(rejected) == len({b["id"] for b in bad}):
        raise CheckError("corrupted logs were accepted (%d of %d rejected)" % (len(rejected), len(cor)))
    run.traces += ntr
    for k, v in (("events_validated", nev), ("corrupted_traces_rejected", len(rejected))):
        run.extra[k] = run.extra.get(k, 0) + v
    for k, v in counts.items():
        h = run.extra.setdefault("events_by_kind", {})
        h[k] = h.get(k, 0) + v
    first = {}
    for b in bad:
        if not b["id"].startswith("corrupt-") and (b["id"] not in first or b["ev"] < first[b["id"]]["ev"]):
            first[b["id"]] = b
    evs = {}
    if first:
        with open(tpath) as f:
            for line in f:
                t = json.loads(line)
                if t["id"] in first:
                    evs[t["id"]] = t["ev"][first[t["id"]]["ev"] - 1]
    hangs = 0        # one that is confirmed is enough
    for b in sorted(first.values(), key=lambda b: (len(json.dumps(byid[b["id"]])), b["id"]))[:40]:
        e = evs[b["id"]]
        what = "%s at event %d: %s %s" % (b["id"], b["ev"], sorted(str(x[1]) for x in b["hit"]), e.get("msg", ""))
        if confirm and not all(rejects(byid[b["id"]], mode, module, "%s-confirm%d" % (tag, k), tags) for k in range(confirm)):
            log("not reproduced: " + what)
            run.extra["unconfirmed"] = run.extra.get("unconfirmed", 0) + 1
            continue
        if e["fail"] == "hang":
            if hangs:
                continue
            if not again(byid[b["id"]], mode, tag, tags, race):
                raise CheckError("a hang was not reproduced: " + what)
            hangs += 1
        run.violation(job_key(byid[b["id"]]), what, {"mode": mode, "module": module, "tags": tags, "race": race, "job": byid[b["id"]],
                                                     "event": b["ev"], "hit": b["hit"], "observed": e})
    return tpath


def rejects(job, mode, module, tag, tags):
    """Is the job judged wrong when it is run again, alone?"""
    res = vlib.run_jobs(mode, [copy.deepcopy(job)], tag, binary=vlib.build(tags))
    tp, rp, _ = vlib.merge(res, tag)
    return bool(list(vlib.bad_lines(vlib.tlc(module, module + ".cfg", {"TRACES": tp, "RUNES": rp}, workers=1, heap="1g", tag=tag).out)))


def again(job, mode, tag, tags, race):
    res = vlib.run_jobs(mode, [copy.deepcopy(job)], tag + "-again", binary=vlib.build(tags, race))
    tp = vlib.merge(res, tag + "-again")[0]
    with open(tp) as f:
        return any(e["fail"] == "hang" for line in f for e in json.loads(line)["ev"])


# ---------------------------------------------------------------------------
# C07: the functions on characters and their widths
def text_op(op, cp=0, w=0, on=False, s=()):
    return {"op": op, "cp": cp, "w": w, "on": on, "s": list(s)}


TEXT_MODELS = {     # characters, calls
    "wt": ([97, 0x1F468, 0x200D, 0xFE0F, 0x1F3FB], [text_op("setw", 97, 2), text_op("setw", 0x1F468, 1), text_op("setw", 0x1F468, 0), text_op("surr"),
                                                   text_op("resetw"), text_op("zw", w=0)]),
    "wez": ([9, 0x3042, 0x2500, 0xFE0F, 0x200D], [text_op("setw", 0x3042, 1), text_op("setw", 0x2500, 1), text_op("resetw"), text_op("zw", w=-1)]),
    "contour": ([9, 0x1F3F3, 0x200D, 0x1F3FB, 0x3B1], [text_op("setw", 0x3B1, 1), text_op("setw", 0x1F3FB, 1), text_op("setw", 0x1F3FB, 0), text_op("resetw"),
                                                      text_op("surr"), text_op("surr", on=True)]),
    "plain": ([9, 97, 0x1F468, 0xFE0F, 1], [text_op("surr", on=True), text_op("setw", 0x1F468, 1), text_op("setw", 97, 0), text_op("resetw")]),
}
TEXT_ENVS = ("wt", "wez", "contour", "plain", "vscode", "halfwt")


def text_jobs(r, n, alphas):
    """Texts of all sorts, with settings made in between."""
    jobs = []
    for i in range(n):
        alpha = r.choice(alphas)
        zw = r.random() < .2
        script = [text_op("zw", w=1)] if zw else []
        for _ in range(12):
            if r.random() < .4:
                o = r.choice([text_op("setw", r.choice(gen.settable(alpha)), r.choice([0, 1, 1, 2, 2])), text_op("setw", r.choice([97, 0x3042]), r.choice([1, 2])),
                              text_op("surr", on=r.random() < .5), text_op("resetw"), text_op("zw", w=r.choice([-1, 0, 1])) if zw else text_op("text")])
            else:
                o = text_op("text")
            o["s"] = [r.choice(alpha) for _ in range(r.choice([0, 1, 2, 3, 3, 5, 8, 20]))]
            script.append(o)
        jobs.append({"id": "random/%d" % i, "cfg": {"env": r.choice(TEXT_ENVS), "zw": "set" if zw else ""}, "script": script})
    return jobs


def text_check(run, table, alphas, strings):
    """table(code points) makes the rune table of a model; strings are (env, text)."""
    r = rng(run.pid, "text")
    jobs = []
    for env, (chars, calls) in TEXT_MODELS.items():
        mc = {"env": env, "cps": chars, "ops": calls, "max": 4 if THOROUGH else 3, "calls": 3 if THOROUGH else 2}
        t, paths = explore(run, "TextMC", mc, "text-" + env, runes=table(chars + [o["cp"] for o in calls]))
        for n, p in enumerate(pick(run, "text-" + env, t, leaves(paths), 12000 if THOROUGH else 1200)):
            s, sc = [], []
            for k in p:
                if k <= len(chars):
                    s = s + [chars[k - 1]]
                else:
                    sc.append(dict(calls[k - 1 - len(chars)], s=s))
            sc.append(text_op("text", s=s))
            zw = any(o["op"] == "zw" for o in sc)
            if zw:
                sc.insert(0, text_op("zw", w=1))
            jobs.append({"id": "%s/%d" % (env, n), "cfg": {"env": env, "zw": "set" if zw else ""}, "script": sc})
    byenv = {}
    for env, s in strings:
        byenv.setdefault(env, []).append(text_op("text", s=s))
    for env, ops in byenv.items():
        for n in range(0, len(ops), 40):
            jobs.append({"id": "all-%s/%d" % (env, n), "cfg": {"env": env, "zw": ""}, "script": ops[n:n + 40]})
    jobs += text_jobs(r, 6000 if THOROUGH else 400, alphas)

    def corrupt(e, n):
        k = n % 5
        if not e["cells"] or e["o"]["op"] == "zw":
            return False
        if k == 0:
            e["width"] += 1
        elif k == 1:
            e["count"] += 1
        elif k == 2:
            e["cells"] = [sum(e["cells"], [])] if len(e["cells"]) > 1 else e["cells"] * 2
        elif k == 3:
            e["ws"][-1] += 1
        else:
            e["row"] = e["row"] + [[113]]

    def hist(e):
        return ["call:" + e["o"]["op"]]
    judge(run, jobs, "moji", "TextTrace", corrupt, tag=run.pid + "-text", hist=hist)
    judge(run, text_jobs(r, 2000 if THOROUGH else 150, alphas), "moji", "TextTrace", corrupt, tag=run.pid + "-orgx", tags="orgxwidth", hist=hist)


# ---------------------------------------------------------------------------
# C21: colour sequences
COLORS = ["ColorReset", "Black", "Red", "Green", "Yellow", "Blue", "Magenta", "Cyan", "White", "DefaultForeGroundColor",
          "DarkGray", "DarkRed", "DarkGree", "DarkYellow", "DarkBlue", "DarkMagenta", "DarkCyan", "DarkWhite",
          "DarkDefaultForeGroundColor"]


def color_op(op, r=1, v=(), name=""):
    return {"op": op, "r": r, "v": list(v), "name": name}


def color_check(run):
    vals = [0, 1, 9, 10, 99, 100, 255] if THOROUGH else [0, 7, 49, 255]
    ops = [color_op("none"), color_op("none", 2), color_op("chain"), color_op("chain", 2)]
    ops += [color_op("add", r, [v]) for r in (1, 2) for v in vals]
    ops += [color_op("named", r, name=n) for r, n in ((1, "ColorReset"), (2, "ColorReset"), (2, "Red"))]
    r, paths = explore(run, "ColorMC", {"ops": ops, "max": 6, "total": 5 if THOROUGH else 4}, "color")
    jobs = [{"id": "cover/%d" % n, "script": [ops[i - 1] for i in p]}
            for n, p in enumerate(pick(run, "color", r, leaves(paths), 40000 if THOROUGH else 6000))]
    rr = rng(run.pid)
    for n in COLORS:
        jobs.append({"id": "named/" + n, "script": [color_op("named", 1, name=n), color_op("chain", 2), color_op("add", 2, [5]),
                                                    color_op("chain", 1)][:4 if n == "ColorReset" else 3]})
    vv = list(range(256))
    for k in range(256):
        jobs.append({"id": "value/%d" % k, "script": [color_op("sgr", 1, [k]), color_op("add", 1, [255 - k]), color_op("sgr", 2, [k, k]),
                                                      color_op("chain", 2), color_op("sgr", 1, [k, 255, k]), color_op("sgr", 2, [255, k, 0, k])]})
    for k in range(20000 if THOROUGH else 1500):
        sc, ln = [], {1: 0, 2: 0}
        for _ in range(rr.randint(2, 9)):
            reg = rr.choice((1, 1, 2))
            op = rr.choice(("add", "add", "add", "chain", "sgr", "named", "none"))
            if op == "add" and ln[reg] < 6:
                sc.append(color_op("add", reg, [rr.choice(vv + [0, 255] * 20)]))
                ln[reg] += 1
            elif op == "chain" and ln[1] + ln[2] <= 6:
                sc.append(color_op("chain", reg))
                ln[reg] = ln[1] + ln[2]
            elif op == "sgr":
                n = rr.randint(1, 4)
                sc.append(color_op("sgr", reg, [rr.choice(vv) for _ in range(n)]))
                ln[reg] = n
            elif op == "named":
                n = rr.choice(COLORS)
                sc.append(color_op("named", reg, name=n))
                ln[reg] = 1 if n == "ColorReset" else 3
            elif op == "none":
                sc.append(color_op("none", reg))
                ln[reg] = 0
        if sc:
            jobs.append({"id": "random/%d" % k, "script": sc})

    def corrupt(e, n):
        k = n % 3
        r = e["o"]["r"] - 1
        if not e["out"][r]:
            return False
        if k == 0:
            e["out"][r] = e["out"][r][:-2] + [59] + e["out"][r][-1:]
        elif k == 1:
            e["n"][r] += 1
        else:
            e["short"][r][0][2] = 0
    judge(run, jobs, "color", "ColorTrace", corrupt, hist=lambda e: ["op:" + e["o"]["op"], "params:%d" % e["out"][e["o"]["r"] - 1].count(59)])


# ---------------------------------------------------------------------------
# C10: key decoding
def key_check(run):
    alpha = [0, 27, 97, 0xD83D, 0xDE00, -1]
    units = [{"u": u, "more": m} for u in alpha for m in (False, True) if not (u == -1 and m)]
    mx = 5 if THOROUGH else 4
    r, paths = explore(run, "KeyDecodeMC", {"units": units, "max": mx}, "keydecode", workers=8)
    full = sorted(p for p in paths if len(p) == mx)
    rr = rng(run.pid)
    jobs = []
    fns = [["raw"], ["key"], ["keys"], ["keys", "key"], ["raw", "keys"]]
    for n, p in enumerate(pick(run, "keydecode", r, full, 60000 if THOROUGH else 12000)):
        jobs.append({"id": "cover/%d" % n, "units": [units[i - 1] for i in p], "fns": fns[n % 3], "rawfail": 0})
    leads = [0xD800, 0xD83C, 0xD83D, 0xDBFE, 0xDBFF]
    trails = [0xDC00, 0xDE00, 0xDFFD, 0xDFFF, 0xDC01]
    for h in leads:
        for l in trails:
            for fn in fns[:3]:
                jobs.append({"id": "pair/%x%x" % (h, l), "fns": fn, "rawfail": 0, "units":
                             [{"u": 97, "more": True}, {"u": h, "more": True}, {"u": l, "more": True}, {"u": 98, "more": False}]})
    pool = [0, 27, 97, 0x41, 0x5B, 0x7E, 0xE9, 0x3042, 0xFFFD, 0xFFFF, 0x1F600, 0x10FFFF, 1, 13, 127, 0xE000, 0xD7FF] + leads + trails
    for n in range(30000 if THOROUGH else 4000):
        us = []
        for _ in range(rr.randint(1, 14)):
            u = rr.choice(pool) if rr.random() < 0.8 else rr.choice([rr.randint(1, 0xD7FF), rr.randint(0xE000, 0x10FFFF), rr.randint(0xD800, 0xDBFF), rr.randint(0xDC00, 0xDFFF)])
            if rr.random() < 0.04:
                us.append({"u": -1, "more": False})
            elif 0xD800 <= u < 0xDC00 and rr.random() < 0.7:
                us.append({"u": u, "more": rr.random() < 0.8})
                us.append({"u": rr.choice(trails), "more": rr.random() < 0.6})
            else:
                us.append({"u": u, "more": rr.random() < 0.65})
        us[-1]["more"] = False
        jobs.append({"id": "random/%d" % n, "units": us, "fns": rr.choice(fns), "rawfail": rr.choice([0, 0, 0, 0, 1, 2, 3])})
    for n in range(400 if THOROUGH else 60):       # long bursts: pasted text, long sequences
        ln = rr.choice([17, 33, 40, 65, 70, 129, 150, 257, 300, 520])
        us = [{"u": rr.choice(pool[2:]) if rr.random() < .3 else rr.randint(97, 122), "more": True} for _ in range(ln)]
        if n % 3 == 0:
            us[rr.choice([0, 0, 1, 20, ln - 3]) % ln]["u"] = 27
        elif n % 3 == 1:
            us = [u for u in us if u["u"] != 27] or us
        if rr.random() < .3:
            us[rr.randrange(len(us))]["more"] = False
        jobs.append({"id": "long/%d" % n, "units": us + [{"u": 97, "more": False}], "fns": rr.choice(fns), "rawfail": 0})
    for j in jobs:
        j["units"] = [dict(u) for u in j["units"]]
        j["units"][-1]["more"] = False

    def corrupt(e, n):
        if e["err"] or not e["keys"]:
            return False
        k = n % 3
        if k == 0:
            e["keys"][-1] = e["keys"][-1] + [113]
        elif k == 1:
            e["keys"] = e["keys"] + [e["keys"][-1]]
        elif e["fn"] == "raw":
            e["leave"] += 1
        else:
            e["leave"] = 2
    judge(run, jobs, "keys", "KeyDecodeTrace", corrupt,
          hist=lambda e: ["fn:" + e["fn"], "err:" + (e["err"] or "none"), "rawfail:%d" % e["rawfail"]] + ["keylen:%d" % min(len(k), 4) for k in e["keys"]])


# ---------------------------------------------------------------------------
# C11: key bindings
def by(s):
    return list(s.encode())


ESCS = {"UP": "[A", "DOWN": "[B", "RIGHT": "[C", "LEFT": "[D", "C_UP": "[1;5A", "CTRL_DOWN": "[1;5B", "C_RIGHT": "[1;5C", "C_LEFT": "[1;5D",
        "HOME": "[H", "END": "[F", "PAGEUP": "[5~", "PAGEDOWN": "[6~", "DELETE": "[3~", "F1": "[OP", "F2": "[OQ", "F3": "[OR", "F4": "[OS",
        "F5": "[15~", "F6": "[16~", "F7": "[17~", "F8": "[18~", "F9": "[20~", "F10": "[21~", "F11": "[23~", "F12": "[24~", "M_OEM_2": "/"}
KEYNAMES = ["C_" + chr(c) for c in range(65, 91)] + ["M_" + chr(c) for c in range(65, 91)] + sorted(ESCS) + [
    "C_[", "C_\\", "C_]", "C_^", "C_UNDERBAR", "BACKSPACE", "M_BACKSPACE", "CTRL_BREAK", "ENTER", "ESCAPE"]
NOCODES = ["F%d" % n for n in range(13, 25)] + ["CTRL", "CLEAR", "PAUSE"]
CMDNAMES = ["ACCEPT_LINE", "INTR", "BEGINNING_OF_LINE", "BACKWARD_CHAR", "END_OF_LINE", "FORWARD_CHAR", "BACKWARD_DELETE_CHAR",
            "DELETE_CHAR", "DELETE_OR_ABORT", "KILL_LINE", "KILL_WHOLE_LINE", "UNIX_WORD_RUBOUT", "UNIX_LINE_DISCARD", "CLEAR_SCREEN",
            "REPAINT_ON_NEWLINE", "QUOTED_INSERT", "YANK", "YANK_WITH_QUOTE", "SWAPCHAR", "BACKWARD_WORD", "FORWARD_WORD", "UNDO",
            "PREVIOUS_HISTORY", "NEXT_HISTORY", "ISEARCH_BACKWARD"]
# every code a key can have here: single bytes, characters, Alt, escape sequences, and beginnings of them
PROBES = [[c] for c in range(256)] + [[27, c] for c in list(range(97, 123)) + list(range(65, 91)) + [8, 127, 47, 91, 27]] + [
    [27] + by(v) for v in sorted(set(ESCS.values()))] + [by("\u3042"), by("\u00e9"), by("ab"), [27] + by("[Z"), [27] + by("[2~"), [27] + by("[1;5F"),
                                                                                          [27] + by("OP"), [27] + by("[19~"), [27, 27] + by("[A"), []]


def spell(r, name):
    """The name in another letter case and with other separators."""
    return "".join(r.choice((c.lower(), c.upper())) if c.isalpha() else r.choice("-_") if c == "_" else c for c in name)


def misspell(r, name, valid):
    while True:
        n = list(name)
        k = r.randrange(len(n) + 1)
        how = r.randrange(6)
        if how == 0:
            n.insert(k, r.choice("_-Xx0 1."))
        elif how == 1 and n:
            del n[k % len(n)]
        elif how == 2 and n:
            n[k % len(n)] = r.choice("AQZ_0~+")
        elif how == 3:
            n = n[:k]
        elif how == 4:
            n = n + n
        else:
            n = [c for c in n if c != "_"]
        s = "".join(n)
        if s.upper().replace("-", "_") not in valid:
            return s


def bop(op, m=1, key=(), cmd="", fname=()):
    return {"op": op, "m": m, "key": by(key) if isinstance(key, str) else list(key), "cmd": cmd,
            "fname": by(fname) if isinstance(fname, str) else list(fname)}


def bind_check(run):
    ops = []
    for m in (1, 2, 3):
        ops += [bop("code", m, [c], cmd) for c in (24, 11) for cmd in ("", "MARK1", "UNDO")]
        ops += [bop("func", m, "c-X", "MARK1"), bop("func", m, "C_k", ""), bop("func", m, "C_XX", "MARK1"), bop("func", m, "", ""),
                bop("symbol", m, "C-x", fname="undo"), bop("symbol", m, "C_K", fname="kill-line"), bop("symbol", m, "C_Q_", fname="undo"),
                bop("symbol", m, "C_X", fname="undo_"), bop("symbol", m, "C_K", fname="")]
    r, paths = explore(run, "BindMC", {"ops": ops, "max": 7}, "bind")
    near = [[24], [11], [25], [97], [13], [27, 120], []]
    rr = rng(run.pid)
    jobs = []
    for n, p in enumerate(pick(run, "bind", r, leaves(paths), 30000 if THOROUGH else 5000)):
        sc = [ops[i - 1] for i in p]
        sc += [bop("press", m, k) for m in (1, 2) for k in ([24], [11])]
        jobs.append({"id": "cover/%d" % n, "script": sc, "keys": near})
    jobs.append({"id": "defaults", "script": [bop("look")], "keys": PROBES})
    for n in CMDNAMES:
        sc = [bop("getfunc", fname=v) for v in (n, n.lower(), n.replace("_", "-"), n.lower().replace("_", "-"), spell(rr, n), spell(rr, n),
                                                  misspell(rr, n, CMDNAMES), misspell(rr, n, CMDNAMES))]
        sc += [bop("symbol", 2, "c-x", fname=spell(rr, n)), bop("symbol", 1, "C_O", fname=misspell(rr, n, CMDNAMES))]
        jobs.append({"id": "command/" + n, "script": sc, "keys": near + [[15]]})
    valid = KEYNAMES + NOCODES
    for n in KEYNAMES:
        for m in (1, 2, 3):
            sc = [bop("func", m, v, c) for v, c in ((n, "MARK1"), (n.lower(), ""), (n.replace("_", "-"), "MARK2"), (spell(rr, n), "UNDO"), (misspell(rr, n, valid), "YANK"),
                                                    (spell(rr, n), ""))]
            jobs.append({"id": "key/%s/%d" % (n, m), "script": sc, "keys": PROBES if m == 1 else rr.sample(PROBES, 60) + near})
    jobs.append({"id": "nocode", "key": "virtual-key-names", "script": [bop("func", 1, n, "MARK1") for n in NOCODES], "keys": PROBES})
    for n in range(4000 if THOROUGH else 500):
        sc = []
        for _ in range(rr.randint(3, 14)):
            m = rr.choice((1, 1, 2, 2, 3))
            what = rr.random()
            key = rr.choice(PROBES)
            cmd = rr.choice(["", "MARK1", "MARK2", "MARK1", rr.choice(CMDNAMES)])
            if what < 0.3:
                sc.append(bop("code", m, key, cmd))
            elif what < 0.5:
                sc.append(bop("func", m, spell(rr, rr.choice(KEYNAMES)), cmd))
            elif what < 0.65:
                sc.append(bop("symbol", m, spell(rr, rr.choice(KEYNAMES)), fname=spell(rr, rr.choice(CMDNAMES))))
            elif what < 0.72:
                sc.append(bop("func", m, misspell(rr, rr.choice(KEYNAMES), valid), cmd))
            elif what < 0.79:
                sc.append(bop("symbol", m, spell(rr, rr.choice(KEYNAMES)), fname=misspell(rr, rr.choice(CMDNAMES), CMDNAMES)))
            elif sc:
                k = rr.choice(sc)
                sc.append(bop("press", rr.choice((1, 2)), k["key"] if k["op"] == "code" else rr.choice(PROBES)))
        ks = [o["key"] for o in sc if o["op"] == "code"] + rr.sample(PROBES, 40)
        jobs.append({"id": "random/%d" % n, "script": sc or [bop("look")], "keys": ks})
    for n in range(60 if THOROUGH else 6):      # many keys bound, also keys of no name, then unbound
        many = [[c] for c in range(1, 27)] + [[27, c] for c in range(33, 127)] + [by("\x1b[%d~" % c) for c in range(1, 35)] + [by(chr(c)) for c in range(0x3041, 0x3061)]
        rr.shuffle(many)
        m = n % 3 + 1
        sc = [bop("code", m, k, rr.choice(["MARK1", "MARK2", "UNDO"])) for k in many[:rr.choice([40, 80, 150])]]
        sc += [bop("code", m, o["key"], "") for o in rr.sample(sc, 10)]
        jobs.append({"id": "many/%d" % n, "script": sc, "keys": [o["key"] for o in rr.sample(sc, 30)] + rr.sample(PROBES, 10)})

    def corrupt(e, n):
        if not e["keys"]:
            return False
        if n % 2:
            e["look"][n % 4 // 2][0] = [63]
        else:
            e["err"] = not e["err"]
    judge(run, jobs, "bind", "BindTrace", corrupt,
          hist=lambda e: ["op:" + e["o"]["op"], "map:%d" % e["o"]["m"], "err:%s" % e["err"]] + (["press:mark" if e["marks"] else "press:none"] if e["o"]["op"] == "press" else []))


# ---------------------------------------------------------------------------
# C13: file names
def cps(s):
    return [ord(c) for c in s]


def entry(path, kind="file", to=""):
    sp = lambda p: [cps(n) for n in ("t/" + p).split("/")]
    return {"path": sp(path), "kind": kind, "to": sp(to) if kind == "ldir" and to else [cps("t")] if kind == "ldir" else []}


NAMES = ["a", "A", "ab", "aB", "AB", "Abc", "b", "ba", ".", "..", ".a", ".hid", "..x", "a b", " ", "a'", 'q"', "x&y", "\u00e9", "\u00c9", "\u00e9a", "stra\u00dfe", "STRASSE",
         "\u3042", "\u3042\u3044", "k", "\u212a", "s", "\u017f", "S1", "long-file-name-of-some-length.txt", "long-file-name", "\U0001f600", "e\u0301", "~", "-", "@x", "a.b", "a\tb", "0"]


def rand_tree(r):
    tree, dirs = [], [[]]
    taken = set()
    kinds = []
    for _ in range(r.choice((0, 1, 1, 2, 3, 5, 8, 14, 24))):
        d = r.choice(dirs)
        n = r.choice(NAMES)
        if n in (".", "..") or tuple(d + [n]) in taken or len(d) > 3:
            continue
        kind = r.choice(("file", "file", "dir", "dir", "ldir", "lfile", "lnone", "nodir"))
        e = {"path": [cps(x) for x in ["t"] + d + [n]], "kind": kind, "to": []}
        if kind == "ldir":
            e["to"] = [cps(x) for x in ["t"] + r.choice(dirs)]
        if kind == "dir":
            dirs.append(d + [n])
        taken.add(tuple(d + [n]))
        kinds.append((d + [n], kind))
        tree.append(e)
    return tree, kinds


def rand_words(r, kinds, n, absolute):
    out = ["", ".", "..", "./", "../", "../t/"]
    for _ in range(n):
        p = list(r.choice(kinds)[0]) if kinds and r.random() < 0.85 else [r.choice(NAMES)]
        if r.random() < 0.3:
            p = p + [r.choice(NAMES + ["", "", ""])]
        how = r.random()
        if how < 0.5 and p[-1]:
            p[-1] = p[-1][:r.randint(0, len(p[-1]))]
        if r.random() < 0.4:
            p[-1] = "".join(r.choice((c.upper(), c.lower(), c)) for c in p[-1])
            if len(p) > 1 and r.random() < 0.2:
                p[0] = p[0].upper()
        for _ in range(r.choice((0, 0, 0, 1, 1, 2))):
            p.insert(r.randrange(len(p)), r.choice((".", "", "..", ".")))
        w = "/".join(p)
        if r.random() < 0.15:
            w = "./" + w
        if r.random() < 0.1:
            w = "../t/" + w
        if absolute and r.random() < 0.15:
            w = "@/t/" + w
        comps = w.split("/")
        up = 0
        for c in comps:          # never leave the scratch area
            up += 1 if c == ".." else 0
        if up > 1 and comps[0] != "@" or w.startswith("/") or w == "@" or (comps[0] == "@" and up):
            continue
        if absolute or not w.startswith("@"):
            out.append(w)
    return [cps(w) for w in out if w not in ("@",)]


def big_tree(r, what):
    add = lambda names, kind: {"path": [cps(x) for x in ["t"] + names], "kind": kind, "to": []}
    if what == 0:
        k = r.choice((30, 70, 140, 300))
        stem = r.choice(("f", "File-", "\u3042"))
        tree = [add(["d"], "dir")] + [add(["d", "%s%d" % (stem, i)], r.choice(("file", "file", "dir"))) for i in range(k)] + [add(["d", "Z%d" % i], "file") for i in range(3)]
        ws = ["d", "d/", "d/" + stem, "d/" + stem.upper() + "1", "d/%s%d" % (stem, k - 1), "d/z", "d/Z2"]
    elif what == 1:
        k = r.choice((100, 180, 240))
        n1, n2 = "n" * k, "n" * (k - 1) + "M"
        tree = [add([n1], "dir"), add([n2], "file"), add([n1, "x" * 200], "file"), add([n1, "X" * 100 + "y"], "file")]
        ws = ["n", n1[:-1], n1, n1.upper(), n1 + "/", n1 + "/x", n1 + "/" + "x" * 150, n1 + "/" + "x" * 99 + "X"]
    else:
        k = r.choice((5, 9, 17, 30))
        ch = [r.choice(("a", "Bc", "\u3042", "d d", ".h")) for _ in range(k)]
        tree = [add(ch[:i + 1], "dir") for i in range(k)] + ([add(ch + ["leaf"], "file")] if r.random() < .7 else [])
        cuts = [r.randint(0, k - 1) for _ in range(4)]
        ws = ["", "/".join(ch), "/".join(ch) + "/", "/".join(ch) + "/L"] + ["/".join(ch[:c] + [ch[c][:1]]) for c in cuts] + ["/".join(ch[:c + 1]) + "/" for c in cuts]
    return tree, [cps(w) for w in ws]


def file_check(run):
    import drivers
    pool = [entry("a"), entry("d", "dir"), entry("d/x"), entry("D1", "dir"), entry("D1/.y", "dir"), entry("D1/.y/Z"), entry("l", "ldir", "d"),
            entry("f", "lfile"), entry("n", "lnone"), entry("d/l", "ldir", "")] + ([entry("ab"), entry("D1/u", "nodir")] if THOROUGH else [])
    words = ["", "a", "d", "D", "D1", "d1/", "D1/", "D1/.", "D1/.Y", "D1/.y/", "D1/.y/z", "d/", "d//", "./d", "./", "d/X", "d/./x", "l", "l/", "l/x", "f", "f/", "n", "n/", "..", "../", "../T",
             "d/../a", "d/../", "zz", "zz/", "zz/a", "d/l/", "d/l/d", "d/l/d/l/d/", "a/", "a/x", "@/", "@/t/d", "@/T", ".", "D1/u", "D1/u/"]
    acc = set()
    drivers.all_ints([pool, [cps(w) for w in words]], acc)
    table = drivers.rune_table(acc, run.pid + "-mc")
    r, paths = explore(run, "FileListMC", {"pool": pool, "words": [cps(w) for w in words]}, "filelist", workers=8, runes=table)
    trees = sorted(paths) + [()]
    jobs = []
    for n, p in enumerate(pick(run, "filelist", r, trees, 5000 if THOROUGH else 700)):
        tree = [pool[i - 1] for i in p]
        drop = any(e["kind"] == "nodir" for e in tree)
        jobs.append({"id": "tree/%d" % n, "tree": tree, "words": [cps(w) for w in words if not (drop and w.startswith("@"))], "drop": drop})
    rr = rng(run.pid)
    for n in range(6000 if THOROUGH else 700):
        tree, kinds = rand_tree(rr)
        drop = any(k == "nodir" for _, k in kinds)
        jobs.append({"id": "random/%d" % n, "tree": tree, "words": rand_words(rr, kinds, 12, not drop), "drop": drop})
    for n in range(100 if THOROUGH else 16):     # large directories, long names, deep chains of directories
        tree, ws = big_tree(rr, n % 3)
        jobs.append({"id": "big/%d" % n, "tree": tree, "words": ws, "drop": False})

    def corrupt(e, n):
        if e["k"] != "word" or not e["full"]:
            return False
        if n % 2:
            e["full"], e["base"] = e["full"][1:], e["base"][1:]
        else:
            e["full"][0], e["base"][0] = e["full"][0] + [47], e["base"][0] + [47]
    judge(run, jobs, "files", "FileListTrace", corrupt, hist=lambda e: ["cands:%d" % min(len(e["full"]), 5)] if e["k"] == "word" else ["tree"])


# ---------------------------------------------------------------------------
# C19: sessions on a pseudo terminal
def chunk(b):
    return {"k": "chunk", "b": list(b), "w": 0}


def size(w):
    return {"k": "size", "b": [], "w": w}


def utf(s):
    return list(s.encode())


PTYTEXTS = ["a\rb\r", "\u3042\r\U0001f600x\r", "one\r\rtwo\r", "\u00e9\u3042"]
MODES = ["", "", "noecho", "noisig", "vmin", "flow", "noopost"]
EDITKEYS = ["\x01", "\x05", "\x02", "\x06", "\x08", "\x7f", "\x0b", "\x15", "\x17", "\x14", "\x1f", "\x04", "\x1b[D", "\x1b[C", "\x1b[H", "\x1b[F", "\x1b[3~", "\x1bb", "\x1bf", "\x1b[1;5D"]


def pty_job(name, backend, script, reads, modes=""):
    import gen
    return {"id": name, "backend": backend, "script": script, "reads": reads, "modes": modes, "edit": gen.base_cfg(env="plain")}


def pty_check(run):
    import drivers
    import gen
    texts = [utf(t) for t in PTYTEXTS]
    acc = set(range(256)) | {0x3042, 0x1F600}
    table = drivers.rune_table(acc, run.pid + "-mc")
    r, paths = explore(run, "TtySessionMC", {"texts": texts, "burst": 12, "all": True, "cfg": gen.base_cfg(env="plain")}, "ttysession", runes=table)
    rr = rng(run.pid)
    jobs = []
    chosen = pick(run, "ttysession", r, sorted(paths), 900 if THOROUGH else 90)
    for n, p in enumerate(chosen):
        tx, at, sc = texts[p[0] - 1], 0, []
        for k in p[1:]:
            sc.append(chunk(tx[at:at + k]))
            at += k
        for b in ("tty8", "tty10"):
            jobs.append(pty_job("cut/%d/%s" % (n, b), b, sc, tx.count(13) + (1 if n % 3 == 0 else 0), MODES[n % len(MODES)]))
    # longer sessions with editing keys, ends of other kinds, resizes
    words = ["", "a", "hello world", "\u3042\u3044", "x\u00e9y", "\U0001f468", "  b ", "q'w\"e", "tail" * 12]
    for n in range(400 if THOROUGH else 40):
        b = ("tty8", "tty10")[n % 2]
        sc, reads, buf = [], 0, b""
        for _ in range(rr.randint(2, 9)):
            what = rr.random()
            if what < 0.55:
                piece = "".join(rr.choice(words) + rr.choice(["\r", "\r", "", " "]) for _ in range(rr.randint(1, 4)))
                bs = piece.encode()
                while bs:
                    k = rr.randint(1, len(bs)) if rr.random() < 0.5 else len(bs)
                    sc.append(chunk(bs[:k]))
                    bs = bs[k:]
            elif what < 0.85:
                sc.append(chunk(utf(rr.choice(EDITKEYS))))
            elif what < 0.9:
                sc.append(chunk([3]))
            elif what < 0.93:
                sc.append(chunk(utf(rr.choice(words)) + utf(rr.choice(["\x1b[D", "\x1b[H"]))))
            elif n % 8 < 2:
                sc.append(size(rr.choice([40, 60, 81, 100, 200])))
        sc.append(chunk([13]))
        reads = sum(it["b"].count(13) + it["b"].count(3) + it["b"].count(4) for it in sc)
        jobs.append(pty_job("session/%d/%s" % (n, b), b, sc, reads, rr.choice(MODES)))
    for b in ("tty8", "tty10"):
        jobs.append(pty_job("resize/" + b, b, [chunk(utf("abc")), size(60), chunk(utf("d\r")), chunk(utf("e")), size(100), size(40), chunk([13])], 2))
        for n in range(20 if THOROUGH else 3):       # widths that come back, across reads
            sc, w = [], 80
            for _ in range(2):
                sc.append(chunk(utf("ab")))
                for _ in range(2 if n else 3):
                    w = (60 if w == 80 else 80) if n == 0 else rr.choice([x for x in (40, 60, 80) if x != w])
                    sc.append(size(w))
                sc.append(chunk([13]))
            jobs.append(pty_job("widths/%d/%s" % (n, b), b, sc, 2))
        jobs.append(pty_job("hangup/" + b, b, [chunk(utf("a\r")), chunk(utf("b")), {"k": "hup", "b": [], "w": 0}], 3))
        jobs.append(pty_job("hangup-at-once/" + b, b, [{"k": "hup", "b": [], "w": 0}], 2))
        jobs.append(pty_job("many/" + b, b, [chunk(utf("".join("l%d\r" % k for k in range(12))))], 12))
        jobs.append(pty_job("long/" + b, b, [chunk(utf("\u3042" * 300)), chunk(utf("z" * 500 + "\r" + "y" * 300)), chunk([13])], 2))
        for n in range(12 if THOROUGH else 2):       # more than one read buffer at once, characters across its end
            t = "".join(rr.choice("a\u00e9\u3042\U0001f600") for _ in range(rr.randint(0, 3))) + rr.choice(["\u3042", "\u3042\u00e9", "a\u3042", "\u00e9", "\U0001f600"]) * rr.choice([260, 350, 520])
            jobs.append(pty_job("paste/%d/%s" % (n, b), b, [chunk(utf(t[:len(t) // 2] + "\r" + t[len(t) // 2:])), chunk([13])], 2))
        jobs.append(pty_job("intr/" + b, b, [chunk(utf("ab\x03cd\re")), chunk(utf("f\x03\x03g\x04h\r\x04i\r\x03")), chunk([13])], 10))
        jobs.append(pty_job("sequences/" + b, b, [x for q in ("\x1b[1;10A", "\x1b[27;5;109~", "\x1b[57441;5u", "\x1b[1;5D", "\x1b", "\x1b[", "\x1bOP", "\x1b\x1b[A", "\x1b\u3042\u3044\u3046")
                                                       for x in (chunk(utf("a")), chunk(utf(q)), chunk(utf("b\r")))], 9))
        jobs.append(pty_job("ahead/" + b, b, [chunk(utf("".join("k%d\r" % k for k in range(60))))], 60))
    jobs.append(pty_job("busy/tty8", "tty8", [chunk(utf("a")), {"k": "busy", "b": utf("b\rc\u3042"), "w": 0}, chunk([13])], 2))
    j = pty_job("busy/tty10", "tty10", [chunk(utf("a")), {"k": "busy", "b": utf("b\rc"), "w": 0}, chunk([13])], 2)
    j["key"] = "tty10-input-while-a-command-runs"
    jobs.append(j)
    rr.shuffle(jobs)

    def corrupt(e, n):
        if e["k"] != "line":
            return False
        if e["err"] != "ENTER":      # may be after a hangup
            e["err"], e["s"] = "ENTER", e["s"] + [113]
        elif n % 3 == 0:
            e["same"] = False
        elif n % 3 == 1:
            e["s"] = e["s"] + [113]
        else:
            e["err"] = "broken"
    judge(run, jobs, "pty", "TtySessionTrace", corrupt, hist=lambda e: [e["k"]] + (["end:" + e["err"]] if e["k"] == "line" else []), confirm=2)


# C20: a program and its editor
def sop(op, v="", s=(), p=0, keys=()):
    return {"op": op, "v": v, "s": list(s), "p": p, "keys": [list(k) for k in keys]}


def session_check(run, rune_table):
    ops = [sop("w", "A"), sop("w", "bufA"), sop("out", "B"), sop("out", "nil"), sop("hist", "H"), sop("hist", "nil"), sop("pred", "P"), sop("color", "K"),
           sop("tty", "pilot"), sop("hadd", s=[97, 97]), sop("say"), sop("keys", keys=[[97], [6], [13]]), sop("keys", keys=[[16], [98]]), sop("keys", keys=[[3], [], [99]]),
           sop("init"), sop("read"), sop("def", s=[98, 97])]
    sets = [sop("lf", "L"), sop("pr", "one"), sop("pr", "two"), sop("cyc", "on"), sop("def", s=[98, 97]), sop("def", s=[97]), sop("cur", p=1), sop("cur", p=9),
            sop("hadd", s=[97, 97]), sop("keys", keys=[[16], [13]]), sop("keys", keys=[[14], [98]]), sop("keys", keys=[[3]]), sop("keys", keys=[[2], [99], [13]]), sop("read")]
    last = [sop("tty", "pilot"), sop("read"), sop("cur", p=1), sop("read"), sop("def", s=[97]), sop("read")]
    jobs = []
    for tag, os_, first, depth in (("session", ops, [], 8 if THOROUGH else 6), ("settings", sets, [sop("tty", "pilot"), sop("hist", "H"), sop("w", "A")], 7 if THOROUGH else 5)):
        r, paths = explore(run, "SessionMC", {"ops": os_, "first": first, "max": depth, "maxq": 4}, tag, workers=1,
                           runes=rune_table({97, 98, 99, 100, 120, 121, 12354, 13, 14, 16, 2, 3, 6}))
        for n, p in enumerate(pick(run, tag, r, leaves(paths), 20000 if THOROUGH else 3000)):
            jobs.append({"id": "%s/%d" % (tag, n), "script": first + [os_[i - 1] for i in p] + last})
    rr = rng(run.pid, "session")
    ks = [[], [97], [97], [98], [0x3042], [63], [8], [2], [6], [1], [5], [16], [14], [13], [13], [3], [4], [31], [27, 91, 65], [11], [21]]
    for n in range(5000 if THOROUGH else 500):
        sc = []
        for _ in range(rr.randint(4, 14)):
            f = rr.choice(["w", "out", "hist", "pred", "color", "tty", "hadd", "keys", "keys", "init", "read", "read", "read", "say", "lf", "pr", "cyc", "def", "cur"])
            if f == "read":
                if not any(o["op"] == "tty" and o["v"] == "pilot" for o in sc):
                    sc.append(sop("tty", "pilot"))
                sc.append(sop("read"))
            elif f == "def":
                sc.append(sop(f, s=[rr.choice([97, 98, 0x3042]) for _ in range(rr.choice([0, 2, 5]))]))
            elif f == "cur":
                sc.append(sop(f, p=rr.choice([0, 1, 9])))
            elif f == "keys":
                sc.append(sop(f, keys=[rr.choice(ks) for _ in range(rr.randint(0, 8))]))
            elif f == "hadd":
                sc.append(sop(f, s=[rr.choice([97, 98, 0x3042]) for _ in range(rr.randint(0, 5))]))
            elif f == "say":
                sc += [sop("init"), sop("say")]
            elif f != "tty":
                sc.append(sop(f, rr.choice({"w": ["A", "B", "bufA", "nil"], "out": ["A", "B", "nil"], "hist": ["H", "nil"], "pred": ["P", "nil"], "color": ["K", "nil"], "lf": ["L", "nil"], "pr": ["one", "two", "nil"], "cyc": ["on", "off"],
                                            "init": [""]}[f])))
        jobs.append({"id": "random/%d" % n, "script": sc + last})
    for n in range(60 if THOROUGH else 6):        # many reads by one editor
        sc = [sop("tty", "pilot"), sop("hist", "H"), sop("w", "A"), sop("def", s=[98, 97]), sop("pr", "one"), sop("lf", "L")]
        for _ in range(rr.choice([40, 80, 120])):
            f = rr.random()
            if f < .5:
                sc.append(sop("keys", keys=[rr.choice(ks) for _ in range(rr.randint(0, 4))]))
            elif f < .7:
                sc.append(sop("hadd", s=[rr.choice([97, 98, 0x3042]) for _ in range(rr.randint(1, 4))]))
            sc.append(sop("read"))
        jobs.append({"id": "many/%d" % n, "script": sc + last})

    def corrupt(e, n):
        if e["o"]["op"] != "read":
            return False
        if n % 2:
            e["line"] = e["line"] + [113]
        else:
            e["got"] = ["C"]
    judge(run, jobs, "session", "SessionTrace", corrupt, tag=run.pid + "-session",
          hist=lambda e: ["op:" + e["o"]["op"]] + (["read:" + e["err"]] + ["to:" + x for x in e["got"]] if e["o"]["op"] == "read" else []))


SMALL = {"C19": pty_check, "C13": file_check, "C11": bind_check, "C21": color_check, "C10": key_check}
