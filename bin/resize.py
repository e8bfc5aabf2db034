"""C09: resize notifications at every point of a read."""
import concurrent.futures
import json
import os

import gen
import plans
import small
import vlib
from gen import ALPHA, base_cfg, ch, k, start, text_of, texts
from vlib import CheckError, THOROUGH, rng

PHASES = ["open", "size", "prompt", "paint0", "wait", "got", "cmd", "nest", "paint", "lf", "close", "done"]
KINDS = ["edit", "nest", "end"]
BROKEN = ["forget-early", "no-lock", "nested-unlock", "close-locked", "never-finished", "no-flush"]


def mc(rule, **kw):
    return dict({"rule": rule, "kinds": KINDS, "widths": 2, "fires": 2, "keys": 1}, **kw)


def refuted(rule):
    """The invariants notice each discipline that leaves something out."""
    cf = os.path.join(vlib.scratch(), rule + ".mc")
    with open(cf, "w") as f:
        f.write(json.dumps(mc(rule)) + "\n")
    return vlib.tlc("Resize", "Resize.cfg", {"MCCFG": cf}, workers=1, heap="1g", tag="resize-" + rule, ok=(11, 12, 13)).code


def cfg_of(r, alpha, w):
    return base_cfg(env=r.choice(gen.ENVS), w=w, phys=200, prompt=r.choice([[62, 32], [62, 32], [], [0x3042]]),
                    hist=texts(r, alpha, r.randint(1, 3), 1, 20), pred=r.choice(["off", "off", "hist", "custom"]),
                    color=r.choice(["none", "none", "rec", "vim"]), lf=True,
                    comp=dict(base_cfg()["comp"], on=True, cands=[[97, 98], [97, 0x3042]], list=False))


EDITS = [([81], "cmd"), ([81], "cmd2"), ([16], "hist"), ([9], "comp"), ([97], "color"), ([0x3042], "pred"), ([8], "color"), ([2], None), ([1], "color"),
         ([5], "color"), ([11], "color"), ([31], "color"), ([20], "color"), ([6], "hist")]


def schedule_job(r, n, path):
    """A behaviour of the model with concrete commands, texts and widths."""
    alpha = ALPHA[r.choice(["ascii", "wide", "wide", "tab", "emoji"])]
    ws = r.sample([9, 12, 14, 17, 23, 30, 47, 80], 3)
    cfg = cfg_of(r, alpha, ws[0])
    first = start(text_of(r, alpha, r.choice([0, 3, 12, 30])), r.choice([0, 5, 99]))
    sc, cur, point = [first], first, None
    pend = []        # items of the command that runs still to come

    def fire(at, w, n_=0):
        cur.setdefault("rz", []).append({"at": at, "n": n_, "w": w})
    for x in path:
        if x <= 100:
            for it in pend:
                sc.append(it)
            pend = []
            kind = KINDS[x - 1]
            if kind == "edit":
                s, point = r.choice(EDITS)
                if point in ("color", "pred") and cfg["color" if point == "color" else "pred"] in ("none", "off", "hist"):
                    point = None
                cur = {"k": "key", "s": s}
            elif kind == "nest":
                if r.random() < .5:
                    cur = dict(k(r.choice(["quote", "quoteq"])), nest=True)
                    pend = [ch(r.choice([97, 0x3042, 9, 1]))]
                else:
                    cur = dict(k("search"), nest=True)
                    pend = [dict(ch(r.choice(alpha)), nest=True) for _ in range(r.randint(0, 2))]
                    pend = [p for p in pend if p["s"][0] >= 32] + [{"k": "key", "s": r.choice([[13], [7], [27]])}]
                point = None
            else:
                cur = {"k": "key", "s": r.choice([[13], [13], [3]])}
                point = None
            sc.append(cur)
            continue
        at, w = PHASES[x // 100 - 1], ws[x % 100 - 1]
        if at == "paint0":
            fire("write", w)
        elif at == "wait":
            for it in pend:
                sc.append(it)
            pend = []
            sc.append({"k": "resize", "w": w})
        elif at == "nest":
            sc.append({"k": "rnest", "w": w})
        elif at == "cmd":
            fire(point or "write", w)
        elif at == "paint":
            if pend:         # the command goes on with the last of its keys
                sc += pend
                cur, pend = pend[-1], []
            fire("write", w)
        elif at == "done":
            fire("late", w)
        else:
            fire(at, w)
    sc += pend
    # the read after it must not notice
    sc += [start(text_of(r, alpha, 3), 1), ch(97), k("left"), {"k": "key", "s": [13]}]
    return {"id": "sched/%d" % n, "cfg": cfg, "script": sc}


POINTS = ["got", "got", "write", "write", "hist", "color", "pred", "comp", "cmd", "cmd2"]


def walk_job(r, n):
    alpha = ALPHA[r.choice(["wide", "wide", "tab", "text", "emoji", "all"])]
    widths = [8, 9, 10, 12, 15, 20, 33, 60]
    cfg = cfg_of(r, alpha, r.choice(widths))
    cfg["comp"] = plans.comp_cfg(r, alpha, False) if r.random() < .5 else cfg["comp"]
    sc = []
    for _ in range(r.randint(1, 2)):
        block = [start(text_of(r, alpha, r.choice([0, 4, 25])), r.choice([0, 2, 50]))]
        for _ in range(r.randint(4, 14)):
            x = r.random()
            if x < .25:
                c = r.choice(alpha)
                block += [ch(c)] if c >= 32 and c != 127 else [dict(k("quote"), nest=True), ch(c)]
            elif x < .3:
                block += [ch(81)]
            elif x < .38:
                block += [dict(k("quote"), nest=True), ch(r.choice(alpha))]
            elif x < .5:
                block.append(dict(k("search"), nest=True))
                for _ in range(r.randint(0, 3)):
                    c = r.choice(alpha)
                    block.append(dict(k("search") if r.random() < .3 else ch(c if c >= 32 and c != 127 else 97), nest=True))
                block.append({"k": "key", "s": r.choice([[13], [13], [7], [27], [3]])})
            elif x < .62:
                block.append({"k": "resize", "w": r.choice(widths)})
            elif x < .7:
                block.append(k("tab"))
            else:
                block.append(k(r.choice(gen.MOVES + gen.DELS + gen.KILLS + ["prev", "next", "undo", "swap", "yank", "newrow"])))
        block.append({"k": "key", "s": r.choice([[13], [13], [3]])})
        out = []
        for it in block:
            out.append(it)
            if it["k"] == "key" and r.random() < .3:
                it["rz"] = [{"at": r.choice(POINTS), "n": r.choice([0, 0, 1, 2]), "w": r.choice(widths)} for _ in range(r.choice([1, 1, 2]))]
            if it.get("nest") and r.random() < .4:
                out.append({"k": "rnest", "w": r.choice(widths)})
        if r.random() < .5:
            block[0]["rz"] = [{"at": r.choice(["open", "size", "prompt", "write", "color", "hist"]), "n": 0, "w": r.choice(widths)}]
        if r.random() < .6:
            block[-1].setdefault("rz", []).append({"at": r.choice(["lf", "close", "late"]), "n": 0, "w": r.choice(widths)})
        sc += out
    return {"id": "walk/%d" % n, "cfg": cfg, "script": sc}


def race_job(r, n):
    alpha = ALPHA[r.choice(["wide", "tab", "all"])]
    cfg = cfg_of(r, alpha, 40)
    cfg["comp"]["list"] = r.random() < .5
    reads = []
    for _ in range(2):
        w = dict(plans.EDITW, search=1, hist=2, tab=1, undo=2, redraw=.5)
        keys = [it["s"] for it in gen.walk(r, alpha, w, r.randint(10, 40), end=False) if it["k"] == "key"]
        reads.append({"def": text_of(r, alpha, r.choice([0, 5, 30])), "keys": keys + [[7], [7], r.choice([[13], [3]])]})
    return {"id": "race/%d" % n, "cfg": cfg, "reads": reads, "widths": [r.choice([0, 3, 8, 12, 20, 40, 80]) for _ in range(7)], "seed": r.randint(1, 1 << 30)}


def resize_check(run, judge_edit):
    r = rng(run.pid)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        race = ex.submit(vlib.build, "", True)
        vlib.build()
        bad = {b: ex.submit(refuted, b) for b in BROKEN}
        t, paths = small.explore(run, "Resize", mc("sound", keys=2, widths=3) if THOROUGH else mc("sound", keys=2), "resize")
        codes = {b: f.result() for b, f in bad.items()}
        race.result()
    run.extra["disciplines_refuted"] = codes
    paths = [p for p in paths if any(x > 100 for x in p)]
    chosen = small.pick(run, "resize", t, sorted(paths), 20000 if THOROUGH else 1800)
    jobs = [schedule_job(r, n, p) for n, p in enumerate(chosen)]
    jobs += [walk_job(r, n) for n in range(6000 if THOROUGH else 500)]
    w = dict(plans.EDITW, resize=5, search=.3, hist=1)

    def cfgf(r, alpha):
        return plans.rnd_cfg(r, alpha, w=r.choice([8, 10, 12, 15, 30]), pred=r.choice(["off", "hist", "custom"]), color=r.choice(["none", "none", "rec"]))
    jobs += plans.jobs_of_walks(r, "w", 4000 if THOROUGH else 300,
                                plans.generic_walk(w, cfgf=cfgf, lens=(10, 30), reads=(1, 2), resize_widths=[7, 8, 9, 10, 12, 14, 20, 60], defs=(0, 3, 8, 20)))

    def tinyf(r, alpha):
        return plans.rnd_cfg(r, alpha, w=r.choice([12, 20, 30]), prompt=r.choice([[62] * n for n in (1, 2, 5, 8)] + [[0x3042] * 3, [97, 10, 98, 99]]))
    tw = dict(w, redraw=0)
    jobs += plans.jobs_of_walks(r, "t", 3000 if THOROUGH else 250,
                                plans.generic_walk(tw, cfgf=tinyf, lens=(6, 20), reads=(1, 1), resize_widths=[1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 60], defs=(0, 3, 8, 20)))
    r.shuffle(jobs)
    for n in range(0, len(jobs), 6000):
        judge_edit(run, jobs[n:n + 6000], tag="%s-%d" % (run.pid, n))

    if run.violations:
        return

    def corrupt(e, n):
        if n % 2:
            e["races"] = 1
        else:
            e["res"] = e["res"] + [113]
    small.judge(run, [race_job(r, n) for n in range(2000 if THOROUGH else 160)], "race", "ResizeTrace", corrupt, tag="C09-race", race=True,
                hist=lambda e: ["race-read-" + e["err"]])
