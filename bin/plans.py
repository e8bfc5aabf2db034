"""What each property's check explores: small models for TLC (model checking
and a transition cover) and seeded random walks, as jobs for the edit driver."""
import itertools
import unicodedata

from gen import *


def K(*names):
    return [k(n) for n in names]


def C(*cps_):
    return [ch(c) for c in cps_]


def key(*s):
    return {"k": "key", "s": list(s)}


def model(name, cfg, evs, first=None, view="text", maxlen=3, maxflat=99, maxundo=99, maxq=2, maxhist=9,
          maxdepth=60, ws=(12, 20), cap=None, over=False):
    evs = [first or start()] + evs
    full = []
    for e in evs:
        f = {"k": "key", "s": [], "cur": 0, "fr": False, "fw": False, "cs": [], "rc": 0}
        f.update(e)
        full.append(f)
    return {"name": name, "items": evs, "cap": cap,
            "mc": {"cfg": cfg, "evs": full, "view": view, "maxlen": maxlen, "maxflat": maxflat, "maxundo": maxundo,
                   "maxq": maxq, "maxhist": maxhist, "maxdepth": maxdepth, "ws": list(ws), "emit": True, "over": over}}


def swapcase(c):
    s = chr(c).swapcase()
    return ord(s) if len(s) == 1 else c


def similar(r, alpha, n):
    """Texts that differ from another in one respect only, or not at all."""
    out = texts(r, alpha, 1 + n // 4, 1, 5)
    while len(out) < n:
        t = list(r.choice(out))
        i = r.randint(0, max(0, len(t) - 1))
        x = r.randint(0, 6)
        if x == 0:
            t = [swapcase(c) for c in t]
        elif x == 1 and t:
            t[i] = swapcase(t[i])
        elif x == 2:
            t.append(32)
        elif x == 3:
            t.insert(0, 32)
        elif x == 4:
            t = t[:-1]
        elif x == 5:
            t.insert(i, r.choice(alpha))
        out.append(t)
    r.shuffle(out)
    return out


def jobs_of_walks(r, tag, n, mk):
    return [dict(id="%s%d" % (tag, i), **mk(r, i)) for i in range(n)]


EDITW = dict(char=6, word=3, move=6, kill=1.5, undo=1, swap=1.5, yank=.7, hist=.5, junk=.4, redraw=.2, **{"del": 3})


def rnd_cfg(r, alpha, **kw):
    c = base_cfg(env=r.choice(ENVS), w=r.choice([12, 15, 20, 30, 80]),
                 prompt=r.choice([[62, 32], [36, 32], [0x3042, 62], []]),
                 hist=texts(r, alpha, r.randint(0, 4)), cyc=r.random() < .5, clip=text_of(r, alpha, 3))
    if r.random() < .15:        # the program tells the package about the terminal
        c["ov"] = [{"cp": x, "w": r.choice([0, 1, 1, 2, 2])} for x in r.sample(settable(alpha), 2)]
    if r.random() < .05:
        c["nosurr"] = True
    if r.random() < .1:         # other quotation marks for words
        c["delims"] = r.choice([[], [34], [39], [96], [98, 34], [0x3042], [34, 39, 0x300C], [0x1F468]])
    if r.random() < .05:
        c["zw"] = "sum"
    if r.random() < .1:         # features that are not what the plan is about
        c["pred"] = r.choice(["hist", "custom"])
    if r.random() < .1:
        c["color"] = r.choice(["rec", "vim", "def", "mono"])
    if r.random() < .1:
        c["lf"] = False
    if r.random() < .05:
        c["nilp"] = True
    if r.random() < .1:
        c["w"] = r.choice([40, 79, 100, 132, 200, 255, 300])
    c.update(kw)
    return c


def generic_walk(weights, alphas=None, lens=(3, 25), reads=(1, 2), cfgf=None, defs=(0, 0, 3, 8), **wkw):
    def mk(r, i):
        a = r.choice(alphas or list(ALPHA))
        alpha = alph(r, a)
        cfg = cfgf(r, alpha) if cfgf else rnd_cfg(r, alpha)
        sc = []
        for _ in range(r.randint(*reads)):
            sc.append(start(text_of(r, alpha, r.choice(defs)), r.choice([0, 2, 20])))
            sc += walk(r, alpha, weights, r.randint(*lens), **wkw)
        return {"cfg": cfg, "script": sc}
    return mk


def large(r, tag, n, weights, cfgf=None, **wkw):
    """Long lines, wide terminals, long histories and clipboards, many edits."""
    def mk(r, i):
        alpha = alph(r, r.choice(list(ALPHA)))
        cfg = cfgf(r, alpha) if cfgf else rnd_cfg(r, alpha)
        cfg.update(w=r.choice([20, 40, 80, 132, 200, 255, 300]), hist=texts(r, alpha, r.choice([5, 40]), 0, 60), clip=text_of(r, alpha, 70))
        sc = [start(text_of(r, alpha, r.choice([20, 60, 130, 260])), r.choice([0, 10, 100, 999]))]
        return {"cfg": cfg, "script": sc + walk(r, alpha, weights, r.randint(30, 60), **wkw)}
    return jobs_of_walks(r, tag, n, mk)


def bulk(r, tag, n):
    """Much text removed, inserted or replaced by one key, and undone."""
    def mk(r, i):
        alpha = [c for c in alph(r, r.choice(["simple", "text", "emoji", "wide", "all"])) if c != 32 or i % 3]
        sizes = [70, 140, 270] if i % 4 else [520]
        cfg = rnd_cfg(r, alpha, w=r.choice([30, 80, 132]), hist=texts(r, alpha, 3, 60, 140), clip=text_of(r, alpha, r.choice([80, 150, 300])))
        sc = [start(text_of(r, alpha, r.choice(sizes)), r.choice([0, 0, 1, 65, 999]))]
        for _ in range(r.randint(2, 5)):
            sc += r.choice([[], K("home"), K("end"), K("home", "right"), K("end", "left")])
            sc += K(r.choice(["killeol", "killbol", "killall", "rubout", "yank", "yankq", "prev"]))
            sc += r.choice([[], C(97), K("swap"), K("bs")]) + K("undo") * r.choice([0, 1, 1, 2, 3])
        return {"cfg": cfg, "script": sc + [key(13)]}
    return jobs_of_walks(r, tag, n, mk)


def chains(r, tag, n):
    """Many changes, then many undos."""
    def mk(r, i):
        alpha = alph(r, r.choice(["simple", "text", "emoji"]))
        m = [300, 160, 70, 110, 40][i % 5]
        sc = [start(text_of(r, alpha, 3), 2)]
        for _ in range(m):
            sc += r.choice([char_item(r, alpha), char_item(r, alpha), char_item(r, alpha), char_item(r, alpha), K("bs"), K("bs"), K("left"), K("end"), K("swap"), K("del"), K("undo") if r.random() < .1 else []])
            if r.random() < .04:
                sc += K(r.choice(["rubout", "killeol", "prev", "next", "yank"]))
        return {"cfg": rnd_cfg(r, alpha, w=60), "script": sc + K("undo") * (m + 4) + [key(13)]}
    return jobs_of_walks(r, tag, n, mk)


# ---------------------------------------------------------------------------
def plan_C01(r, big):
    wide = base_cfg(w=40)
    ed = K("left", "right", "home", "end", "bs", "del", "killeol", "killbol", "rubout", "killall", "swap", "wordl",
           "wordr", "yank", "ctrld")
    ms = [model("letters", dict(wide, clip=[98, 32]), C(97, 32, 0x3042) + ed, maxlen=4 if big else 3),
          model("quotes", dict(wide), C(97, 32, 34, 39) + K("left", "rubout", "wordl"), maxlen=5 if big else 4),
          model("joiners", base_cfg(w=40), C(97, 0x1F468, 0x200D, 0xFE0F, 0x1F3FB) +
                K("left", "bs", "swap", "wordr", "rubout"), maxlen=3, maxflat=5 if big else 4),
          model("joiners-plain", base_cfg(w=40, env="plain"), C(97, 0x1F468, 0x200D, 0xFE0F) +
                K("left", "bs", "swap", "wordl"), maxlen=3, maxflat=3),
          model("control", base_cfg(w=40, env="wez"), C(97, 0x301) + K("quote", "left", "bs", "rubout", "wordl") +
                [key(9), key(27), key(27, 120), key(0x85), key(0x2500)], maxlen=2)]
    js = jobs_of_walks(r, "w", 6000 if big else 450, generic_walk(EDITW))
    js += jobs_of_walks(r, "l", 300 if big else 30, generic_walk(EDITW, lens=(60, 160), reads=(1, 1)))
    js += large(r, "g", 150 if big else 12, EDITW) + bulk(r, "b", 100 if big else 8)
    return ms, js


def plan_C02(r, big):
    cfg = base_cfg(w=40, clip=[98, 0x200D], hist=[[99, 0xFE0F]])
    ms = [model("edits", cfg, C(97, 0x3042) + K("left", "bs", "killeol", "rubout", "swap", "undo", "killall"),
                view="undo", maxlen=3, maxundo=4 if big else 3),
          model("swaps", cfg, C(97, 98) + K("left", "right", "swap", "undo", "del"), view="undo", maxlen=4,
                maxundo=6 if big else 5),
          model("sources", cfg, C(97) + K("yank", "yankq", "prev", "next", "killbol", "undo", "left", "ctrld"),
                view="undo", maxlen=5, maxundo=5 if big else 4),
          model("joiners", base_cfg(w=40), C(0x1F468, 0x200D, 0xFE0F, 0x1F3FB) + K("bs", "undo", "left"),
                view="undo", maxlen=3, maxundo=5 if big else 4),
          model("search", dict(cfg, hist=[[97, 98], [97]]), C(97) + K("search", "undo", "left") + [key(13), key(7)],
                view="undo", first=start([97, 99]), maxlen=3, maxundo=4, maxq=1),
          model("default", cfg, C(97) + K("undo", "bs", "home"), first=start([97, 0x3042, 98], 1), view="undo",
                maxlen=4, maxundo=4)]
    w = dict(EDITW, undo=9, swap=3, kill=3, hist=1.5, search=.5, yank=1.5, tab=.6)

    def cfgf(r, alpha):
        c = rnd_cfg(r, alpha)
        if r.random() < .4:
            c["comp"] = comp_cfg(r, alpha)
        return c
    js = jobs_of_walks(r, "w", 6000 if big else 450, generic_walk(w, cfgf=cfgf, lens=(5, 30), reads=(1, 1)))
    js += large(r, "g", 150 if big else 10, w, cfgf=cfgf) + chains(r, "c", 60 if big else 5) + bulk(r, "b", 200 if big else 16)
    return ms, js


def comp_cfg(r, alpha, lst=None):
    stem = text_of(r, alpha, r.randint(0, 2))
    cands = [[c for c in stem + text_of(r, alpha, r.randint(0, 4)) if c not in (10, 13)] for _ in range(r.randint(0, 4))]
    return {"cands": cands, "bases": [], "enc": r.choice([[], [34], [34, 39], [0x300C, 34]]), "del": r.choice([[], [59], [38, 59]]),
            "post": r.choice([[], [32], [0x3042]]), "list": (r.random() < .5) if lst is None else lst, "on": True}


def plan_C03(r, big):
    ms = []
    for cyc in (False, True):
        for hist in ([], [[97]], [[97], [98, 0x3042]], [[97], [97], [99]]):
            if not big and len(hist) == 3 and cyc:
                pass
            ms.append(model("hist%d%s" % (len(hist), "cyc" if cyc else ""), base_cfg(w=40, hist=hist, cyc=cyc),
                            C(120) + K("prev", "next", "bs", "killall"), view="hist", maxlen=2, maxundo=12,
                            maxdepth=12 if big else 8, cap=None if big else 350))
    hadd = [{"k": "hadd", "s": [122]}]
    ms.append(model("reads", base_cfg(w=40, hist=[[97], [98]]), C(120) + K("prev", "next") + [key(13), start([121])] + hadd,
                    view="hist", maxlen=2, maxhist=3, maxundo=9, maxdepth=10, cap=None if big else 400))
    w = dict(EDITW, hist=14, kill=2, undo=2, search=.4)

    def mk(r, i):
        alpha = alph(r, r.choice(["ascii", "text", "all"]))
        cfg = rnd_cfg(r, alpha, hist=similar(r, alpha, r.randint(0, 8)) if r.random() < .3 else texts(r, alpha, r.randint(0, 7)))
        sc = []
        for n in range(r.randint(1, 3)):
            for _ in range(r.choice([0, 0, 1, 2]) if n else 0):
                sc.append({"k": "hadd", "s": text_of(r, alpha, r.randint(0, 5))})
            sc.append(start(text_of(r, alpha, r.choice([0, 0, 3])), r.choice([0, 2, 20])))
            sc += walk(r, alpha, w, r.randint(5, 30))
        return {"cfg": cfg, "script": sc}
    js = jobs_of_walks(r, "w", 6000 if big else 450, mk)
    js += large(r, "g", 150 if big else 10, w)
    for i in range(40 if big else 4):       # a long history, from end to end
        n = r.choice([20, 35, 70, 130])
        cfg = rnd_cfg(r, ALPHA["text"], hist=texts(r, ALPHA["text"], n, 0, 4))
        sc = [start([120], 1)]
        for kk in ["prev"] * (n + 3) + ["next"] * (n + 3):
            sc += K(kk) + (C(97) if r.random() < .3 else [])
        js.append({"id": "h%d" % i, "cfg": cfg, "script": sc + [key(13)]})
    return ms, js


def plan_C04(r, big):
    hs = [[[97, 98], [98], [97, 97, 98], [65, 66]], [[97]], [], [[97], [97], [98], [97]], [[0xDF, 97], [0x17F, 75], [0x212A]]]
    ms = []
    for n, h in enumerate(hs):
        al = C(97, 98) if n < 4 else C(97, 107, 115, 0xDF)
        ms.append(model("hist%d" % n, base_cfg(w=60, hist=h), al + K("search", "bs", "left", "undo") +
                        [key(19), key(13), key(7), key(9)], first=start([120], 1), view="search", maxlen=4 if big else 3,
                        maxundo=4, maxq=3 if big else 2, maxdepth=11 if big else 8, cap=None if big else 500))
    w = dict(char=3, move=2, search=8, undo=2, hist=1, **{"del": 1})

    def cfgf(r, alpha):
        al = r.choice([alpha, [97, 98, 65, 66], [97, 98, 65, 0xDF, 0x17F, 107]])
        return rnd_cfg(r, alpha, hist=similar(r, al, r.randint(0, 9)) if r.random() < .4 else texts(r, al, r.randint(0, 8), 0, 5), w=r.choice([20, 40, 80]))
    js = jobs_of_walks(r, "w", 6000 if big else 400,
                       generic_walk(w, cfgf=cfgf, alphas=["simple", "ascii", "text", "all"], lens=(5, 30), reads=(1, 1)))
    js += large(r, "g", 150 if big else 12, w)
    for i in range(300 if big else 25):     # long search texts, taken from an entry, in a long history
        alpha = alph(r, r.choice(["simple", "ascii", "text", "wide"]))
        hist = texts(r, alpha, r.choice([3, 12, 50, 110]), 0, r.choice([30, 60, 90]))
        q = max((r.choice(hist) for _ in range(3)), key=len)
        lo = r.randint(0, max(0, len(q) - 1))
        q = [swapcase(c) if r.random() < .3 else c for c in q[lo:lo + r.choice([10, 20, 40, 70])]]
        sc = [start(text_of(r, alpha, 3), 2)] + K("search") + [ch(c) for c in q if c >= 32]
        for _ in range(r.randint(2, 8)):
            sc.append(r.choice([k("search"), k("search"), k("bs"), key(19), ch(r.choice(alpha))]))
        cut = r.randint(0, len(q))
        sc += K("bs") * cut + K("search") * r.choice([1, 3, 60]) + [key(19)] * r.choice([0, 1, 2, 60])
        js.append({"id": "q%d" % i, "cfg": rnd_cfg(r, alpha, hist=hist, w=r.choice([20, 80, 132])), "script": sc + [key(r.choice([13, 7]))] + K("undo") + [key(13)]})
    return ms, js


def plan_C05(r, big):
    nar = dict(w=8, prompt=[])
    ms = [model("narrow", base_cfg(**nar), C(97, 0x3042) + K("left", "right", "home", "end", "bs", "del", "rubout", "swap"),
                maxlen=5 if big else 4, ws=(8, 12)),
          model("tabs", base_cfg(**dict(nar, w=12)), C(97) + K("quote", "left", "right", "home", "bs", "killeol", "undo") + [key(9), key(1)],
                maxlen=4 if big else 3, ws=(12,)),
          model("wide", base_cfg(w=9, prompt=[62]), C(0x3042, 0x301) + K("left", "right", "home", "end", "bs", "killbol", "yank", "clear", "newrow"),
                maxlen=4, ws=(9,)),
          model("emoji", base_cfg(w=16, prompt=[62]), C(0x1F468, 0x200D, 0xFE0F, 97) + K("left", "right", "bs", "home"),
                maxlen=3, maxflat=5 if big else 4, ws=(16,))]
    w = dict(char=5, word=6, move=12, kill=1.5, undo=1.5, swap=1, yank=1, hist=1, search=.3, redraw=.7, junk=.3, **{"del": 3})

    def cfgf(r, alpha):
        return rnd_cfg(r, alpha, w=r.choice([7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 30]), scr=r.random() < .15,
                       pred=r.choice(["off", "off", "off", "hist"]))
    js = jobs_of_walks(r, "w", 7000 if big else 550, generic_walk(w, cfgf=cfgf, lens=(10, 40), reads=(1, 2), defs=(0, 3, 8, 20)))
    js += large(r, "g", 150 if big else 16, w)
    return ms, js


CLASSES = {
    "wt": [97, 0x3042, 9, 1, 127, 0x9B, 0x301, 0x1F468, 0x200D, 0xFE0F, 0x20E3, 0x1F3FB, 0x1F1EF, 0x1F3F3, 0x1D400],
    "wez": [97, 9, 27, 0x85, 0x1F468, 0x200D, 0xFE0F, 0x1F3FB, 0x2500, 0x3B1],
    "contour": [97, 9, 1, 0x1F468, 0x200D, 0xFE0F, 0x1F3FB, 0x2500, 0x1F3F3],
    "plain": [97, 9, 27, 0x9B, 0x1F468, 0x200D, 0xFE0F, 0x20E3, 0x2500],
}


def class_strings(maxlen):
    for env, cl in CLASSES.items():
        for n in range(1, maxlen + 1):
            for t in itertools.product(cl, repeat=n):
                yield env, list(t)


def spread(r, items, n):
    items = list(items)
    if len(items) <= n:
        return items
    return r.sample(items, n)


def bounds():
    """Characters next to one of another kind or width."""
    out, last = [], None
    for c in range(0x110000):
        if 0xD800 <= c < 0xE000:
            continue
        kind = (unicodedata.category(chr(c)), unicodedata.east_asian_width(chr(c)))
        if kind != last and c:
            out += [c - 1 if c != 0xE000 else c, c]
        last = kind
    return sorted(set(out))


BOUNDS = bounds()


def sweep(r, big):
    """Texts with every character of the lower planes and some of the others."""
    cp = list(range(0x3400)) + list(range(0xA480, 0xAC00)) + list(range(0xD7A0, 0xD800)) + list(range(0xF8F0, 0x10000)) + list(range(0x1F000, 0x1FB00)) + \
        list(range(0xE0000, 0xE01F0)) + [0xE000, 0x10FFFF, 0x10FFFE, 0x20000, 0x2FFFF, 0x1D165, 0x1D173, 0x110BD]
    cp += [c for c in BOUNDS if not (c < 0x3400 or 0x1F000 <= c < 0x1FB00)]
    cp += list(range(0x1D400, 0x1D800))
    cp += [r.randrange(0x3400, 0xD7A0) for _ in range(300)] + [r.randrange(0x10000, 0x110000) for _ in range(600)]
    r.shuffle(cp)
    step = 25
    return [cp[n:n + step] for n in range(0, len(cp), step)]


def point_strings(r, big):
    """(terminal, text) with every character, alone and in combinations."""
    out = []
    for i, t in enumerate(sweep(r, big)):
        for env in (ENVS if big else [ENVS[i % 4]]):
            out.append((env, t))
        for c in (t if big else r.sample(t, 4)):
            a, b, x = r.choice(COMB), r.choice(EMOJI + [97, 9]), r.choice(t)
            out.append((r.choice(ENVS), r.choice([[c, a], [b, 0x200D, c], [c, 0x200D, x], [c, a, x], [c, 9, x], [b, c, a], [c, 0x200D, x, a]])))
    return out


def plan_C06(r, big):
    js = []
    for i, t in enumerate(sweep(r, big)):
        for env in (ENVS if big else [ENVS[i % 4]]):
            js.append({"id": "u%d%s" % (i, env), "cfg": base_cfg(env=env, w=400, hist=[[97] + t], pred="hist" if i % 2 else "off"),
                       "script": [start(t, 9)] + K("end", "killall") + [ch(97), key(13)]})
    for i, (env, t) in enumerate(spread(r, class_strings(3), 20000 if big else 1300)):
        cfg = base_cfg(env=env, w=60, hist=[t, [97] + t], pred="hist" if i % 3 == 0 else "off", clip=t)
        sc = [start(t, 99)] + K("left", "bs", "undo", "killall", "yank", "prev", "killall") + [ch(97)] + K("search") + \
            [key(t[0])] + [key(13), key(13)]
        js.append({"id": "s%d" % i, "cfg": cfg, "script": sc})
    for i in range(400 if big else 40):     # hostile texts far to the right, in the line, the search prompt and the prediction
        t = text_of(r, [97, 98, 32, 0x3042], r.choice([20, 50, 90])) + text_of(r, CTRLS + ODD + COMB + [91, 97], 8) + text_of(r, ALPHA["all"], 20)
        cfg = base_cfg(env=r.choice(ENVS), w=r.choice([80, 132, 300]), hist=[t], clip=t, pred=r.choice(["off", "hist"]))
        sc = [start(t[:3], 99)] + K("end", "right", "undo", "search") + [key(t[1]), key(t[2]), key(13)] + K("home", "end", "wordl", "wordl", "killall", "yank", "left")
        js.append({"id": "f%d" % i, "cfg": cfg, "script": sc + [key(13)]})
    w = dict(EDITW, char=10, yank=3, clip=2, hist=3, search=1.5)

    def cfgf(r, alpha):
        return rnd_cfg(r, alpha, pred=r.choice(["off", "hist", "custom"]), color=r.choice(["none", "none", "rec", "vim"]))
    js += jobs_of_walks(r, "w", 5000 if big else 250, generic_walk(w, cfgf=cfgf, alphas=["ctrl", "emoji", "all", "tab"]))
    ms = [model("control", base_cfg(w=60), C(97, 0x9B, 0x200D, 0xFE0F) + K("quote", "bs", "left") + [key(27), key(1)], maxlen=3,
                maxflat=4 if big else 3, ws=(60,)),
          model("search", base_cfg(w=60, hist=[[27, 97], [97, 0x9B]], env="wez"), C(97, 0x9B) + K("search", "bs") + [key(27), key(13)],
                view="search", maxlen=3, maxflat=4, maxq=2, maxdepth=9, ws=(60,))]
    return ms, js


def plan_C07(r, big):
    """The editor part: every way a text gets in and out again."""
    js = []
    for i, (env, t) in enumerate(spread(r, class_strings(3), 16000 if big else 900)):
        cfg = base_cfg(env=env, w=80, hist=[t], clip=t)
        sc = [start(t, 99)] + K("killbol", "yank", "undo", "undo", "prev", "home", "killeol", "yank", "left", "swap", "undo") + [key(13)]
        sc += [start()] + [it for c in t for it in (quoted(c))] + K("killbol", "yankv") + [key(13)]
        js.append({"id": "s%d" % i, "cfg": cfg, "script": sc})
    w = dict(EDITW, char=8, yank=3, undo=3, hist=3, clip=1, search=.6)
    js += jobs_of_walks(r, "w", 5000 if big else 250, generic_walk(w, alphas=["ctrl", "emoji", "all", "text"]))
    ms = [model("split-" + env, base_cfg(env=env, w=80), C(97, 0x1F468, 0x200D, 0xFE0F, 0x1F3FB) + K("quote", "bs", "left", "undo") + [key(1)],
                maxlen=3, maxflat=4 if big else 3, ws=(80,)) for env in ENVS]
    return ms, js


def plan_C08(r, big):
    js, n = [], 0
    body = {"edit": K("left"), "quote": K("quote"), "search": K("search"), "search2": K("search") + C(97),
            "hist": K("prev"), "undo": K("undo"), "comp": K("tab"), "yank": K("yank"), "empty": K("killall"), "none": []}
    ends = {"enter": key(13), "intr": key(3), "eof": key(4), "err": {"k": "err"}, "enter2": key(10)}
    comp = {"cands": [[97, 98], [97, 99]], "bases": [], "enc": [], "del": [], "post": [], "list": True, "on": True}
    for env in (ENVS if big else ["wt"]):
        for t in ([], [97], [97, 0x3042, 32]):
            for lf in (True, False):
                for pred in ("off", "hist"):
                    for bname, b in body.items():
                        for ename, en in ends.items():
                            cfg = base_cfg(env=env, w=20, lf=lf, pred=pred, hist=[[97, 0x3042, 32, 98]], comp=comp, clip=[122])
                            n += 1
                            js.append({"id": "e%d" % n, "cfg": cfg, "script": [start(t, 99)] + b + [en, en, start([98])] + C(99) + [key(13)]})
    for f in ("open", "size"):
        for lf in (True, False):
            for w in (20, 1, 0):
                n += 1
                st = dict(start([97], 1), fail=f)
                js.append({"id": "f%d" % n, "cfg": base_cfg(w=w, lf=lf), "script": [st, start([98])] + C(99) + [key(13)] + [st, start([98]), key(4)]})
    w = dict(EDITW, search=1, tab=.5, clip=.4)

    def mk(r, i):
        alpha = alph(r, r.choice(["ascii", "text", "all"]))
        cfg = rnd_cfg(r, alpha, lf=r.random() < .7, pred=r.choice(["off", "hist"]), comp=comp_cfg(r, alpha))
        sc = []
        for _ in range(r.randint(1, 4)):
            sc.append(start(text_of(r, alpha, r.choice([0, 0, 3])), r.choice([0, 2, 20])))
            if r.random() < .1:
                sc[-1]["fail"] = r.choice(["open", "size"])
                continue
            sc += walk(r, alpha, w, r.randint(0, 12), end=False)
            sc.append(r.choice([key(13), key(3), key(4), {"k": "err"}]))
            sc.append(key(13))
        return {"cfg": cfg, "script": sc}
    js += jobs_of_walks(r, "w", 6000 if big else 350, mk)
    ms = [model("ends", base_cfg(w=30, hist=[[98]]), C(97) + K("left", "bs", "quote", "search", "prev", "undo", "killall") +
                [key(13), key(3), key(4), key(10), key(7), start([98]), start()], view="search", maxlen=2, maxundo=3, maxq=1,
                maxdepth=10 if big else 7, cap=None if big else 900)]
    return ms, js


CANDS = [
    [], [[97, 98, 99]], [[97, 98, 99], [97, 98, 100]], [[97, 98], [97, 98, 99], [65, 66, 67, 100]], [[65, 66, 67], [97, 98, 68]],
    [[97, 32, 98], [97, 32, 99]], [[97, 32, 98]], [[97, 59, 98]], [[98], [99]], [[97], [98]], [[], [97]],
    [[0x17F, 97], [115, 98]], [[107, 97], [0x212A, 98]], [[0x3B8, 97], [0x3F4, 97, 98]], [[0x3042, 97], [0x3042, 98]],
    [[0x1F468, 0x200D, 0x1F469], [0x1F468, 97]], [[97, 0x301, 98], [97, 0x301]], [[0x23A, 97], [0x2C65, 98]],
    [[97, 98, 99], [97, 98, 99]], [[0x130, 97], [105, 98]], [[39, 97], [34, 97]],
    [[59, 97]], [[59, 97], [59, 98, 59]], [[61, 97], [97, 61]], [[47]], [[97, 11, 98]],
]


def plan_C12(r, big):
    js, n = [], 0
    words = [[], [97], [65], [97, 98], [97, 98, 99], [115], [83], [107], [75], [0x3B8], [0x3042], [34, 97], [39, 97, 32], [97, 34], [120],
             [0x1F468], [105], [34, 34], [34], [0x2C65], [0x300C, 97], [96, 97], [39, 34, 97], [59], [97, 59], [97, 11], [120, 61, 97]]
    pres = [[], [120, 32], [120, 59], [34, 120, 32, 121, 34, 32], [32, 32], [0x3042, 32], [120, 9], [120, 11], [12, 120, 13], [120, 10, 10],
            [59, 59], [120, 59, 32], [97, 61], [39, 34, 39, 32], [96, 120, 32, 96], [34, 39, 32, 39, 34], [96, 34, 32, 96], [120, 0x3000]]
    sufs = [[], [32, 122], [122]]
    encs = [[], [34], [34, 39], [0x300C, 34], [34, 39, 96], [96]]
    dels = [[], [59], [38, 59, 0x3001], [47, 61]]
    posts = [[], [32]]
    combos = list(itertools.product(range(len(CANDS)), words, pres, sufs, encs, dels, posts, (False, True)))
    for ci, w, p, s, enc, de, po, ls in (combos if big and len(combos) < 30000 else r.sample(combos, 25000 if big else 2600)):
        n += 1
        comp = {"cands": CANDS[ci], "bases": [c[:2] + [47] for c in CANDS[ci]] if n % 7 == 0 else [], "enc": enc, "del": de, "post": po,
                "list": ls, "on": True}
        cfg = base_cfg(w=60, h=12, comp=comp, scr=ls)
        js.append({"id": "c%d" % n, "cfg": cfg, "script": [start(p + w + s, len(p + w))] + K("tab", "tab", "undo", "undo")})
    wts = dict(char=6, word=2, move=3, tab=8, undo=3, **{"del": 2})

    def cfgf(r, alpha):
        return rnd_cfg(r, alpha, comp=comp_cfg(r, alpha), w=r.choice([20, 60]), scr=r.random() < .3)
    js += jobs_of_walks(r, "w", 5000 if big else 300,
                        generic_walk(wts, cfgf=cfgf, alphas=["simple", "ascii", "text", "emoji", "tab"], reads=(1, 1)))
    for c in [x for x in range(33, 127) if not chr(x).isalnum()] + [55, 0xA5, 0x3001, 0x2019, 0xFF02]:      # each other mark, in the line and in candidates
        for _ in range(40 if big else 12):
            al = [97, 98, 32, 34, c, c]
            w = text_of(r, al, r.choice([0, 1, 2]))
            pre, suf = text_of(r, al, r.randint(0, 5)) if r.random() < .3 else around(c, r.choice(AROUND)), r.choice([[], [c], [32, 122]])
            cands = [w + text_of(r, al, r.choice([0, 1, 2, 3])) + r.choice([[], [], [c]]) for _ in range(r.choice([1, 1, 2, 3]))]
            n += 1
            comp = {"cands": [[x for x in y if x != 34] for y in cands] if r.random() < .6 else cands, "bases": [], "enc": r.choice([[34], [34, 39], [c, 34], [34, c], []]),
                    "del": r.choice([[], [59], [c], [38, c]]), "post": r.choice([[], [32], [c]]), "list": False, "on": True}
            js.append({"id": "s%d" % n, "cfg": base_cfg(w=60, comp=comp), "script": [start(pre + w + suf, len(pre + w))] + K("tab", "tab", "undo", "undo")})
    for c in [x for x in range(33, 127) if not chr(x).isalnum()] + [55, 0x3001, 0x2019]:      # each mark within a candidate that is completed
        for cands in ([[97, 98, c]], [[97, c, 98]], [[97, c]], [[97, 98, c], [97, 98, c, 99]], [[97, 98, c], [98]]):
            for po in ([], [32]):
                for de in ([], [c]) if big else (r.choice([[], [], [c]]),):
                    n += 1
                    comp = {"cands": cands, "bases": [], "enc": [34, 39], "del": de, "post": po, "list": False, "on": True}
                    js.append({"id": "k%d" % n, "cfg": base_cfg(w=60, comp=comp), "script": [start([97], 1)] + K("tab", "tab", "undo")})
        for t in AROUND:                # and within what precedes the word
            pre = around(c, t)
            n += 1
            comp = {"cands": [[97, 98, 99]], "bases": [], "enc": [34], "del": [], "post": [32], "list": False, "on": True}
            js.append({"id": "a%d" % n, "cfg": base_cfg(w=60, comp=comp), "script": [start(pre, len(pre))] + K("tab", "undo")})
    for i in range(300 if big else 30):     # many candidates, long candidates
        alpha = r.choice([[97, 98], [97, 65, 98, 0x3042], [97, 98, 32, 34]])
        pre = text_of(r, alpha, r.choice([1, 5, 20]))
        cands = [pre + text_of(r, alpha, r.choice([0, 1, 3, 12])) for _ in range(r.choice([2, 10, 35, 70, 150, 300]))]
        cands += [text_of(r, alpha, 4) for _ in range(r.choice([0, 0, 5]))]
        if r.random() < .5:     # only the last one differs early
            cands.append(pre[:-1] + [120])
        ls = r.random() < .5
        comp = {"cands": cands, "bases": [], "enc": r.choice([[34], [34, 39]]), "del": r.choice([[], [59]]), "post": [32], "list": ls, "on": True}
        js.append({"id": "m%d" % i, "cfg": base_cfg(w=r.choice([80, 132]), h=max(100, 2 * len(cands) + 20) if ls else 12, comp=comp, scr=ls),
                   "script": [start(pre[:r.randint(0, len(pre) - 1)], 99)] + K("tab", "tab", "undo", "tab")})
    ms = [model("quotes", base_cfg(w=60, comp={"cands": [[97, 98], [97, 32, 98], [65, 99]], "bases": [], "enc": [34, 39], "del": [59],
                                               "post": [32], "list": False, "on": True}),
                C(97, 32, 34, 59) + K("left", "tab", "undo"), maxlen=4 if big else 3, ws=(60,), over=True),
          model("case", base_cfg(w=60, comp={"cands": [[0x17F, 98], [83, 98, 99], [115, 66]], "bases": [], "enc": [34], "del": [],
                                             "post": [32], "list": True, "on": True}, scr=True),
                C(115, 98, 32) + K("left", "tab"), maxlen=4 if big else 3, ws=(60,), over=True),
          model("marks", base_cfg(w=60, comp={"cands": [[97, 98], [97, 98, 96], [97, 98, 34, 32]], "bases": [], "enc": [34, 39, 96], "del": [],
                                              "post": [], "list": False, "on": True}),
                C(97, 32, 34, 39, 96) + K("tab"), maxlen=5 if big else 4, ws=(60,), over=True, cap=None if big else 1500),
          model("delimiters", base_cfg(w=60, comp={"cands": [[97, 98], [97, 61, 98], [61, 97]], "bases": [[98]] * 3, "enc": [34], "del": [61, 47],
                                                   "post": [47], "list": True, "on": True}, scr=True),
                C(97, 32, 61, 47, 34) + K("tab", "left"), maxlen=4 if big else 3, ws=(60,), over=True, cap=None if big else 1500)]
    return ms, js


def plan_C14(r, big):
    ms = []
    hs = [[[97, 98], [97, 0x3042], [97, 98, 99, 32, 100]], [[97], [97, 97], [98]], [[97, 0x200D, 98], [0x1F468, 0x200D, 0x1F469], [97, 9, 27]]]
    for n, h in enumerate(hs):
        for pred in ("hist", "custom", "off"):
            if pred == "off" and n:
                continue
            al = C(97, 98) if n < 2 else C(97, 0x1F468, 0x200D)
            ms.append(model("%s%d" % (pred, n), base_cfg(w=20 if n else 9, hist=h, pred=pred, prompt=[62]),
                            al + K("left", "right", "rightc", "bs", "home", "end", "undo", "wordr"), maxlen=4 if big else 3, maxflat=5,
                            ws=(20,), over=True, maxdepth=14, cap=None if big else 300))
    w = dict(char=8, word=2, move=8, undo=2, hist=1.5, kill=1, search=.3, redraw=.3, resize=.3, swap=.5, yank=.5, **{"del": 2})

    def mk(r, i):
        alpha = alph(r, r.choice(["simple", "simple", "ascii", "text", "all"]))
        al2 = alpha[:3]
        cfg = rnd_cfg(r, alpha, pred=r.choice(["hist", "hist", "custom", "off"]), w=r.choice([10, 12, 15, 20, 40]),
                      hist=similar(r, al2, r.randint(0, 9)) if r.random() < .3 else texts(r, al2, r.randint(0, 6), 0, 9) + texts(r, alpha, r.randint(0, 2), 0, 9))
        sc = []
        for _ in range(r.randint(1, 2)):
            sc.append(start(text_of(r, al2, r.choice([0, 0, 2])), r.choice([0, 1, 20])))
            wk = walk(r, al2 if r.random() < .7 else alpha, w, r.randint(5, 25), resize_widths=[10, 12, 20, 40])
            for it in wk:
                sc.append(it)
                if r.random() < .25:
                    sc.append(k(r.choice(["right", "rightc", "end"])))
        return {"cfg": cfg, "script": sc}
    js = jobs_of_walks(r, "w", 6000 if big else 450, mk)
    js += large(r, "g", 150 if big else 12, w, cfgf=lambda r, a: rnd_cfg(r, a, pred=r.choice(["hist", "custom"])), resize_widths=[40, 90, 250])
    for c in list(range(0, 161)) + [0x301, 0x200B, 0x200D, 0x2028, 0x3000, 0xFEFF, 0xFFFD, 0x1F468, 0x1F3FB]:     # each character in a prediction
        for h in ([97, c, 98], [97, 98, c], [c, 97, c, 98]):
            sc = [start(h[:1] if c == h[0] else [], 9)] + C(97) + K("left", "end", "right", "undo") + [key(13)]
            js.append({"id": "c%d-%d" % (c, h.index(c)), "cfg": base_cfg(w=30, pred="hist", hist=[[97, 120, c], h], env=r.choice(ENVS)), "script": sc})
    for i in range(200 if big else 15):     # the entry that fits is far back in the history, or the text is long
        alpha = alph(r, r.choice(["simple", "ascii", "text", "emoji"]))
        hist = texts(r, alpha, r.choice([10, 60, 130, 300]), 1, r.choice([4, 12]))
        e = text_of(r, alpha, r.choice([5, 30, 90]))
        hist.insert(r.choice([0, 0, 1, len(hist) // 2]), e)
        n = r.randint(1, len(e) - 1)
        cfg = rnd_cfg(r, alpha, pred="hist", hist=hist, w=r.choice([20, 40, 80, 200]))
        sc = [start(e[:max(0, n - 3)], 999)]
        for c in e[max(0, n - 3):n]:
            sc += quoted(c) if c < 32 else [ch(c)]
        js.append({"id": "d%d" % i, "cfg": cfg, "script": sc + K("left", "right", "right", "undo", "bs", "end", "right") + [key(13)]})
    return ms, js


COLORS = ["rec", "rec", "vim", "def", "def", "mono"]


def plan_C15(r, big):
    ms = [model("rec", base_cfg(w=12, color="rec", prompt=[62]), C(97, 98, 0x3042) + K("left", "right", "home", "bs", "del", "swap"),
                maxlen=4 if big else 3, ws=(12,)),
          model("vim", base_cfg(w=12, color="vim", prompt=[]), C(34, 37, 38, 0x3000) + K("left", "right", "bs", "undo"),
                maxlen=3, ws=(12,)),
          model("emoji", base_cfg(w=14, color="rec", prompt=[]), C(97, 0x1F468, 0x200D, 0x1F3FB) + K("left", "right", "bs", "home"),
                maxlen=3, maxflat=4, ws=(14,)),
          model("def", base_cfg(w=12, color="def", prompt=[27, 91, 51, 49, 109, 62]), C(96, 97, 98, 99) + K("left", "home", "bs"), maxlen=3, ws=(12,))]
    w = dict(EDITW, word=5, move=10, hist=1, search=.3, redraw=.4, resize=.3)

    def cfgf(r, alpha):
        return rnd_cfg(r, alpha, color=r.choice(COLORS), w=r.choice([9, 10, 12, 14, 20, 30]), pred=r.choice(["off", "off", "hist"]),
                       prompt=r.choice([[62, 32], [], [0x3042, 62], [27, 91, 51, 49, 59, 52, 51, 109, 62], [27, 91, 49, 109, 62, 27, 91, 48, 109]]))
    js = jobs_of_walks(r, "w", 6000 if big else 500, generic_walk(w, cfgf=cfgf, lens=(8, 35), resize_widths=[10, 12, 20], defs=(0, 3, 12)))
    js += large(r, "g", 150 if big else 12, w, cfgf=lambda r, a: rnd_cfg(r, a, color=r.choice(COLORS)), resize_widths=[40, 90, 250])
    return ms, js


CLIPS = [[], [120], [120, 10], [13, 10], [120, 13, 10, 0], [97, 32, 98], [34, 32, 97], [97, 32, 34, 98, 34], [97, 32, 13, 10, 98, 10],
         [0x1F468, 0x200D], [0x200D, 97], [10, 97], [32], [34], [97, 13, 10, 32, 98, 13, 10, 99], [97, 32, 10, 98, 10, 99, 10, 10], [97, 13, 10, 13, 10, 32],
         [34, 13, 10, 34, 32, 34], [97, 32, 13, 98, 13], [9, 97], [97, 9], [92, 34, 32], [97, 32, 39, 98, 39]]


def clipev(s, fr=False, fw=False):
    return {"k": "clip", "s": list(s), "fr": fr, "fw": fw}


def plan_C16(r, big):
    keys = K("left", "right", "killeol", "killbol", "rubout", "yank", "yankq", "undo", "del", "bs", "swap", "killall")
    ms = [model("kills", base_cfg(w=60), C(97, 32) + keys, view="line", maxlen=3, maxdepth=12 if big else 8, ws=(60,), over=True, cap=None if big else 1500),
          model("faults", base_cfg(w=60, clip=[120]), C(97) + K("left", "killeol", "killbol", "rubout", "yank", "yankq") +
                [clipev([121, 32], fr=True), clipev([122], fw=True), clipev([122, 10])],
                view="line", maxlen=3, maxdepth=10 if big else 7, ws=(60,), over=True, cap=None if big else 900)]
    js = []
    for i, c in enumerate(CLIPS):
        for t in ([], [97], [97, 32, 98], [0x3042, 0x301]):
            for yk in ("yank", "yankq", "yankv"):
                js.append({"id": "y%d-%d-%s" % (i, len(t), yk), "cfg": base_cfg(w=60, clip=c),
                           "script": [start(t, 1)] + K(yk, "killbol", "yank", "undo", yk, "killeol", "rubout", yk) + [key(13)]})
    w = dict(EDITW, kill=7, yank=6, clip=3)
    js += jobs_of_walks(r, "w", 6000 if big else 400, generic_walk(w, clip_alpha=ALPHA["all"] + [10, 13, 34, 32, 32, 34]))
    js += large(r, "g", 150 if big else 12, w) + bulk(r, "b", 100 if big else 10)
    return ms, js


def plan_C17(r, big):
    w = dict(EDITW, search=1, clip=1, redraw=1, resize=2, tab=1, undo=3, hist=2)

    def mk(r, i):
        alpha = alph(r, r.choice(["all", "all", "emoji", "ctrl", "tab", "text"]))
        prompts = [[], [62], [0x3042] * r.randint(0, 12), [97] * r.randint(0, 40), [27, 91, 51, 49, 109, 97], [10, 97], [27, 93, 48, 59, 97, 7]]
        cfg = rnd_cfg(r, alpha, w=r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 40]), prompt=r.choice(prompts), nilp=r.random() < .1,
                      pred=r.choice(["off", "hist", "custom"]), color=r.choice(["none", "rec", "vim"]), h=r.choice([1, 2, 12]),
                      comp=comp_cfg(r, alpha) if r.random() < .5 else base_cfg()["comp"],
                      hist=texts(r, alpha, r.randint(0, 5), 0, 12))
        sc = []
        for _ in range(r.randint(1, 3)):
            sc.append(start(text_of(r, alpha, r.choice([0, 3, 12])), r.choice([0, 2, 5, 99])))
            sc += walk(r, alpha, w, r.randint(5, 30), resize_widths=[0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 60])
        if r.random() < .4:      # a terminal can deliver any bytes
            # (resizes are left out: a nested prompt may then be open at any place)
            sc = [it for it in sc if it["k"] != "resize"]
            for j, it in enumerate(sc):
                if it["k"] == "key" and r.random() < .08:
                    sc[j] = dict(it, b=[r.choice([0x80, 0xFF, 0xC3, 0xE3, 0x1B, 0x61]) for _ in range(r.randint(0, 3))])
        return {"cfg": cfg, "script": sc}
    js = jobs_of_walks(r, "w", 8000 if big else 900, mk)
    for i in range(24 if big else 6):       # long lines
        alpha = alph(r, r.choice(["all", "wide", "tab", "emoji"]))
        cfg = rnd_cfg(r, alpha, w=r.choice([3, 12, 80]))
        sc = [start(text_of(r, alpha, r.choice([300, 1000]) if big else 200), r.choice([0, 100, 99999]))]
        sc += walk(r, alpha, dict(move=6, char=2, kill=.3, undo=2, swap=1, **{"del": 2}), 15)
        js.append({"id": "long%d" % i, "cfg": cfg, "script": sc})
    ms = [model("tiny%d" % w_, base_cfg(w=w_, prompt=[62]), C(97, 0x3042) + K("left", "right", "bs", "swap", "killeol", "undo", "rubout", "search") +
                [key(9), key(13)], maxlen=2, ws=(12,), maxdepth=8, cap=None if big else 120) for w_ in range(0, 7)]
    return ms, js


PIECES = [[97], [0x3042], [27, 91, 51, 49, 109], [27, 93, 48, 59, 97, 98, 7], [27, 93, 50, 59, 120, 27, 92], [8], [13], [10], [27, 40, 66],
          [27, 61], [32], [27, 91, 48, 59, 51, 50, 109], [0x1F468], [27, 91, 63, 50, 53, 104], [27, 91, 75], [0x301], [27, 91, 49, 59, 50, 59, 51, 109], [27, 91, 50, 126],
          [27, 93, 48, 59, 27, 92], [27, 93, 56, 59, 59, 104, 58, 47, 47, 91, 109, 27, 92], [27, 91, 109], [27, 55], [27, 41, 48], [0xE9], [126], [91], [9], [7]]


def tab_over(t, rows=(10, 13)):
    """A tab moves over what an earlier row left there, when it is written on the same row."""
    return 9 in t and any(c in rows for c in t[:len(t) - 1 - t[::-1].index(9)])


def prompt_ok(t):
    """Prompts whose effect the terminal model and the specification agree on:
    a backspace only over a narrow character, a combining one only after text."""
    for i, c in enumerate(t):
        if c == 8 and (i == 0 or t[i - 1] != 97):
            return False
        if c == 0x301 and (i == 0 or t[i - 1] not in (97, 0x3042)):
            return False
    return True


def prompt_job(r, n, p, env):
    cfg = base_cfg(env=env, w=r.choice([8, 10, 12, 40]), prompt=p, color=r.choice(["none", "rec"]))
    sc = [start([97, 98], 1)] + C(99) + K("end", "clear", "left", "newrow", "home") + C(0x3042)
    if n % 2 and not tab_over(p):
        sc += [{"k": "resize", "w": r.choice([10, 14, 40])}, k("end"), k("clear")]
    return {"id": "p%s%d" % (env, n), "cfg": cfg, "script": sc}


def plan_C18(r, big):
    js, n = [], 0
    for m in range(0, 45):      # too wide prompts
        for q in ([97], [0x3042], [97, 27, 91, 51, 49, 109]):
            n += 1
            sc = [start([97] * 3, 99)] + C(98, 99, 100) + K("home", "clear", "end", "newrow") + C(97) + [{"k": "resize", "w": r.choice([20, 50])}, k("clear")] + K("home")
            js.append({"id": "n%d" % n, "cfg": base_cfg(w=r.choice([9, 20, 40]), prompt=q * m), "script": sc})
    for i in range(200 if big else 40):         # long prompts: text, rows, titles, parameters
        m = r.choice([30, 70, 120, 130, 260, 300])
        p = r.choice([[97] * m, [0x3042] * (m // 2), [97, 0x3042] * (m // 3), [27, 93, 48, 59] + [97] * m + [7, 62], [27, 93, 48, 59] + [0x3042] * m + [27, 92, 62],
                      [27, 91] + [51, 49, 59] * m + [49, 109, 62], [27, 91, 51, 49, 109] * m + [62], ([98] * 9 + [10]) * (m // 10) + [62], [97, 8] * m + [62],
                      [27, 91, 49, 109] + [97] * m + [27, 91, 48, 109]])
        sc = [start([97] * r.choice([3, 30]), r.choice([1, 99]))] + C(98, 0x3042) + K("home", "clear", "end", "newrow") + C(97) + K("home")
        js.append({"id": "l%d" % i, "cfg": base_cfg(w=r.choice([20, 132, 200, 280, 400]), prompt=p, env=r.choice(ENVS)), "script": sc})
    w = dict(EDITW, redraw=6, resize=.7)

    def cfgf(r, alpha):
        while True:
            p = sum([r.choice(PIECES) for _ in range(r.randint(0, 8))], [])
            if prompt_ok(p) and not tab_over(p):
                c = rnd_cfg(r, alpha, prompt=p, nilp=r.random() < .1)
                if 8 in p:          # erases narrow characters only
                    c["ov"] = [o for o in c["ov"] if o["cp"] != 97]
                return c
    js += jobs_of_walks(r, "w", 4000 if big else 250, generic_walk(w, cfgf=cfgf, alphas=["ascii", "wide", "text"], resize_widths=[12, 20, 40]))
    ms = []
    return ms, js


def plan_C20(r, big):
    w = dict(EDITW, undo=4, hist=5, search=1, char=6, clip=.3, redraw=.3)

    def mk(r, i):
        alpha = alph(r, r.choice(["simple", "ascii", "text", "all", "emoji"]))
        cfg = rnd_cfg(r, alpha, pred=r.choice(["off", "off", "hist"]), color=r.choice(["none", "none", "rec"]), hist=texts(r, alpha, r.randint(0, 4)))
        sc = []
        for n in range(r.randint(3, 6)):
            if n and r.random() < .4:
                sc.append({"k": "hadd", "s": text_of(r, alpha, r.randint(0, 5))})
            st = start(text_of(r, alpha, r.choice([0, 0, 3, 8])), r.choice([0, 1, 2, 20]))
            if n and r.random() < .2:
                st["w"] = r.choice([12, 20, 40])
            if n and r.random() < .1:
                st["fail"] = r.choice(["open", "size"])
                sc.append(st)
                continue
            if r.random() < .3:
                del st["cur"]
            sc.append(st)
            if r.random() < .5:
                sc += r.choice([K("undo", "undo"), K("prev", "next"), K("right"), C(0x1F468), K("yank"), C(0xFE0F), C(97)])
            sc += walk(r, alpha, w, r.randint(0, 10), end=False)
            sc += r.choice([[], [], K("quote"), K("search"), C(0x200D), K("search") + C(97), K("prev")])
            sc.append(r.choice([key(13), key(13), key(3), key(4), {"k": "err"}, {"k": "err"}]))
            sc.append(key(13))
        return {"cfg": cfg, "script": sc}
    js = jobs_of_walks(r, "w", 5000 if big else 450, mk)
    js += large(r, "g", 100 if big else 6, w)
    starts = [start([98], 1), start([97, 0x3042], 9), start()]
    ms = [model("reads", base_cfg(w=30, hist=[[97]]), C(97) + K("undo", "prev", "bs", "quote") + [key(13), key(3)] + starts +
                [{"k": "hadd", "s": [99]}], view="hist", maxlen=3, maxhist=2, maxundo=4, maxdepth=10 if big else 7, cap=None if big else 900),
          model("joiner", base_cfg(w=30), C(0x1F468, 0x200D, 0xFE0F) + [key(13), key(4)] + [start(), start([0x1F468], 9)], maxlen=2, maxflat=4,
                maxdepth=9)]
    return ms, js


def call(*cs, rc=0):
    return {"k": "call", "cs": [dict({"p": 0, "n": 0, "s": []}, op=c[0], **(c[1] if len(c) > 1 else {})) for c in cs], "rc": rc}


INNER = ["left", "right", "home", "end", "bs", "del", "killeol", "killbol", "rubout", "swap", "wordl", "wordr", "yank", "prev", "next", "undo"]


def rnd_call(r, alpha, ends=True):
    cs = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        op = r.choice(["ins", "ins", "del", "del", "rep", "rep", "insr", "sub", "wid", "word", "word", "str", "cur", "cmd", "cmd", "after", "head",
                       "view", "last", "say", "suf", "vw", "none"])
        p = r.choice([0, 0, 1, 2, 3, 5, 8, 99])
        a = {"p": p, "n": r.choice([p, p + 1, p + 3, 99]) if op in ("sub", "wid") else r.choice([-1, 0, 1, 1, 2, 3, 99]), "s": []}
        if op in ("ins", "rep", "insr"):
            a["s"] = text_of(r, alpha, r.choice([0, 1, 1, 2, 4, 9]))
        elif op == "none":
            a["s"] = text_of(r, alpha, r.choice([0, 1, 3]))
        elif op == "cmd":
            a["s"] = KEYS[r.choice(INNER)]
        cs.append((op, a))
    return call(*cs, rc=r.choice([0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3]) if ends else 0)


# a character c next to quotation marks (q), blanks (s) and text (a)
AROUND = ["qcqsa", "qacqsa", "cqsqa", "qccqsa", "qscqsa", "acsa", "qcsqsa", "qqcsa", "acqsqsa", "qsacsqca"]


def around(c, t, q=34):
    return [{"q": q, "c": c, "s": 32, "a": 97}[x] for x in t]


def plan_C22(r, big):
    S = lambda *s: {"s": list(s)}
    evs = [call(("ins", {"p": 0, "s": [98, 32]})), call(("ins", {"p": 2, "s": [0x3042]}), ("cur", {"p": 9})), call(("del", {"p": 1, "n": 1})),
           call(("del", {"p": 0, "n": 2}), ("cur", {"p": 0}), ("ins", {"p": 1, "s": [97]})), call(("del", {"p": 0, "n": 9}), ("wid", {"p": 0, "n": 9})),
           call(("rep", {"p": 1, "s": [98, 99]}), ("word",)), call(("rep", {"p": 0})), call(("insr", S(34)), ("word",), ("sub", {"p": 1, "n": 2})),
           call(("str",), ("wid", {"p": 1, "n": 3}), ("head",)), call(("cur", {"p": 1}), ("view",)), call(("last",)), call(("say",)),
           call(("insr", S(97)), ("cmd", {"s": KEYS["bs"]}), ("cmd", {"s": KEYS["killeol"]}))]
    ms = [model("calls", base_cfg(w=30, clip=[120], hist=[[99]]), C(97, 32) + K("left", "undo") + evs, view="undo", maxlen=3 if big else 3, maxundo=4 if big else 3,
                maxdepth=9 if big else 6, cap=None if big else 1800, over=True),
          model("words", base_cfg(w=9, prompt=[62]), C(97, 32, 34, 39) + K("left") + [call(("word",)), call(("rep", {"p": 1, "s": [39, 32]}), ("word",)),
                call(("ins", {"p": 1, "s": [9, 1]}), ("after",), ("wid", {"p": 0, "n": 9}))], maxlen=4, ws=(9,), cap=None if big else 1200, over=True),
          model("ends", base_cfg(w=30), C(97) + [call(("insr", S(98)), rc=k_) for k_ in (0, 1, 2, 3)] + [call(rc=1), call(("del", {"p": 0, "n": 1}), rc=3),
                start([97, 98], 1), start()] + K("undo"), view="undo", maxlen=3, maxundo=3, maxdepth=8, over=True)]
    ms += [model("pred-" + pred, base_cfg(w=w_, prompt=[62], pred=pred, hist=[[97, 98, 99], [97, 97, 0x3042, 98, 98]]), C(97, 98) + K("left", "bs", "undo") +
                 [call(("insr", S(97)), ("suf",)), call(("ins", {"p": 0, "s": [97]}), ("cur", {"p": 9}), ("head",), ("suf",)), call(("ins", {"p": 9, "s": [98]}), ("after",), ("vw",)),
                  call(("del", {"p": 0, "n": 1}), ("head",), ("suf",)), call(("rep", {"p": 1, "s": [98]}), ("none", S(120))), call(("cur", {"p": 9}), ("suf",), ("vw",), ("last",), ("suf",)),
                  call(("none", S(97, 98)), ("str",)), call(("ins", {"p": 9, "s": [97]}), ("cur", {"p": 9}), ("last",))], maxlen=3, ws=(w_,), over=True, cap=None if big else 700)
           for pred, w_ in (("hist", 20), ("custom", 9))]
    w = dict(EDITW, undo=4, hist=1)

    def mk(r, i):
        alpha = alph(r, r.choice(["simple", "ascii", "tab", "text", "all", "emoji"]))
        cfg = rnd_cfg(r, alpha, w=r.choice([9, 12, 15, 20, 30, 80]), pred=r.choice(["off", "off", "hist"]), color=r.choice(["none", "none", "rec"]),
                      lf=r.random() < .7)
        sc = []
        for _ in range(r.randint(1, 2)):
            sc.append(start(text_of(r, alpha, r.choice([0, 3, 8, 20])), r.choice([0, 2, 20])))
            q = False
            for it in walk(r, alpha, w, r.randint(5, 25)):
                if not q and it["k"] == "key" and r.random() < .35:
                    sc.append(rnd_call(r, alpha))
                q = it["s"] in (KEYS["quote"], KEYS["quoteq"]) if it["k"] == "key" and not q else False
                sc.append(it)
        return {"cfg": cfg, "script": sc}
    js = jobs_of_walks(r, "w", 6000 if big else 500, mk) + large(r, "g", 100 if big else 6, w)
    for c in list(range(33, 127)) + [9, 1, 0xA0, 0x3000, 0x2019, 0xFF02, 0x301, 0x1F468]:      # words around each character
        sc = []
        for t in AROUND + (["qaq" + x for x in AROUND] if big else []):
            sc += [start(around(c, t), 1)] + ([call(("word",))] + K("right")) * (len(t) - 1) + [call(("word",)), key(13)]
        js.append({"id": "c%d" % c, "cfg": base_cfg(w=30, delims=[34, 39]), "script": sc})
    return ms, js


PLANS = {name[5:]: f for name, f in list(globals().items()) if name.startswith("plan_")}
