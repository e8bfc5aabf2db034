"""Input generators: random scripts of keys over the large alphabet."""
import unicodedata

KEYS = {
    "home": [1], "left": [2], "end": [5], "right": [6], "bs": [8], "killeol": [11],
    "clear": [12], "next": [14], "newrow": [15], "prev": [16], "quote": [22], "quoteq": [17],
    "search": [18], "swap": [20], "killbol": [21], "rubout": [23], "yank": [25], "undo": [31],
    "undoz": [26], "killall": [27], "del": [27, 91, 51, 126], "wordl": [27, 98], "wordr": [27, 102],
    "yankq": [27, 121], "yankv": [27, 118], "ctrld": [4], "bs2": [127],
    "up": [27, 91, 65], "down": [27, 91, 66], "rightc": [27, 91, 67], "leftc": [27, 91, 68],
    "homec": [27, 91, 72], "endc": [27, 91, 70], "wordlc": [27, 91, 49, 59, 53, 68],
    "wordrc": [27, 91, 49, 59, 53, 67], "tab": [9],
}
MOVES = ["home", "left", "end", "right", "wordl", "wordr", "leftc", "rightc", "homec", "endc", "wordlc", "wordrc"]
DELS = ["bs", "bs2", "del", "ctrld"]
KILLS = ["killeol", "killbol", "rubout", "killall"]

ASCII = [97, 98, 99, 65, 32, 32, 34, 39, 59]
WIDE = [0x3042, 0x6F22, 0x3000, 0xFF21]
NARROW = [0xE9, 0xDF, 0x3B1, 0x41F, 0x17F, 0x212A]
CTRLS = [0, 1, 9, 10, 13, 27, 31, 127, 0x80, 0x9B, 0x85]
ODD = [0x301, 0x200C, 0x2028, 0xAD, 0x202E, 0xFEFF, 0xE0001, 0xFFFD]
EMOJI = [0x1F468, 0x1F469, 0x2640, 0x1F33E, 0x1F3F3, 0x1F1EF, 0x1F1F5, 0x1D400, 0x23, 0x31]
COMB = [0xFE0F, 0x20E3, 0x1F3FB, 0x1F3FF, 0x200D, 0xFE0E, 0xE0100]
SPACES = [32, 9, 0xA0, 0x85, 0x1680, 0x2003, 0x2028, 0x202F, 0x205F, 0x3000, 0x200B, 0xFEFF, 0x2060, 0x180E]
BOX = [0x2500, 0x2502, 0x3B1]

ENVS = ["wt", "wez", "contour", "plain"]


def k(name):
    return {"k": "key", "s": KEYS[name]}


def ch(cp):
    return {"k": "key", "s": [cp]}


def quoted(cp):
    return [k("quote"), ch(cp)]


def base_cfg(**kw):
    c = {"env": "wt", "w": 80, "h": 12, "nilp": False, "prompt": [62, 32], "hist": [], "cyc": False,
         "pred": "off", "color": "none", "lf": True, "clip": [], "scr": False, "zw": "", "ov": [], "nosurr": False, "delims": [34, 39],
         "comp": {"cands": [], "bases": [], "enc": [], "del": [], "post": [], "list": False, "on": False}}
    c.update(kw)
    return c


def settable(alpha):
    """Characters whose width a program would set: no control characters, not those the package gives two columns whatever their width."""
    return [c for c in alpha if c >= 97 and unicodedata.category(chr(c))[0] not in "CZ"
            and not (c == 0x1F3F3 or 0x2500 <= c < 0x2580 or 0x1D400 <= c < 0x1D800)]


def start(text=(), cur=0, w=0):
    return {"k": "start", "s": list(text), "cur": cur, "w": w}


def text_of(r, alpha, n):
    return [r.choice(alpha) for _ in range(n)]


def char_item(r, alpha):
    """Typing one character; control characters need the quoted insert."""
    c = r.choice(alpha)
    if c < 32 or c == 127:
        return quoted(c)
    return [ch(c)]


def wchoice(r, table):
    tot = sum(w for w, _ in table)
    x = r.random() * tot
    for w, v in table:
        x -= w
        if x < 0:
            return v
    return table[-1][1]


ALPHA = {
    "ascii": ASCII,
    "simple": [97, 98, 32],
    "wide": ASCII + WIDE,
    "text": ASCII + WIDE + NARROW,
    "ctrl": ASCII + WIDE + CTRLS + ODD,
    "tab": [97, 98, 32, 9, 9, 0x3042],
    "spaces": [97, 98, 0x3042, 34] + SPACES,
    "emoji": ASCII + WIDE + EMOJI + COMB + COMB,
    "all": ASCII + WIDE + NARROW + CTRLS + ODD + EMOJI + COMB + COMB + BOX,
}

def alph(r, name):
    """An alphabet, in half of the jobs with a few characters of no particular kind besides."""
    alpha = ALPHA[name]
    if r.random() < .5:
        return alpha
    extra = []
    while len(extra) < 3:
        c = r.choice([r.randint(33, 126), r.randint(33, 126), r.randint(0xA1, 0x24FF), r.randint(0x2E80, 0xFFEF), r.randint(0x10000, 0x2FFFF)])
        if unicodedata.category(chr(c)) not in ("Cn", "Cs", "Co"):
            extra.append(c)
    return alpha + extra * max(1, len(alpha) // 9)


GROUPS = {
    "move": MOVES, "del": DELS, "kill": KILLS, "undo": ["undo", "undo", "undoz"], "swap": ["swap"],
    "yank": ["yank", "yankq", "yankv"], "hist": ["prev", "next", "up", "down"], "redraw": ["clear", "newrow"],
    "tab": ["tab"],
}

ENDS = {"enter": {"k": "key", "s": [13]}, "intr": {"k": "key", "s": [3]}, "err": {"k": "err"}}


def walk(r, alpha, weights, n, widths=None, end=True, resize_widths=None, clip_alpha=None, junk=True):
    """One read: a random walk over keys. Resizes only where no nested prompt is open."""
    items = []
    table = [(w, g) for g, w in weights.items() if w > 0]
    while len(items) < n:
        g = wchoice(r, table)
        if g == "char":
            items += char_item(r, alpha)
        elif g == "word":
            for _ in range(r.randint(1, 6)):
                items += char_item(r, alpha)
        elif g == "search":
            items.append(k("search"))
            for _ in range(r.randint(0, 6)):
                x = r.random()
                if x < 0.5:
                    c = r.choice(alpha)
                    items.append(ch(c if c >= 32 else 97))
                elif x < 0.65:
                    items.append(k(r.choice(["bs", "bs2"])))
                elif x < 0.85:
                    items.append(k("search"))
                elif x < 0.93:
                    items.append({"k": "key", "s": [19]})
                else:
                    items.append({"k": "key", "s": r.choice([[1], [9], [12], [27, 91, 65], [0x85], [4]])})
            items.append({"k": "key", "s": r.choice([[13], [13], [7], [3], [27]])})
        elif g == "clip":
            items.append({"k": "clip", "s": text_of(r, clip_alpha or alpha, r.randint(0, 6)),
                          "fr": r.random() < 0.15, "fw": r.random() < 0.15})
        elif g == "resize":
            items.append({"k": "resize", "w": r.choice(resize_widths)})
        elif g == "junk":
            items.append({"k": "key", "s": r.choice([[27, 91, 53, 126], [27, 120], [27, 79, 80], [7], [10], [24],
                                                     [28], [27, 0x3042], [97, 98], [0x3042, 0xFE0F]])})
        else:
            items.append(k(r.choice(GROUPS[g])))
    if end:
        items.append(ENDS[r.choice(["enter", "enter", "enter", "intr", "err"])])
    return items


def texts(r, alpha, n, lo=0, hi=6):
    return [text_of(r, alpha, r.randint(lo, hi)) for _ in range(n)]
