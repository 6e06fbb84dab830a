"""Seeded generators of documents at every level. All lengths are in u (1/160 pt), positions are multiples of 10."""
import random

PT = 160
FONTS = ["F1", "F2", "F3-Bold", "F4-It"]
SIZES = [6 * PT, 8 * PT, 9 * PT, 10 * PT, 10 * PT, 10 * PT, 12 * PT, 20 * PT, 1680]
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHXYZ0123456789"


def q(x):
    return int(round(x / 10.0)) * 10


def char(x, y, w, h, t="a", u=None, s=10 * PT, f="F1", r=0, wm=0, n="", bs=None, **kw):
    d = {"b": [q(x), q(y), q(x) + q(w), q(y) + q(h)], "t": t, "u": [ord(c) for c in t] if u is None else u, "s": s, "f": f,
         "r": r, "wm": wm, "n": n, "bs": q(y) + q(h) if bs is None else bs}
    d.update(kw)
    return d


class Doc:
    def __init__(self):
        self.d = {"chars": [], "words": [], "segs": [], "lines": [], "blocks": [], "figs": [], "shapes": [], "graphics": [],
                  "pages": [], "st": {}, "fonts": []}

    def page(self, clip=(0, 0, 600 * PT, 800 * PT)):
        self.d["pages"].append({"num": len(self.d["pages"]) + 1, "clip": list(clip), "c": [], "w": [], "fg": [], "sh": [],
                                "gr": [], "sg": [], "bl": [], "tl": []})
        return self.d["pages"][-1]

    def add(self, kind, o, page=None, key=None):
        if page is not None:
            o["pg"] = page["num"]
        self.d[kind].append(o)
        i = len(self.d[kind])
        if page is not None and key:
            page[key].append(i)
        return i

    def char(self, page, o, rk=None):
        o["rk"] = len(self.d["chars"]) if rk is None else rk
        return self.add("chars", o, page, "c")

    def fonts(self):
        have = {f["key"] if "key" in f else f["name"] for f in self.d["fonts"]}
        used = {c["f"] for c in self.d["chars"]} | {w.get("f", "") for w in self.d["words"]} | \
            {x.get("f", "") for x in self.d["lines"]} | {x.get("f", "") for x in self.d["blocks"]}
        for f in sorted(used - have):
            self.d["fonts"].append({"name": f, "norm": f.lower(), "basen": f.lower().split("-")[0],
                                    "weight": 700 if "Bold" in f else 400, "italic": f.endswith("It"), "type3": False})


MARKS = [0x5E, 0x60, 0x7E, 0xA8, 0xB4, 0xB8, 0xAF, 0x2C6, 0x2C7, 0x2DC, 0x300, 0x301, 0x308, 0x327, 0x22, 0x27, 0x5F, 0x2B0, 0x2FF,
         0x36F, 0x2B2, 0x485, 0x204E, 0xB0]
NEARMARKS = [0x2AF, 0x370, 0x61, 0x21, 0x486, 0x384]
STACK = ["∑", "∏", "∫", "⊗"]
STACKN = ["summationdisplay", "productdisplay", "integraldisplay", "circlemultiplydisplay"]


def glyph_text(rng):
    k = rng.random()
    if k < 0.75:
        return dict(t=rng.choice(LETTERS))
    if k < 0.80:
        if rng.random() < .4:
            t = "".join(rng.choice("abcffil") for _ in range(rng.choice([2, 3, 4, 5, 6, 9])))
            return dict(t=t, u=[ord(x) for x in t])
        return dict(t="ffi", u=[102, 102, 105], n="ffi")
    if k < 0.84:
        return dict(t=rng.choice("äßéñø–—“”αβ"))
    if k < 0.87:
        return dict(t=rng.choice("-.,;:()'\"\\/"))
    if k < 0.89:
        return dict(t="", u=[])
    if k < 0.93:
        return dict(t=rng.choice(STACK))
    if k < 0.95:
        return dict(t="X", n=rng.choice(STACKN))
    return dict(t=chr(rng.choice(MARKS + NEARMARKS)))


def glyph_run(rng, doc, page, x, y, n, r=0, wm=0, s=None, marks=0.12):
    """A run of glyphs with gaps and offsets around the thresholds of the word rules."""
    s = s or rng.choice(SIZES)
    f = rng.choice(FONTS)
    maxs = s
    for i in range(n):
        w = rng.choice([0.3, 0.5, 0.5, 0.6, 0.9]) * s
        if rng.random() < 0.06:
            w = rng.choice([0, 10, 20])
        h = rng.choice([0.7, 0.7, 0.9, 1.0]) * s
        if rng.random() < 0.04:
            h = rng.choice([0, 10])
        k = rng.random()
        thr = 15 * maxs // 100
        if k < 0.55:
            gap = 0
        elif k < 0.65:
            gap = rng.choice([10, 20, 50, 100])
        elif k < 0.80:
            gap = thr + rng.choice([-20, -10, 0, 10, 20])
        elif k < 0.92:
            gap = rng.choice([300, 400, 480, 1000])
        else:
            gap = -rng.choice([10, 200, 500, 2000, 6000])
        k = rng.random()
        dy = 0
        if k < 0.10:
            dy = rng.choice([-1, 1]) * (h / 2 + rng.choice([-20, -10, 0, 10, 20]))
        elif k < 0.14:
            dy = rng.choice([-1, 1]) * rng.choice([0.2, 0.3, 0.8, 1.2]) * s
        x = x + q(gap)
        o = glyph_text(rng)
        c = char(x, y + dy, w, h, s=s, f=f, r=r, wm=wm, **o)
        if rng.random() < 0.03:
            c["r"] = rng.randrange(4)
        if rng.random() < 0.02:
            c["wm"] = 1 - wm
        doc.char(page, c)
        x = c["b"][2]
        if rng.random() < marks:
            # marks around this glyph: mostly over it, sometimes between two glyphs, sometimes several ones
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                mw = rng.choice([0.2, 0.33, 0.5, 1.0]) * s
                mx = c["b"][0] + rng.choice([0, 0.1, 0.25, 0.5, 0.8, 1.0, -0.3]) * s
                m = char(mx, y - 0.2 * s, mw, 0.25 * s, t=chr(rng.choice(MARKS)), s=s, f=f, r=r, wm=wm)
                doc.char(page, m)
        if rng.random() < 0.15:
            s = rng.choice(SIZES)
        if rng.random() < 0.1:
            f = rng.choice(FONTS)
        maxs = max(maxs, s)
    return x


def glyph_doc(rng, npages=None, size=14):
    doc = Doc()
    for _ in range(npages if npages is not None else rng.choice([0, 1, 1, 2, 3])):
        page = doc.page()
        y = rng.randrange(20, 700) * PT
        for _ in range(rng.choice([0, 1, 2, 3])):
            r = rng.choice([0, 0, 0, 0, 1, 2, 3])
            x = rng.randrange(10, 400) * PT
            if rng.random() < 0.08:
                x = -rng.randrange(10, 60) * PT     # left of the page's visible area
            if rng.random() < 0.05:
                y = -rng.randrange(15, 60) * PT
            glyph_run(rng, doc, page, x, y, rng.randrange(1, size), r=r, wm=rng.choice([0, 0, 0, 1]))
            y += rng.choice([0, 800, 1600, 1920, 3000])
        if rng.random() < 0.3:
            stacked(rng, doc, page, rng.randrange(40, 300) * PT, rng.randrange(50, 600) * PT)
    return doc


def stacked(rng, doc, page, x, y):
    """Formulas with display operators: limits above and below, in different orders, and neighbours."""
    s = rng.choice([10, 12, 20]) * PT
    small = s - rng.choice([PT - 10, PT, PT + 10, 3 * PT, 3 * PT])
    parts = []
    for _ in range(rng.randrange(0, 4)):
        dx = rng.choice([0, 0, 0.2, 0.5, 0.9, -0.4]) * s
        parts.append(("small", dx, rng.choice([-1.2, 1.2, 2.0]) * s))
    parts.insert(rng.randrange(0, len(parts) + 1), ("base", 0, 0))
    if rng.random() < 0.35:
        parts.insert(rng.randrange(0, len(parts) + 1), ("base", rng.choice([0.2, 0.5, 0.9]) * s, rng.choice([0, 3]) * s))
    for kind, dx, dy in parts:
        sz = s if kind == "base" else small
        k = rng.random()
        txt = rng.choice(["lim", "sup", "limx", "max"]) if k < 0.4 else None
        if kind == "small" and rng.random() < 0.7:
            txt = rng.choice(["i=1", "n", "x", "lim"])
        cx = x + dx
        if txt:
            for t in txt:
                doc.char(page, char(cx, y + dy, 0.5 * sz, 0.7 * sz, t=t, s=sz))
                cx += q(0.5 * sz)
        else:
            if rng.random() < 0.5:
                o = dict(t=rng.choice(STACK))
            else:
                o = dict(t="P", n=rng.choice(STACKN))
            doc.char(page, char(cx, y + dy, 0.9 * sz, 1.0 * sz, s=sz, **o))


def random_stats(rng):
    return {"acw": rng.choice([4, 5, 6]) * PT, "ach": rng.choice([6, 7, 8]) * PT, "mfs": rng.choice([9, 10, 12]) * PT, "mfn": "F1",
            "mwd": rng.choice([2, 3, 4]) * PT, "meld": rng.choice([2, 4]) * PT, "mld": rng.choice([2, 4, 5]) * PT,
            "mwh": rng.choice([7, 8]) * PT, "mllm": 0, "mldfs": []}


# ---------------------------------------------------------------------------------------------- words and lines
def union(bs):
    return [min(b[0] for b in bs), min(b[1] for b in bs), max(b[2] for b in bs), max(b[3] for b in bs)]


def mode(xs):
    return max(xs, key=xs.count)


def add_word(doc, page, glyphs, seg=None, **kw):
    """A word made of the given glyphs (dicts as of char())."""
    ids = [doc.char(page, g) for g in glyphs]
    g0 = glyphs[0]
    w = {"b": union([g["b"] for g in glyphs]), "t": "".join(g["t"] for g in glyphs), "f": mode([g["f"] for g in glyphs]),
         "s": mode([g["s"] for g in glyphs]), "r": g0["r"], "wm": g0["wm"], "c": ids,
         "bs": mode([g["bs"] for g in glyphs]), "rk": len(doc.d["words"])}
    w.update(kw)
    i = doc.add("words", w, page, "w")
    if seg is not None:
        seg["e"].append(["w", i])
    return i


def add_seg(doc, page, **kw):
    s = {"b": [0, 0, 0, 0], "tb": [0, 0, 0, 0], "e": [], "l": [], "bl": [], "r": 0, "wm": 0, "rk": 0}
    s.update(kw)
    doc.add("segs", s, page, "sg")
    return s


def close_seg(doc, s):
    bs = []
    for k, i in s["e"]:
        bs.append(doc.d[{"w": "words", "f": "figs", "s": "shapes", "g": "graphics"}[k]][i - 1]["b"])
    if bs:
        s["b"] = union(bs)
        s["tb"] = list(s["b"])


WIDTHS = {"i": 0.3, "l": 0.3, ".": 0.25, ",": 0.25, "-": 0.35, "m": 0.8, "W": 0.9, "*": 0.4}


def word_glyphs(x, base, text, s=10 * PT, f="F1", r=0, wm=0, sup=0, off=None, grow=0):
    """The glyphs of a word from (x, base) on; the first `sup` ones (or with sup < 0 the last ones) are small and raised."""
    out = []
    for i, t in enumerate(text):
        small = i < sup or (sup < 0 and i >= len(text) + sup)
        sz = q(0.6 * s) if small else s
        b = base + (q(-0.4 * s) if off is None else off) if small else base
        w = q(WIDTHS.get(t, 0.5) * sz)
        h = q(0.7 * sz) + grow
        out.append(char(x, b - h, w, h, t=t, s=sz, f=f, r=r, wm=wm, bs=b))
        x = out[-1]["b"][2]
    return out


VOCAB = ["the", "of", "and", "model", "Figure", "In", "we", "a", "results", "TABLE", "data", "well-", "con-", "x", "I", "1", "van",
         "more", "Then", "sum", "equation", "proof", "paper", "2010", "is", "from", "non-linear", "e.g.", "end.", "yes!", "so?", "von",
         "(a)", "ABC", "Über", "de", "=", "≤", "12"]
LABELS = ["(1)", "1.", "(a)", "a)", "•", "–", "A.", "IV.", "[12]", "(iv)", "1.2", "*", "C1.", "i.", "(C2)", "12)", "Abc."]
ROMAN = ["I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX", "X", "XI", "XII", "XIII", "XIV", "XV", "XVI", "XVII", "XVIII", "XIX", "XX", "IIII", "VIV", "VV", ""]
BANK = [x % y for x in ("%s.", "(%s)", "%s)", "[%s]") for y in ROMAN + [z.lower() for z in ROMAN]] + \
    [x % y for x in ("%s.", "(%s)", "%s)", "[%s]", "(%s]", "%s", "%s:") for y in list("abkmyzABKMYZ0189") + ["10", "99", "100", "123", "1234", "a1", "a12", "a123",
     "Z9", "ab", "AB", "9a", "Bu2", "Ch", "Enn202", "Enn2020", "aBc", "1.1", "ä"]] + \
    ["•", "-", "–", "—", "+", "·", "•a", "-a", "PACS", "pacs", "Pacs", "PACS:", "xPACS", "*", "∗", "†", "(", ")", "[", "]"]
MARKLABELS = list("*∗†‡§‖¶?abcxyz0129()AZ+") + ["12", "ab", "1a", "a)", "**", "*†", "01", "∗∗"]


LONGLABELS = ["[%s]" % ("Abcdefgh"[:k]) for k in range(1, 9)] + ["[A%s]" % ("9" * k) for k in range(8)] + ["(%s)" % ("123456"[:k]) for k in range(1, 6)] + \
    ["%s." % ("123456"[:k]) for k in range(1, 7)] + ["%s)" % ("a1234"[:k]) for k in range(1, 5)]


def labels():
    return sorted(set(LABELS + BANK + LONGLABELS)), sorted(set(MARKLABELS + list("ghijklmnopqrstuvw345678BYã'’")))


def label_seg(rng, doc, page, x0, y0, st, lab, sup):
    """Plain lines around lines that start with a label."""
    seg = add_seg(doc, page)
    s, y, right = st["mfs"], y0, x0 + 160 * PT
    rows = rng.choice(["plpl", "pl", "lhlh", "llh", "phl", "lll", "lll"])
    marked = rng.random() < .5
    for i, k in enumerate(rows):
        words = [rng.choice(["the", "model", "data", "of", "results", "paper"]) for _ in range(4)]
        if rng.random() < .3 and rows != "lll":
            words[-1] = "end."
        if k == "l":
            words = [lab + rng.choice(["The", "see", "one"])] + words if sup else [lab] + words
        text_line(rng, doc, page, seg, x0 + (2 * st["acw"] if k == "h" else 0), right - rng.choice([0, 0, 0, 12 * st["acw"]] if rows != "lll" else [0]), y, s, "F1", words,
                  len(lab) if sup and k == "l" else 0)
        if k != "l" and sup and marked:                     # the mark in the text
            w = doc.d["words"][-1]
            last = doc.d["chars"][w["c"][-1] - 1]
            for t in lab:
                g = char(last["b"][2], last["b"][1] - 100, 0.3 * s, 0.42 * s, t=t, s=q(0.6 * s), f="F1")
                w["c"].append(doc.char(page, g))
                w["t"] += t
                w["b"] = union([w["b"], g["b"]])
                last = doc.d["chars"][-1]
        y += q(0.7 * s) + st["mld"]
    close_seg(doc, seg)
    distinct_left(doc, seg)


def label_docs(rng):
    """Every label, in the line and as a superscript."""
    plain, marks = labels()
    todo = [(x, False) for x in plain + LONGLABELS * 2] + [(x, True) for x in marks] * 2 + [(x, True) for x in plain if len(x) < 4]
    rng.shuffle(todo)
    for k in range(0, len(todo), 12):
        doc = Doc()
        st = random_stats(rng)
        st["mldfs"] = [[st["mfs"], st["mld"]]]
        doc.d["st"] = st
        page = doc.page()
        for i, (lab, sup) in enumerate(todo[k:k + 12]):
            label_seg(rng, doc, page, (20 + i % 2 * 260) * PT, (60 + i // 2 * 100) * PT, st, lab, sup)
        doc.fonts()
        yield doc


def label(rng):
    return rng.choice(LABELS if rng.random() < .5 else BANK)



def line_words(rng, doc, page, seg, x, base, nwords, s, f, first=None, last=None, space=None, r=0, wm=0, wide=None):
    """One line of words. Returns the ids."""
    ids = []
    for i in range(nwords):
        t = rng.choice(VOCAB)
        sup = 0
        if i == 0 and first:
            t, sup = first
        if i == nwords - 1 and last:
            t = last
        if sup == 0 and len(t) > 1 and rng.random() < 0.04:
            sup = rng.choice([1, -1])
        off = None if rng.random() < 0.8 else rng.choice([0, 10, 20, 0.2 * s])
        g = word_glyphs(x, base, t, s, f if rng.random() < 0.95 else rng.choice(FONTS), r, wm, sup, None if off is None else q(off))
        ids.append(add_word(doc, page, g, seg))
        x = g[-1]["b"][2] + (space if space is not None else rng.choice([400, 500, 500, 600]))
    return ids


def rand_lines_seg(rng, doc, page, x0, y0, acw, nlines, most=5):
    """Words of a segment in disorder: rows with near base lines, small and large horizontal gaps, rotated words."""
    seg = add_seg(doc, page)
    y = y0
    for _ in range(nlines):
        s = rng.choice([8, 10, 10, 12]) * PT
        f = rng.choice(FONTS)
        x = x0 + rng.choice([0, 0, 0, 1, 2, 5, 8]) * rng.choice([acw, 10, PT])
        n = rng.randrange(1, most + 1)
        for i in range(n):
            h = q(0.7 * s)
            k = rng.random()
            dy = 0
            if k < 0.25:
                # offsets such that the vertical overlap is around 40 or 80 percent
                dy = q(rng.choice([0.2, 0.6, 0.5, 0.3]) * h) + rng.choice([-20, -10, 0, 10, 20])
                dy *= rng.choice([-1, 1])
            t = rng.choice(VOCAB)
            sz = rng.choice([s, s, s, q(0.6 * s)])
            r, wm = 0, 0
            if rng.random() < 0.04:
                r = rng.choice([1, 2, 3])
            if rng.random() < 0.03:
                wm = 1
            g = word_glyphs(x, y + dy, t, sz, f, r, wm, sup=rng.choice([0, 0, 0, 0, 1, -1]) if len(t) > 1 else 0)
            add_word(doc, page, g, seg)
            x = g[-1]["b"][2] + rng.choice([400, 500, 3 * acw, 3 * acw - 10, 3 * acw + 10, 3000])
        y += q(rng.choice([1.0, 1.2, 1.2, 0.6, 0.3, 2.0, 10.0 * PT / s, (10.0 * PT + 0.7 * s) / s]) * s) + rng.choice([0, 0, 10, -10, 20])
        if rng.random() < 0.05:
            y += rng.choice([50, 100, 300, 800]) * PT
    if rng.random() < 0.6:
        rng.shuffle(seg["e"])
    # stacked symbols: a base with parts, which may be bases themselves
    ws = [i for k, i in seg["e"]]
    if len(ws) > 3 and rng.random() < 0.4:
        W = doc.d["words"]
        some = rng.sample(ws, min(len(ws), rng.choice([3, 3, 3, 6, 14])))
        for i, p in enumerate(some[1:]):
            b = rng.choice([some[0], some[0], some[i]])
            W[p - 1]["pst"] = b
            W[b - 1]["bst"] = W[b - 1].get("bst", []) + [p]
    close_seg(doc, seg)
    distinct_left(doc, seg)
    return seg


def distinct_left(doc, seg):
    """Words of one segment with equal rotated left edges but different rotation or writing mode would make the result
    depend on the (free) order of a sort: move one of them a little."""
    seen = {}
    for k, i in seg["e"]:
        if k != "w":
            continue
        w = doc.d["words"][i - 1]
        while True:
            x = w["b"][(0, 1, 2, 3)[w["r"]]]
            if x not in seen or seen[x] == (w["r"], w["wm"]):
                break
            w["b"][0] += 10
            w["b"][2] += 10
            if w["r"] in (1, 3):
                w["b"][1] += 10
                w["b"][3] += 10
        seen[x] = (w["r"], w["wm"])
    close_seg(doc, seg)


def lines_doc(rng, nseg=None):
    doc = Doc()
    st = random_stats(rng)
    doc.d["st"] = st
    for _ in range(rng.choice([0, 1, 1, 2])):
        page = doc.page()
        y = rng.randrange(30, 200) * PT
        for _ in range(nseg or rng.choice([1, 1, 2, 3])):
            x = rng.randrange(20, 300) * PT
            if rng.random() < 0.05:
                x = -rng.randrange(20, 80) * PT
            rand_lines_seg(rng, doc, page, x, y, st["acw"], rng.randrange(1, 7))
            y += rng.choice([0, 20, 60]) * PT
        if rng.random() < 0.1:
            close_seg(doc, add_seg(doc, page))
    doc.fonts()
    return doc


# ---------------------------------------------------------------------------------------------- blocks
def text_line(rng, doc, page, seg, left, right, base, s, f, toks, sup=0, r=0, wm=0):
    """A line with the given words from left to right; the last glyph is stretched or moved to end at right (if given)."""
    x = left
    ids = []
    for i, t in enumerate(toks):
        g = word_glyphs(x, base, t, s, f, r, wm, sup if i == 0 else 0)
        if right is not None and i == len(toks) - 1:
            if right > g[-1]["b"][0] + 10:
                g[-1]["b"][2] = right
        ids.append(add_word(doc, page, g, seg))
        x = g[-1]["b"][2] + 400
    return ids


def toks(rng, n):
    return [rng.choice(VOCAB) for _ in range(n)]


def para_seg(rng, doc, page, x0, y0, st, nlines, cls=None):
    """A segment with lines of several kinds: paragraphs, items, references, centered text, footnotes."""
    seg = add_seg(doc, page)
    acw = st["acw"]
    width = rng.choice([120, 200, 240]) * PT
    right = x0 + width
    y = y0
    prev_w = 0
    s0 = rng.choice([st["mfs"], st["mfs"], 8 * PT, 14 * PT])
    f0 = rng.choice(["F1", "F1", "F1", "F3-Bold", "F4-It", "F2"])
    turned = rng.choice([0, 0, .01, .01, .01, .01, .2])
    kind = None
    k = 0
    while k < nlines:
        kind = cls or rng.choice(["para", "para", "items", "refs", "center", "foot", "mixed"])
        s, f = s0, f0
        if rng.random() < 0.15:
            s = rng.choice([st["mfs"] + PT, st["mfs"] + PT + 10, st["mfs"] - PT, st["mfs"] - PT - 10, s0 + PT, s0 + PT + 10])
            f = rng.choice(FONTS)
        n = rng.randrange(2, 7)
        hang = rng.choice([acw, 2 * acw, 3 * acw, acw - 10])
        firstw = None
        for i in range(n):
            k += 1
            left, rt, words, sup = x0, right, toks(rng, rng.randrange(2, 7)), 0
            if rng.random() < 0.2:
                rt = right - rng.choice([10, 100, 2 * acw, 3 * acw, 2 * acw + 800, 2 * acw + 790, 2 * acw + 810, width // 2])
            if kind == "para":
                if i == 0:
                    left += rng.choice([0, acw, acw - 10, acw + 10, 2 * acw, 6 * acw, 6 * acw + 10, 8 * acw])
                elif rng.random() < 0.1:
                    left += rng.choice([10, acw, acw + 10, 7 * acw])
                if i == n - 1:
                    rt = None
            elif kind == "items":
                left += rng.choice([0, 0, 0, acw // 2])
                if rng.random() < 0.6:
                    words = [label(rng)] + words
                else:
                    left += rng.choice([hang, hang, acw, 2 * acw])
            elif kind == "refs":
                if i == 0 or rng.random() < 0.3:
                    if rng.random() < 0.5:
                        words[0] = rng.choice([label(rng), label(rng), "Knuth", "van", "von", "de", "Abc", "Van", "vande"])
                else:
                    left += hang
            elif kind == "center":
                m = rng.choice([0, acw, 2 * acw, 3 * acw, 3 * acw, 8 * acw]) + rng.choice([0, 0, 10])
                left += m
                rt = right - m + rng.choice([0, 0, 2 * acw, 2 * acw + 10, -2 * acw])
                words = toks(rng, rng.randrange(1, 4))
                if rng.random() < 0.1:
                    words[0] = label(rng)
            elif kind == "foot":
                if i == 0 or rng.random() < 0.4:
                    lab = rng.choice(["1", "2", "*", "a", "12", "∗", "†", "x", rng.choice(MARKLABELS), rng.choice(MARKLABELS)])
                    words[0] = lab + rng.choice(["The", "a", "see", ""])
                    sup = len(lab)
                if rng.random() < 0.3:
                    words[-1] = words[-1]
            else:
                left += rng.choice([0, 10, acw, acw + 10, 2 * acw, 5 * acw, 6 * acw + 10])
            if rng.random() < 0.05:
                words[-1] = rng.choice(["end.", "so?", "yes!", "x)", "a;", "b,", "c:", "=", "a+b"])
            r, wm = 0, 0
            if rng.random() < turned:
                r = rng.choice([1, 2, 3])
            if rng.random() < turned:
                wm = 1
            text_line(rng, doc, page, seg, left, rt, y, s, f, words, sup, r, wm)
            if rng.random() < 0.08:
                # a footnote mark inside of the line
                lab = rng.choice(["1", "2", "*", "a", "12", "∗", rng.choice(MARKLABELS)])
                w = doc.d["words"][-1]
                last = doc.d["chars"][w["c"][-1] - 1]
                for t in lab:
                    g = char(last["b"][2], last["b"][1] - 100, 0.3 * s, 0.42 * s, t=t, s=q(0.6 * s), f=f, r=r, wm=wm)
                    w["c"].append(doc.char(page, g))
                    w["t"] += t
                    w["b"] = union([w["b"], g["b"]])
                    last = doc.d["chars"][-1]
            d = rng.choice([st["mld"]] * 8 + [st["mld"] + PT, st["mld"] + PT + 20, st["mld"] + PT - 20, 0, -10, 10, st["mld"] + 30 * PT,
                            st["mld"] - PT, 10, 3 * PT + 10, q(st["mld"] + st["mwh"] / 2 + 20)])
            y += q(0.7 * s) + q(d)
            if k >= nlines:
                break
        y += rng.choice([0, 0, st["mld"], 2 * st["mld"]])
    close_seg(doc, seg)
    distinct_left(doc, seg)
    return seg, y


def uniform_seg(rng, doc, page, x0, y0, st, kind):
    """A segment of evenly spaced lines: a list of references with a hanging indent ("hang") or a list of items ("list")."""
    seg = add_seg(doc, page)
    acw = st["acw"]
    right = x0 + rng.choice([160, 200, 240]) * PT
    h1 = rng.choice([acw, 2 * acw, 3 * acw, 3 * acw, 5 * acw])
    h2 = rng.choice([h1 + acw + 10, h1 + 2 * acw, h1 + 4 * acw, h1 + 7 * acw + 10])
    upper = ["Then", "In", "Figure", "ABC", "Knuth", "We"]
    y, s = y0, st["mfs"]
    n = rng.randrange(4, 14)
    first = True
    for i in range(n):
        sup = 0
        words = [rng.choice(["the", "model", "data", "of", "results", "paper"]) for _ in range(rng.randrange(3, 6))]
        if rng.random() < 0.2:
            words[0] = rng.choice(upper)
        rt = right - rng.choice([0] * 7 + [acw, 3 * acw, 8 * acw, 12 * acw])
        left = x0
        if kind == "hang":
            if first or rng.random() < 0.3:
                words[0] = rng.choice(upper + ["van", "de", "von"])
                left += rng.choice([0, 0, 0, 10])
            else:
                left += rng.choice([h1] * 6 + [h2, h1 + 10])
            if i and rng.random() < 0.25:
                left = x0 + h2
        else:
            if first or rng.random() < 0.4:
                lab = rng.choice(["(1)", "2.", "a)", "(a)", "•", "[12]", "i.", "1", "*", label(rng), label(rng)])
                words = [lab] + words
                if lab in ("1", "*"):
                    words[0] = lab + rng.choice(["the", "Abc"])
                    sup = 1
                left += rng.choice([0, 0, 10, 2 * acw])
            else:
                left += rng.choice([0, h1, h1, h1, h2])
        if rng.random() < 0.25:
            words[-1] = rng.choice(["end.", "yes!", "x)", "a;"])
        if rng.random() < 0.03:
            y += 25 * PT
        text_line(rng, doc, page, seg, left, rt, y, s, "F1", words, sup)
        y += q(0.7 * s) + q(st["mld"])
        first = False
    close_seg(doc, seg)
    distinct_left(doc, seg)
    return seg, y


def hang_seg(rng, doc, page, x0, y0, st):
    """A segment of evenly spaced lines with counts around the thresholds of the rules for hanging indents."""
    seg = add_seg(doc, page)
    acw, s, y = st["acw"], st["mfs"], y0
    right = x0 + 200 * PT
    upper, lower = ["Then", "In", "ABC", "Knuth", "We"], ["the", "model", "data", "van", "de", "12", "(x"]
    non, ind = rng.choice([1, 1, 1, 2, 9, 10, 10, 10, 11]), rng.choice([1, 2, 3, 5])
    lowind, lownon, other = rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 0, 0, 1]), rng.choice([0, 0, ind, ind + 1, ind - 1])
    if non == 1 and rng.random() < .7:
        other = 0
    rows = ["n"] * (non - 1) + ["i"] * ind + ["o"] * other
    rng.shuffle(rows)
    rows = (["n"] + rows) if rng.random() < .8 else rows + ["n"]
    low = {"i": rng.sample([i for i, k in enumerate(rows) if k == "i"], min(lowind, ind)), "o": [],
           "n": rng.sample([i for i, k in enumerate(rows) if k == "n"], min(lownon, non))}
    short = rng.choice([0, 0, .3, .8])
    h1, h2 = rng.choice([acw, 2 * acw, 3 * acw, acw - 10]), rng.choice([4 * acw, 6 * acw])
    if rng.random() < .5:           # a block before, whose last line may have room for more
        for k in rng.choice(["s", "ls", "ls", "l"]):
            text_line(rng, doc, page, seg, x0, right if k == "l" else right - 20 * acw, y, s, "F1", toks(rng, 3), 0)
            y += q(0.7 * s) + q(st["mld"])
        y += 25 * PT
    for i, k in enumerate(rows):
        words = [rng.choice(lower if i in low[k] else upper)] + [rng.choice(["a", "data", "of", "paper"]) for _ in range(3)]
        rt = right - rng.choice([0] * 7 + [3 * acw, 12 * acw])
        left = x0 + {"n": rng.choice([0, 0, 0, 10]), "i": h1, "o": h2}[k]
        if rng.random() < (short if i != 1 else .5):
            words, rt = [rng.choice(["A", "Ab", "Abc", "abc", "ab", "Ü", "É."])], None
        text_line(rng, doc, page, seg, left, rt, y, s, "F1", words, 0)
        y += q(0.7 * s) + q(st["mld"])
    close_seg(doc, seg)
    distinct_left(doc, seg)
    return seg, y


def axis_seg(rng, doc, page, x0, y0, st):
    """Evenly spaced lines around one axis, with a number of justified lines around the threshold, some with formulas; or lines
    in capital letters with a small one somewhere."""
    seg = add_seg(doc, page)
    acw, s, y = st["acw"], st["mfs"], y0
    if rng.random() < .3:
        n, low = rng.randrange(2, 12), rng.choice([0, 0, 1])
        at = rng.randrange(n)
        for i in range(n):
            ws = [rng.choice(["THE", "ABC", "IN", "2010", "MODEL", "DATA", "=", "(A)", "Ü"]) for _ in range(rng.randrange(3, 9))]
            if low and i == at:
                ws[rng.choice([0, -1])] = rng.choice(["Data", "a", "the", "MODEl"])
            text_line(rng, doc, page, seg, x0, x0 + 240 * PT, y, s, "F1", ws, 0)
            y += q(0.7 * s) + q(st["mld"])
    else:
        m = rng.choice([0, 3, 4, 5, 5, 5, 6])                  # pairs with equal edges
        rows = [0] * m + [1] * rng.choice([0, 1, 1, 2, 5])
        if rng.random() < .5:
            rng.shuffle(rows)
        axis, half = x0 + 150 * PT, 100 * PT
        formula = rng.choice([0, 0, .3])
        for k in [0] + rows:
            if k:
                half = q(rng.choice([40, 60, 80, 90, 130]) * PT) + rng.choice([0, 10])
            ws = [rng.choice(VOCAB[:6]) for _ in range(2)]
            if rng.random() < formula:
                ws[1] = rng.choice(["=", "a+b"])
            text_line(rng, doc, page, seg, axis - half, axis + half + rng.choice([0] * 9 + [10, acw, 2 * acw + 10]), y, s, "F1", ws, 0)
            y += q(0.7 * s) + q(st["mld"])
    close_seg(doc, seg)
    distinct_left(doc, seg)
    return seg, y


def blocks_doc(rng, cls=None):
    doc = Doc()
    st = random_stats(rng)
    st["mldfs"] = [[fs, rng.choice([st["mld"], st["mld"] + 160, st["mld"] + 32])] for fs in (st["mfs"], 8 * PT, 14 * PT) if rng.random() < 0.6]
    doc.d["st"] = st
    for _ in range(rng.choice([1, 1, 1, 2])):
        page = doc.page()
        x = rng.randrange(20, 100) * PT
        for _ in range(rng.choice([1, 1, 2])):
            y = rng.randrange(40, 200) * PT
            for _ in range(rng.choice([1, 1, 2])):
                if cls == "axis":
                    seg, y = axis_seg(rng, doc, page, x, y, st)
                elif cls == "hangs":
                    seg, y = hang_seg(rng, doc, page, x, y, st)
                elif cls in ("hang", "list"):
                    seg, y = uniform_seg(rng, doc, page, x, y, st, cls)
                else:
                    seg, y = para_seg(rng, doc, page, x, y, st, rng.randrange(1, 14), cls)
                y += 20 * PT
                if rng.random() < 0.15:
                    b = seg["b"]
                    mx = rng.choice([0, (b[2] - b[0]) // 2 // 10 * 10])
                    my = rng.choice([0, (b[3] - b[1]) // 3 // 10 * 10, (b[3] - b[1]) // 2 // 10 * 10])
                    doc.add("figs", {"b": [b[0] + mx, b[1], b[2], b[3] - my], "r": 0, "wm": 0,
                                     "clip": b, "c": [], "sh": [], "gr": []}, page, "fg")
            x += 260 * PT
    doc.fonts()
    if rng.random() < 0.05:
        doc.d["fonts"] = doc.d["fonts"][1:]
    return doc


# ---------------------------------------------------------------------------------------------- layouts
class Edges:
    """Moves boxes a little, so that no two elements of a page have an edge of the same kind in common (the order in which
    elements with equal edges are sorted is free)."""

    def __init__(self):
        self.x, self.y, self.x2 = set(), set(), set()

    def place(self, b):
        b = [q(v) for v in b]
        while b[0] in self.x:
            b[0] += 10
            b[2] += 10
        while b[1] in self.y:
            b[1] += 10
            b[3] += 10
        while b[2] in self.x2:
            b[2] += 10
        self.x.add(b[0])
        self.y.add(b[1])
        self.x2.add(b[2])
        return b


def put(rng, doc, page, edges, kind, b, **kw):
    """Adds an element with box b."""
    b = edges.place(b)
    if kind == "w":
        g = char(b[0], b[1], b[2] - b[0], b[3] - b[1], t=rng.choice(LETTERS), r=kw.get("r", 0), wm=kw.get("wm", 0))
        return add_word(doc, page, [g], None)
    o = {"b": b, "r": 0, "wm": 0, "rk": len(doc.d["words"])}
    if kind == "f":
        o.update({"clip": b, "c": [], "sh": [], "gr": []})
    return doc.add({"f": "figs", "s": "shapes", "g": "graphics"}[kind], o, page, {"f": "fg", "s": "sh", "g": "gr"}[kind])


def layout(rng, doc, page, edges, box, depth, st, budget):
    """Columns, rows, words, figures, lines."""
    x0, y0, x1, y1 = box
    acw, ach = st["acw"], st["ach"]
    w, h = x1 - x0, y1 - y0
    if w < 3 * acw or h < ach or budget[0] <= 0:
        return
    k = rng.random()
    if depth > 0 and k < 0.4 and w > 14 * acw:
        n = rng.choice([2, 2, 3])
        gap = rng.choice([2 * st["mwd"] + rng.choice([-10, 0, 10]), 2 * acw + rng.choice([-10, 0, 10]), 3 * acw, 4 * acw])
        cw = [rng.choice([1, 1, 2, 0.5, 0.3]) for _ in range(n)]
        x = x0
        for c in cw:
            ww = q((w - (n - 1) * gap) * c / sum(cw))
            layout(rng, doc, page, edges, [x, y0 + rng.choice([0, 0, 5 * ach, 5 * ach - 10]), x + ww,
                                           y1 - rng.choice([0, 0, 5 * ach, 5 * ach + 10])], depth - 1, st, budget)
            x += ww + gap
    elif depth > 0 and k < 0.75 and h > 4 * ach:
        n = rng.choice([2, 3])
        gap = rng.choice([320, 310, 330, ach, 3 * ach, 160])
        cw = [rng.choice([1, 1, 2, 0.3]) for _ in range(n)]
        y = y0
        for c in cw:
            hh = q((h - (n - 1) * gap) * c / sum(cw))
            layout(rng, doc, page, edges, [x0, y, x1, y + hh], depth - 1, st, budget)
            y += hh + gap
    elif k < 0.93:
        y = y0
        lead = rng.choice([ach // 5, ach // 2, 310, 320, 330, -10])
        while y + ach <= y1 and budget[0] > 0:
            x = x0
            while x < x1 and budget[0] > 0:
                ww = rng.choice([2, 4, 6, 10]) * acw
                if x + ww > x1:
                    ww = x1 - x
                if ww < 20:
                    break
                put(rng, doc, page, edges, "w", [x, y, x + ww, y + ach])
                budget[0] -= 1
                x += ww + q(rng.choice([1, 1, 1, 2]) * st["mwd"] + rng.choice([0, 0, -10, 10]))
            y += ach + q(lead)
    else:
        kind = rng.choice(["f", "s", "g"])
        if kind == "s" and rng.random() < 0.7:
            m = (x0 + x1) // 2 // 10 * 10
            put(rng, doc, page, edges, "s", [m, y0, m + rng.choice([0, 10, 160]), y1] if rng.random() < 0.5 else [x0, y0, x1, y0 + 10])
        else:
            put(rng, doc, page, edges, kind, box)


def bands(rng, box, gutter, gap):
    """Bands from top to bottom, each of them wide or of columns (with rows that may go across); gives the boxes of its parts."""
    x0, y0, x1, y1 = box
    n = rng.randrange(2, 7)
    h = (y1 - y0) // n
    for i in range(n):
        ya, yb = y0 + i * h, y0 + (i + 1) * h - rng.choice([gap, gap, gap + 10, gap - 10, 3 * gap])
        k = rng.random()
        if k < .3:
            yield [x0, ya, x1, yb]
            continue
        cs = rng.choice([[.33], [.5], [.5], [.66], [.33, .66]])
        xs = [x0] + [x0 + int((x1 - x0) * v) for v in cs] + [x1]
        rows = rng.choice([1, 1, 2, 3])
        own = rng.random() < .3                                # the rows of the columns differ
        for a, b in zip(xs, xs[1:]):
            if own:
                rows = rng.choice([1, 2, 3])
            r = (yb - ya + gap) // rows
            for j in range(rows):
                yield [a, ya + j * r, b - (gutter if b != x1 else 0), ya + (j + 1) * r - gap]


def layout_doc(rng, nwords=60):
    doc = Doc()
    acw = rng.choice([PT, 2 * PT, 2 * PT, 4 * PT])
    st = dict(random_stats(rng), acw=acw, ach=rng.choice([acw, 2 * acw, 2 * acw]), mwd=rng.choice([acw, acw // 2, acw // 2]))
    doc.d["st"] = st
    for _ in range(rng.choice([1, 1, 2])):
        page = doc.page()
        edges = Edges()
        W, H = rng.choice([40, 60, 80]) * acw, rng.choice([20, 40, 60]) * acw
        x, y = 60 * PT, 60 * PT
        if nwords <= 60 and rng.random() < .25:
            for b in bands(rng, [x, y, x + W, y + H], rng.choice([acw, 2 * acw, 3 * acw]), rng.choice([acw, 2 * acw])):
                if b[2] - b[0] > 40 and b[3] - b[1] > 40:
                    put(rng, doc, page, edges, rng.choice("wwwwwf"), b)
        else:
            layout(rng, doc, page, edges, [x, y, x + W, y + H], 3, st, [nwords])
        for _ in range(rng.choice([0, 0, 0, 1, 2])):      # something that runs across
            ax, ay = x + q(rng.random() * W), y + q(rng.random() * H)
            put(rng, doc, page, edges, rng.choice("wwsfg"), [ax, ay, ax + rng.choice([2, 10, 20]) * acw, ay + rng.choice([1, 1, 10]) * acw])
    doc.fonts()
    return doc


ROLES = 14


def blocks_layout(rng, doc, page, edges, box, depth, st, probs):
    x0, y0, x1, y1 = box
    w, h = x1 - x0, y1 - y0
    acw, ach = st["acw"], st["ach"]
    if w < 40 or h < 40:
        return
    k = rng.random()
    if depth > 0 and k < 0.4:
        n = rng.choice([2, 2, 3])
        gap = rng.choice([0, 0, 10, 320, 1600])
        x = x0
        for _ in range(n):
            ww = q((w - (n - 1) * gap) / n)
            blocks_layout(rng, doc, page, edges, [x, y0 + rng.choice([0, 0, 800]), x + ww, y1], depth - 1, st, probs)
            x += ww + gap
    elif depth > 0 and k < 0.85:
        n = rng.choice([2, 3, 4])
        gap = rng.choice([0, 10, 320, 1600, -20])
        y = y0
        for _ in range(n):
            hh = q((h - (n - 1) * gap) / n)
            blocks_layout(rng, doc, page, edges, [x0, y, x1 - rng.choice([0, 0, 0, w // 2]), y + hh], depth - 1, st, probs)
            y += hh + gap
    elif k < 0.9:
        m, n = (x0 + x1) // 2, (y0 + y1) // 2
        lw, lh = rng.choice([10 * acw, 10 * acw + 10, 30 * acw]), rng.choice([10 * ach, 10 * ach + 10, 30 * ach])
        put(rng, doc, page, edges, "s", rng.choice([box, [m, y0, m + 10, y1], [x0, n, x1, n + 10], [m, n, m + 10, n + lh], [m, n, m + lw, n + 10]]))
    elif k < 0.95:
        put(rng, doc, page, edges, "f", box)
    else:
        put_block(rng, doc, page, edges, box, probs)


def put_block(rng, doc, page, edges, box, probs):
    b = edges.place(box)
    g = word_glyphs(b[0], b[3], rng.choice(VOCAB), 10 * PT, "F1")
    w = add_word(doc, page, g)
    doc.d["words"][w - 1]["rk"] = 0
    W = doc.d["words"][w - 1]
    ln = doc.add("lines", {"b": b, "r": 0, "wm": 0, "rk": 0, "t": W["t"], "f": "F1", "s": 1600, "w": [w], "sg": 0, "blk": len(doc.d["blocks"]) + 1,
                           "bb": b, "bs": b[3]}, page)
    r, wm = (rng.choice([1, 2, 3]), 0) if rng.random() < 0.04 else (0, 1 if rng.random() < 0.02 else 0)
    doc.add("blocks", {"b": b, "r": r, "wm": wm, "rk": 0, "t": W["t"], "f": "F1", "s": 1600, "l": [ln], "sg": 0, "role": 0, "tb": b}, page, "bl")
    role = rng.choice([5] * 8 + [6, 7, 2, 2, 3])
    probs.append([900 if i == role else rng.choice([0, 100, 899]) for i in range(ROLES)])


def order_doc(rng):
    """A document of text blocks with roles (the model's output), figures and shapes. Returns (doc, probabilities)."""
    doc = Doc()
    st = random_stats(rng)
    doc.d["st"] = st
    probs = []
    for _ in range(rng.choice([1, 1, 2])):
        page = doc.page()
        edges = Edges()
        x, y = 30 * PT, 30 * PT
        W, H = rng.choice([100, 300, 500]) * PT, rng.choice([100, 300, 700]) * PT
        if rng.random() < 0.5:      # a title and authors above
            put_block(rng, doc, page, edges, [x, y - 2800, x + W, y - 1600], probs)
            probs[-1] = [900 if i == 6 else 10 for i in range(ROLES)]
        if rng.random() < .35:
            for b in bands(rng, [x, y, x + W, y + H], rng.choice([320, 1600, 3200]), rng.choice([160, 800, 1600])):
                if b[2] - b[0] > 40 and b[3] - b[1] > 40:
                    if rng.random() < .93:
                        put_block(rng, doc, page, edges, b, probs)
                    else:
                        put(rng, doc, page, edges, rng.choice("sf"), b)
        else:
            blocks_layout(rng, doc, page, edges, [x, y, x + W, y + H], rng.choice([1, 2, 3, 4]), st, probs)
        ids = list(page["bl"])
        # the blocks come in some order
        if rng.random() < 0.7:
            rng.shuffle(ids)
        page["bl"] = ids
    # the rows of the model's output follow the order of pages and blocks
    probs = [probs[i - 1] for p in doc.d["pages"] for i in p["bl"]]
    doc.fonts()
    return doc, [x for r in probs for x in r]


# -- documents for the output: complete down to the text blocks; the geometry is arbitrary
TEXTS = list("abcxyzABC019.,;:()-") + ["ä", "ß", "–", "α", "\u4e2d", "\U0001d465", '"', "\\", "/", "\n", "\t", "\r", "\b", "\f", "\x01", "\x1f", "\x7f",
                                      "ffi", "", "@", "'", "\u00a0", "\u2028", "\ufeff", "<", "&", "--", "a-", "%", "$", "{", "\x00"]
ODDFONTS = ["F1", "F2", "F3-Bold", "F4-It", 'F"5', "F\\6", "F\n7", "Fö8", "", "F\x019", "F'10", "F\t11\"", "ABCDEF+Times"]


def rbox(rng):
    x, y = rng.randrange(-50 * PT, 600 * PT), rng.randrange(-50 * PT, 800 * PT)
    return [q(x), q(y), q(x + rng.randrange(0, 200 * PT)), q(y + rng.randrange(0, 100 * PT))]


def output_word(rng, doc, page, plain=False, text=None):
    n = rng.choice([1, 1, 2, 3, 4, 5]) if text is None else len(text)
    ts = list(text) if text is not None else [rng.choice(TEXTS[:18] if plain or rng.random() < 0.6 else TEXTS) for _ in range(n)]
    if text is None and rng.random() < 0.35:
        ts.append("-")
    ids, wt = [], ""
    for t in ts:
        b = rbox(rng)
        c = {"b": b, "t": t, "u": [ord(x) for x in t], "s": rng.choice(SIZES), "f": rng.choice(FONTS if plain else ODDFONTS), "bs": b[3],
             "r": rng.randrange(4), "wm": rng.choice([0, 0, 1]), "c3": [rng.choice([0, 0, 125, 500, 1000]) for _ in range(3)],
             "op": rng.choice([1000, 1000, 500, 0]), "n": ""}
        ids.append(doc.char(page, c))
        if rng.random() < 0.1:
            m = dict(c, t=rng.choice(["\u0301", "´", "~"]), md=ids[-1], b=rbox(rng))
            ids.append(doc.char(page, m))
            c["mb"], c["tm"] = ids[-1], rng.choice(["á", t + m["t"], "ö"])
        wt += c.get("tm", t)
    if rng.random() < 0.05:
        wt = rng.choice(["-", "", "x-", "y"])          # a text that differs from the characters
    w = {"b": rbox(rng), "t": wt, "f": rng.choice(FONTS if plain else ODDFONTS), "s": rng.choice(SIZES), "r": rng.randrange(4), "wm": 0, "c": ids,
         "bs": 0, "rk": len(doc.d["words"])}
    return doc.add("words", w, page, "w")


def output_line(rng, doc, page, nwords, plain=False, words=None):
    ws = words if words is not None else [output_word(rng, doc, page, plain) for _ in range(nwords)]
    W = [doc.d["words"][w - 1] for w in ws]
    ln = {"b": rbox(rng), "t": " ".join(w["t"] for w in W), "f": "F1", "s": 1600, "r": 0, "wm": 0, "w": ws, "rk": 0, "bb": rbox(rng), "ms": 1600,
          "bs": 0, "blk": len(doc.d["blocks"]) + 1}
    return doc.add("lines", ln, page)


def output_block(rng, doc, page, lines, plain=False, role=None, text=None, attached=True):
    L = [doc.d["lines"][x - 1] for x in lines]
    b = {"b": rbox(rng), "t": " ".join(x["t"] for x in L) if text is None else text, "f": rng.choice(FONTS if plain else ODDFONTS),
         "s": rng.choice(SIZES), "r": 0, "wm": 0, "l": lines, "rk": len(doc.d["blocks"]), "role": rng.randrange(14) if role is None else role,
         "em": rng.random() < 0.3, "cen": rng.random() < 0.3, "hi": 0, "tb": rbox(rng)}
    return doc.add("blocks", b, page, "bl")


def output_doc(rng, plain=False, figs=True):
    doc = Doc()
    few = rng.sample(range(14), 3)
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        page = doc.page(clip=(0, 0, q(rng.randrange(100, 700) * PT), q(rng.randrange(100, 900) * PT)))
        for _ in range(rng.choice([0, 1, 2, 3])):
            lines = [output_line(rng, doc, page, rng.choice([0, 1, 1, 2, 3]), plain) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
            output_block(rng, doc, page, lines, plain, rng.choice(few))
        if rng.random() < 0.3:
            rng.shuffle(page["bl"])
        if figs:
            for _ in range(rng.choice([0, 0, 1, 2])):
                doc.add("figs", {"b": rbox(rng), "r": 0, "wm": 0, "rk": rng.randrange(50), "clip": rbox(rng), "c": []}, page, "fg")
            for _ in range(rng.choice([0, 0, 1, 2])):
                doc.add("shapes", {"b": rbox(rng), "r": 0, "wm": 0, "rk": rng.randrange(50)}, page, "sh")
    doc.fonts()
    for f in doc.d["fonts"]:
        f["weight"], f["italic"], f["type3"] = rng.choice([400, 500, 501, 700]), rng.random() < 0.5, rng.random() < 0.3
    return doc


ROLEWORDS = ["The", "abc", "aab", "abab", "AB", "Ünal", "ünal", "12", "a1", "x@y.z", "(1)", "–", "e.g.", "IEEE", "α", "\u4e2d\u6587", "a", "B", "ba",
             "baab", "\u00a0", "ⅷ", "\u0660", "Éa", "~", "^_`", "{|}", "\x7f", "²", "\u2003x", "✂", "⊛", "⌾", "ſ", "\ufb03"]


def roles_doc(rng, real=False):
    doc = Doc()
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        clip = rng.choice([(0, 0, 612 * PT, 792 * PT), (0, 0, 595 * PT, 842 * PT), (0, 0, q(rng.randrange(100, 700) * PT), q(rng.randrange(100, 900) * PT)),
                           (0, 0, 0, 0) if rng.random() < 0.2 else (0, 0, 100 * PT, 100 * PT)])
        page = doc.page(clip=clip)
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4]) if not real else 1):
            lines = []
            for _ in range(rng.choice([0, 1, 2, 3])):
                ws = []
                for _ in range(rng.choice([0, 1, 3, 6]) if rng.random() < 0.95 else 60):
                    t = rng.choice(VOCAB if real else ROLEWORDS + VOCAB[:8])
                    ws.append(doc.add("words", {"b": [0, 0, 0, 0], "t": t, "f": "F1", "s": 1600, "r": 0, "wm": 0, "c": [], "rk": 0}, page, "w"))
                lines.append(output_line(rng, doc, page, 0, words=ws))
            sep = rng.choice([" "] * 8 + ["\t", "\n", "  ", "\r", "\v", "\f"])
            text = sep.join(doc.d["lines"][x - 1]["t"] for x in lines)
            if rng.random() < 0.2:
                text = rng.choice([" ", "\t", ""]) + text + rng.choice([" ", "\n", ""])
            output_block(rng, doc, page, lines, True, text=text)
    sizes = rng.sample(SIZES, rng.choice([1, 2, 3]))
    for b in doc.d["blocks"]:
        b["s"] = rng.choice(sizes)
    doc.fonts()
    for f in doc.d["fonts"]:
        f["weight"], f["italic"] = rng.choice([400, 499, 500, 501, 700]), rng.random() < 0.5
    dim = rng.choice([14, 14, 14, 3, 1])
    n = sum(len(p["bl"]) for p in doc.d["pages"])
    style = rng.random()
    p = [rng.choice([0, 100, 200, 900, 901]) if style < 0.6 else rng.choice([0, 0, -500, 1]) if style < 0.8 else rng.randrange(1000)
         for _ in range(n * dim)]
    op = {"op": "predict", "p": p, "dim": dim}
    if not real:
        chars = "".join(rng.choice(ROLEWORDS) for _ in range(6)) + "abAB✂"
        toks = set()
        for _ in range(rng.choice([0, 3, 10, 30])):
            k = rng.choice([1, 1, 2, 2, 2, 3, 4])
            w = rng.choice(ROLEWORDS) + "✂"
            i = rng.randrange(len(w))
            toks.add(w[i:i + k] if rng.random() < 0.7 else "".join(rng.choice(chars) for _ in range(k)))
        toks = sorted(t for t in toks if not set(t) & set("\t\n") and t not in ("✂", "⊛", "⌾"))
        rng.shuffle(toks)
        lines = ["%s\t%d" % (t, i) for i, t in enumerate(toks)]
        text = "\n".join(lines) + ("\n" if lines else "")
        k = rng.random()
        if k < 0.1:
            text += "no tab here\n"
        elif k < 0.2 and lines:
            text += toks[0] + "\t77\n"
        elif k < 0.3:
            text += "qqq\t99"
        op["vocab"] = text
    return doc, op


# -- large documents: sizes an order of magnitude above the others
def big_glyphs(rng, kind):
    doc = Doc()
    if kind == "word":              # a very long word, with marks
        page = doc.page()
        x, n = 10 * PT, rng.randrange(520, 1300)
        for i in range(n):
            o = dict(t=rng.choice(LETTERS)) if rng.random() < .97 or n < 900 else glyph_text(rng)
            c = char(x, 1600, 100, 700, s=960, **o)
            doc.char(page, c)
            if rng.random() < .05:
                doc.char(page, char(x, 1500, 80, 200, s=960, t=chr(rng.choice(MARKS))))
            x += 100
    elif kind == "page":
        page = doc.page()
        for k in range(rng.randrange(10, 16)):
            glyph_run(rng, doc, page, 20 * PT, (30 + 30 * k) * PT, rng.randrange(60, 120), r=rng.choice([0, 0, 0, 0, 1, 2, 3]))
    elif kind == "pages":
        for _ in range(rng.randrange(40, 80)):
            page = doc.page()
            for k in range(rng.choice([0, 1, 1, 2])):
                glyph_run(rng, doc, page, 20 * PT, (30 + 30 * k) * PT, rng.randrange(1, 14))
    elif kind == "formulas":
        page = doc.page()
        for k in range(rng.randrange(100, 160)):
            stacked(rng, doc, page, (40 + k % 8 * 60) * PT, (50 + k // 8 * 60) * PT)
    elif kind == "parts":           # a base with many parts around
        page = doc.page()
        x, s = 40 * PT, 12 * PT
        n = rng.randrange(20, 40)
        at = rng.randrange(n)
        for i in range(n):
            if i == at:
                doc.char(page, char(x, 100 * PT, n * 500, s, t="\u2211", s=s))
            doc.char(page, char(x + 500 * i, rng.choice([80, 118]) * PT, 300, 700, t="i", s=6 * PT))
        glyph_run(rng, doc, page, 20 * PT, 200 * PT, 30)
    return doc


def big_lines(rng, kind):
    doc = Doc()
    st = random_stats(rng)
    doc.d["st"] = st
    if kind == "wide":
        rand_lines_seg(rng, doc, doc.page(), 20 * PT, 40 * PT, st["acw"], 6, 100)
    elif kind == "long":
        rand_lines_seg(rng, doc, doc.page(), 20 * PT, 40 * PT, st["acw"], rng.randrange(80, 150), 4)
    elif kind == "segs":
        page = doc.page()
        for k in range(rng.randrange(60, 90)):
            rand_lines_seg(rng, doc, page, (20 + k % 5 * 100) * PT, (40 + k // 5 * 40) * PT, st["acw"], rng.randrange(1, 4), 3)
    else:
        for _ in range(rng.randrange(40, 70)):
            page = doc.page()
            for _ in range(rng.choice([0, 1, 1, 2])):
                rand_lines_seg(rng, doc, page, rng.randrange(20, 300) * PT, rng.randrange(30, 200) * PT, st["acw"], rng.randrange(1, 5))
    doc.fonts()
    return doc


def big_blocks(rng, kind):
    doc = Doc()
    st = random_stats(rng)
    st["mldfs"] = [[fs, st["mld"]] for fs in (st["mfs"], 8 * PT)]
    doc.d["st"] = st
    if kind == "long":
        para_seg(rng, doc, doc.page(), 20 * PT, 40 * PT, st, rng.randrange(90, 160), rng.choice(["para", "items", "refs", "foot", None, None]))
    else:
        for _ in range(rng.randrange(20, 40)):
            page = doc.page()
            for k in range(rng.choice([0, 1, 2])):
                para_seg(rng, doc, page, (20 + 260 * k) * PT, 40 * PT, st, rng.randrange(1, 6))
    doc.fonts()
    return doc


def big_order(rng, kind):
    """Pages of many blocks, and many pages."""
    doc = Doc()
    doc.d["st"] = random_stats(rng)
    probs = []
    for _ in range(1 if kind == "page" else rng.randrange(25, 40)):
        page = doc.page()
        edges = Edges()
        nx, ny = (rng.randrange(2, 9), rng.randrange(8, 16)) if kind == "page" else (rng.randrange(1, 3), rng.randrange(1, 4))
        for i in range(nx):
            for j in range(ny):
                x, y = (30 + 60 * i) * PT, (30 + 40 * j + rng.choice([0, 0, 5, 9])) * PT
                k = rng.random()
                if k < .85:
                    put_block(rng, doc, page, edges, [x, y, x + rng.choice([40, 50, 50, 70, 110]) * PT, y + rng.choice([20, 30, 45]) * PT], probs)
                elif k < .95:
                    put(rng, doc, page, edges, rng.choice("sf"), [x, y, x + 30 * PT, y + 20 * PT])
        rng.shuffle(page["bl"])
    probs = [probs[i - 1] for p in doc.d["pages"] for i in p["bl"]]
    doc.fonts()
    return doc, [x for r in probs for x in r]


def big_output(rng, kind):
    doc = Doc()
    few = rng.sample(range(14), 3)
    for _ in range({"pages": rng.randrange(50, 70), "block": 1, "line": 1, "blocks": 1}[kind]):
        page = doc.page(clip=(0, 0, 600 * PT, 800 * PT))
        for _ in range({"pages": rng.choice([0, 1, 2]), "block": 2, "line": 2, "blocks": rng.randrange(60, 120)}[kind]):
            n, m = {"block": (rng.randrange(60, 120), 2), "line": (3, rng.randrange(80, 130))}.get(kind, (rng.choice([1, 1, 2]), 2))
            lines = [output_line(rng, doc, page, m, kind != "line") for _ in range(n)]
            output_block(rng, doc, page, lines, False, rng.choice(few))
    doc.fonts()
    return doc


MANY = [a + b + c for a in "abTx" for b in "abhx" for c in ("a", "b", "e", "ab", "xx", "The")]


def big_roles(rng, kind):
    """The op lacks the vocabulary (real), unless a small one is enough."""
    doc = Doc()
    for _ in range({"pages": rng.randrange(30, 50), "blocks": 2, "text": 2}[kind]):
        page = doc.page(clip=(0, 0, 612 * PT, 792 * PT))
        for _ in range({"pages": rng.choice([0, 1, 2]), "blocks": rng.randrange(60, 120), "text": 1}[kind]):
            b = "x" * rng.randrange(300, 900) if kind == "text" and rng.random() < .3 else None
            text = b or " ".join(rng.choice(ROLEWORDS + VOCAB[:8] + MANY) for _ in range(rng.randrange(150, 400) if kind == "text" else rng.choice([0, 1, 3, 6])))
            ws = [doc.add("words", {"b": [0, 0, 0, 0], "t": t, "f": "F1", "s": 1600, "r": 0, "wm": 0, "c": [], "rk": 0}, page, "w") for t in text.split(" ")]
            output_block(rng, doc, page, [output_line(rng, doc, page, 0, words=ws)], True, text=text)
    doc.fonts()
    n = sum(len(p["bl"]) for p in doc.d["pages"])
    return doc, {"op": "predict", "p": [rng.choice([0, 100, 200, 900, 901]) for _ in range(14 * n)], "dim": 14,
                 "vocab": "a\t0\nab\t1\nba\t2\nTh\t3\nThe\u2702\t4\nxx\t5\nxxxx\t6\n"}


def big_layout(rng, kind):
    """Two or three columns of words, more or fewer than the number from which on cuts may run through elements, with some that
    do run across the gutters."""
    doc = Doc()
    acw = 2 * PT
    doc.d["st"] = dict(random_stats(rng), acw=acw, ach=2 * acw, mwd=acw)
    page = doc.page()
    edges = Edges()
    cols, rows = rng.choice([(2, 60), (2, 60), (3, 40)]), 0
    ncol, nrow = cols
    total = kind
    per = [total * w // 10 for w in rng.choice([(5, 5), (8, 2), (2, 8)])] if ncol == 2 else [total // 3] * 3
    x, y0, H = 40 * PT, 60 * PT, 600 * PT
    gutters = []
    for k in range(ncol):
        w = 200 * PT
        n = per[k]
        nrow = max(1, n // 10)
        for i in range(n):
            a = x + i % 10 * w // 10
            b = y0 + i // 10 * H // nrow
            put(rng, doc, page, edges, "w", [a, b, a + w // 10 - 3 * PT, b + min(4 * PT, H // nrow - PT)])
        x += w
        gutters.append(x)
        x += rng.choice([6, 10, 20]) * PT
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        g = rng.choice(gutters[:-1])
        y = rng.choice([y0 - 10 * PT, y0 - 5 * PT, y0 + H + 2 * PT, y0 + H + 20 * PT, y0 + rng.randrange(600) * PT])
        put(rng, doc, page, edges, rng.choice("wwsf"), [g - rng.choice([5, 50, 150]) * PT, y, g + rng.choice([8, 40, 150]) * PT, y + 3 * PT])
    doc.fonts()
    return doc
