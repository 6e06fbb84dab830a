"""The checks, one function per property."""
import hashlib
import json
import os
import random
import re

import gen
import lex
import lib
import pdf
import type1
from lib import TIER, histories, chunks

DEEP = TIER == "thorough"


def N(quick, thorough):
    return thorough if DEEP else quick


def stages(doc, *names):
    return {"ops": [{"op": "load", "doc": doc}] + [{"op": "stage", "name": n} for n in names]}


STAGES = ["glyphstats", "diacritics", "words", "wordstats", "segs", "lines", "scripts", "linestats", "blocks", "order", "dehyph"]


def only_last(recs, job):
    """The records from the document before the stages that are checked."""
    n = job["first"]
    return [{"op": "load", "doc": recs[n]["doc"], "job": recs[n]["job"]}] + recs[n + 1:] if len(recs) > n else recs


def exact_words(recs, job):
    """Without the statistics of the words, if there are words with inexact boxes (0.95 and 0.35 of the font size is a fraction that
    is not representable): equal gaps may then be different numbers."""
    r = only_last(recs, job)
    return [x for x in r if x.get("name") != "wordstats"
            or all(w["s"] % 1600 == 0 for w in x["doc"]["words"] if w["s"] >= x["doc"]["st"]["mfs"] - 320)]


def articles(c, n, clauses, keep, first, last=None, printed=(), post=only_last, size=None):
    """Whole articles: the stages up to the last one; those from the first one on are validated."""
    jobs = []
    for _ in range(n):
        p = pdf.article_pdf(c.rng, True, size=size) if c.rng.random() < .7 else pdf.feature_pdf(c.rng, size)
        ops = [p.job()] + [{"op": "stage", "name": x} for x in STAGES[:STAGES.index(last or first) + 1]]
        k = STAGES.index(first)
        if printed:
            ops.append({"op": "renumber"})
            ops += [{"op": "ser", "fmt": f, "roles": r, "kinds": ks} for f, r, ks in printed]
            k = len(STAGES)
        jobs.append({"ops": ops, "first": k})
    c.campaign("articles", jobs, clauses, keep=keep, post=post, timeout=60)


def large(c, make, kinds, jobs, clauses, keep=None, n=(3, 24), **kw):
    """A few documents that are much larger than those of the other campaigns: make(rng, kind) gives one, jobs(it) its job."""
    c.campaign("large documents", [jobs(make(c.rng, k)) for k in kinds for _ in range(N(*n))], clauses, keep=keep, timeout=60, **kw)


def char_pages(hs, text=None):
    """A document with one page per history of glyphs."""
    d = gen.Doc()
    for h in hs:
        page = d.page()
        for i, x in enumerate(h):
            c = {"b": x["b"], "s": x.get("s", 1600), "r": x.get("r", 0), "wm": x.get("wm", 0), "f": "F1",
                 "u": x.get("u", [97 + i]), "n": x.get("n", ""), "bs": x["b"][3]}
            c["t"] = x.get("t") or "".join(chr(u) for u in c["u"])
            if x.get("md"):
                c["md"] = len(d.d["chars"])           # the glyph before it
                d.d["chars"][-1]["mb"] = len(d.d["chars"]) + 1
                d.d["chars"][-1]["tm"] = d.d["chars"][-1]["t"] + "\u0308"
            d.char(page, c)
    return d.d


def c01(c):
    out = c.model("MCWords", "MCWords%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out)
    c.campaign("model histories", [stages(char_pages(x), "words") for x in chunks(hs, 40)], {"words"},
               keep={"chars", "words", "pages"})
    jobs = [stages(gen.glyph_doc(c.rng, size=16).d, "glyphstats", "diacritics", "words") for _ in range(N(350, 6000))]
    c.campaign("random pages", jobs, {"words"}, keep={"chars", "words", "pages"})
    articles(c, N(24, 400), {"words"}, {"chars", "words", "pages"}, "words")
    large(c, gen.big_glyphs, ["word", "page", "pages"], lambda d: stages(d.d, "glyphstats", "diacritics", "words"), {"words"},
          {"chars", "words", "pages"})


def mark_pages():
    """Every code point that might be a mark over a letter, in a run of two marks and before the letter."""
    with open(lib.SPEC + "/combining.json") as f:
        codes = {u for u, _ in json.load(f)} | {v for _, v in json.load(open(lib.SPEC + "/combining.json"))}
    codes = sorted(codes | {u + k for u in codes for k in (-1, 1)} | set(range(0x2a0, 0x380)))
    jobs = []
    for k in range(0, len(codes), 25):
        d = gen.Doc()
        for base in (97, 79, 0x3b1):
            page = d.page()
            for i, u in enumerate(codes[k:k + 25]):
                x, y = 1600 + i % 5 * 16000, 1600 + i // 5 * 8000
                for j, t in enumerate((u, base, u, 0x301, 98)):
                    d.char(page, gen.char(x + (0, 0, 160, 160, 1600)[j], y, 1600 if j in (1, 4) else 480, 1600, t=chr(t)))
        jobs.append(stages(d.d, "diacritics", "words"))
    return jobs


def c02(c):
    out = c.model("MCDiacritics", "MCDiacritics%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out)
    c.campaign("model histories", [stages(char_pages(x), "diacritics", "words") for x in chunks(hs, 40)],
               {"diacritics", "words"}, keep={"chars", "words", "pages"})
    jobs = []
    for _ in range(N(350, 6000)):
        d = gen.Doc()
        for _ in range(c.rng.choice([1, 1, 2])):
            page = d.page()
            for _ in range(c.rng.choice([1, 2])):
                gen.glyph_run(c.rng, d, page, c.rng.randrange(10, 400) * 160, c.rng.randrange(20, 700) * 160,
                              c.rng.randrange(1, 12), r=c.rng.choice([0, 0, 0, 1, 2, 3]), marks=0.5)
        jobs.append(stages(d.d, "diacritics", "words"))
    c.campaign("random pages", jobs, {"diacritics", "words"}, keep={"chars", "words", "pages"})
    c.campaign("every mark", mark_pages(), {"diacritics", "words"}, keep={"chars", "words", "pages"})
    articles(c, N(24, 400), {"diacritics"}, {"chars", "words", "pages"}, "diacritics")
    large(c, gen.big_glyphs, ["word", "page", "pages"], lambda d: stages(d.d, "diacritics", "words"), {"diacritics", "words"},
          {"chars", "words", "pages"})


def c03(c):
    out = c.model("MCStacked", "MCStacked%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out, N(6000, 60000), c.rng)
    c.campaign("model histories", [stages(char_pages(x), "words") for x in chunks(hs, 40)], {"stacked"},
               keep={"chars", "words", "pages"})
    jobs = []
    for _ in range(N(350, 6000)):
        d = gen.Doc()
        for _ in range(c.rng.choice([1, 2])):
            page = d.page()
            for _ in range(c.rng.choice([1, 2, 3])):
                gen.stacked(c.rng, d, page, c.rng.randrange(40, 300) * 160, c.rng.randrange(50, 600) * 160)
        jobs.append(stages(d.d, "diacritics", "words"))
    c.campaign("random formulas", jobs, {"stacked"}, keep={"chars", "words", "pages"})
    articles(c, N(24, 400), {"stacked"}, {"chars", "words", "pages"}, "words")
    large(c, gen.big_glyphs, ["formulas", "parts", "pages"], lambda d: stages(d.d, "diacritics", "words"), {"stacked"},
          {"chars", "words", "pages"})



LINEKEEP = {"chars", "words", "segs", "lines", "pages"}


def word_pages(hs, st):
    """A document with one page and segment per history of words."""
    d = gen.Doc()
    d.d["st"] = st
    for h in hs:
        page = d.page()
        seg = gen.add_seg(d, page)
        off = len(d.d["words"])
        for i, x in enumerate(h):
            b = x["b"]
            s = x.get("s", 1600)
            g = gen.char(b[0], b[1], b[2] - b[0], b[3] - b[1], t=x.get("t", "abcdefgh"[i]), s=s, r=x["r"], wm=x["wm"])
            gen.add_word(d, page, [g], seg, pst=x.get("pst", 0) and x["pst"] + off, bst=[y + off for y in x.get("bst", [])])
        gen.close_seg(d, seg)
    return d.d


def script_pages(hs):
    """A document with one page and line per history of glyphs; three plain glyphs in front fix the base line."""
    d = gen.Doc()
    d.d["st"] = MCST
    for h in hs:
        page = d.page()
        seg = gen.add_seg(d, page)
        g = [gen.char(29000 + 900 * i, 32300, 800, 700, s=1600) for i in range(3)]
        for x in h:
            b = x["b"]
            g.append(gen.char(b[0], b[1], b[2] - b[0], b[3] - b[1], s=x["s"], bs=x["bs"]))
        gen.add_word(d, page, g, seg)
        gen.close_seg(d, seg)
    return d.d


MCST = {"acw": 800, "ach": 1000, "mfs": 1600, "mfn": "F1", "mwd": 400, "meld": 200, "mld": 200, "mwh": 1000, "mllm": 0, "mldfs": []}


def stat_pages(h):
    d = gen.Doc()
    page = None
    for i, x in enumerate(h):
        if page is None or x["np"]:
            page = d.page()
        d.char(page, gen.char(i * 1000, 3000, x["w"], x["h"], s=x["s"], f=x["f"]))
    return d.d


def c04(c):
    out = c.model("MCStats", "MCStats%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out, N(3000, 40000), c.rng)
    c.campaign("model histories", [stages(stat_pages(h), "glyphstats") for h in hs], {"glyphstats"}, keep={"chars", "pages"})
    jobs = [stages(gen.glyph_doc(c.rng, size=10).d, "glyphstats", "diacritics", "words", "wordstats") for _ in range(N(200, 4000))]
    c.campaign("random pages", jobs, {"glyphstats", "wordstats"}, keep={"chars", "words", "pages"})
    jobs = [stages(gen.lines_doc(c.rng).d, "wordstats", "lines", "scripts", "linestats") for _ in range(N(250, 4000))]
    c.campaign("random lines", jobs, {"wordstats", "linestats"}, keep=LINEKEEP)
    articles(c, N(16, 200), {"glyphstats", "wordstats"}, {"chars", "words", "pages"}, "glyphstats", "wordstats", post=exact_words, size=1000)
    articles(c, N(16, 200), {"linestats"}, LINEKEEP, "linestats")
    large(c, gen.big_glyphs, ["word", "page", "pages"], lambda d: stages(d.d, "glyphstats", "diacritics", "words", "wordstats"),
          {"glyphstats", "wordstats"}, {"chars", "words", "pages"})
    large(c, gen.big_lines, ["wide", "long", "segs", "pages"], lambda d: stages(d.d, "wordstats", "lines", "scripts", "linestats"),
          {"wordstats", "linestats"}, LINEKEEP)


def c06(c):
    out = c.model("MCLines", "MCLines%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out, N(5000, 100000), c.rng)
    c.campaign("model histories", [stages(word_pages(x, MCST), "lines") for x in chunks(hs, 40)], {"lines"}, keep=LINEKEEP)
    jobs = [stages(gen.lines_doc(c.rng).d, "lines") for _ in range(N(350, 6000))]
    c.campaign("random segments", jobs, {"lines"}, keep=LINEKEEP)
    articles(c, N(24, 400), {"lines"}, LINEKEEP, "lines")
    large(c, gen.big_lines, ["wide", "long", "segs", "pages"], lambda d: stages(d.d, "lines"), {"lines"}, LINEKEEP)


def c07(c):
    out = c.model("MCHierarchy", "MCHierarchy%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out, N(5000, 60000), c.rng)
    c.campaign("model histories", [stages(word_pages(x, MCST), "lines") for x in chunks(hs, 40)], {"trim", "hierarchy"},
               keep=LINEKEEP)
    jobs = [stages(gen.lines_doc(c.rng).d, "lines") for _ in range(N(350, 6000))]
    c.campaign("random segments", jobs, {"trim", "hierarchy"}, keep=LINEKEEP)
    articles(c, N(24, 400), {"trim", "hierarchy"}, LINEKEEP, "lines")
    large(c, gen.big_lines, ["wide", "long", "segs", "pages"], lambda d: stages(d.d, "lines"), {"trim", "hierarchy"}, LINEKEEP)


def c08(c):
    out = c.model("MCScripts", "MCScripts%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out)
    c.campaign("model histories", [stages(script_pages(x), "lines", "scripts") for x in chunks(hs, 40)], {"scripts"}, keep=LINEKEEP)
    jobs = [stages(gen.lines_doc(c.rng).d, "lines", "scripts") for _ in range(N(350, 6000))]
    c.campaign("random segments", jobs, {"scripts"}, keep=LINEKEEP)
    articles(c, N(24, 400), {"scripts"}, LINEKEEP, "scripts")
    large(c, gen.big_lines, ["wide", "long", "segs", "pages"], lambda d: stages(d.d, "lines", "scripts"), {"scripts"}, LINEKEEP)


BLOCKKEEP = {"chars", "words", "segs", "lines", "blocks", "figs", "pages", "fonts"}


MCBST = {"acw": 800, "ach": 1120, "mfs": 1600, "mfn": "F1", "mwd": 400, "meld": 320, "mld": 320, "mwh": 1120, "mllm": 0, "mldfs": []}


def block_pages(hs):
    """A document with one page and segment per history of lines (of two words each)."""
    d = gen.Doc()
    d.d["st"] = MCBST
    for h in hs:
        page = d.page()
        seg = gen.add_seg(d, page)
        for x in h:
            b, k = x["b"], x["k"]
            t = k["t"]
            first, mark = (t.split("^") + [None])[:2] if "^" in t else (t, None)
            end = "REST" if t == "BOLD" else "rest" + ("." if t.endswith("a.") else "")
            if t == "^1":
                gl = [("1", 1), ("T", 0), ("h", 0)]
            elif mark:
                gl = [(first, 0), (mark, 1)]
            else:
                gl = [(y, 0) for y in first.rstrip(".") or first] if t == "alpha." else [(y, 0) for y in first]
            w = 2400 // len(gl) // 10 * 10
            gs = []
            for i, (y, sup) in enumerate(gl):
                e = b[0] + 2400 if i == len(gl) - 1 else b[0] + (i + 1) * w
                s = k["s"] * 6 // 10 if sup else k["s"]
                if sup:
                    gs.append(gen.char(b[0] + i * w, b[1], e - b[0] - i * w, 600, t=y, s=s, f=k["f"]))
                else:
                    gs.append(gen.char(b[0] + i * w, b[1], e - b[0] - i * w, b[3] - b[1], t=y, s=s, f=k["f"]))
            gen.add_word(d, page, gs, seg)
            w = (b[2] - b[0] - 2800) // len(end) // 10 * 10
            gs = []
            for i, y in enumerate(end):
                x0 = b[0] + 2800 + i * w
                e = b[2] if i == len(end) - 1 else x0 + w
                gs.append(gen.char(x0, b[1], e - x0, b[3] - b[1], t=y, s=k["s"], f=k["f"]))
            gen.add_word(d, page, gs, seg)
        gen.close_seg(d, seg)
    d.fonts()
    return d.d


def blocks(c, clauses):
    out = c.model("MCBlocks", "MCBlocks%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out, N(1500, 40000), c.rng)
    c.campaign("model histories", [stages(block_pages(x), "lines", "scripts", "blocks") for x in chunks(hs, 12)], clauses,
               keep=BLOCKKEEP)
    jobs = [stages(gen.blocks_doc(c.rng).d, "lines", "scripts", "blocks") for _ in range(N(240, 6000))]
    jobs += [stages(gen.blocks_doc(c.rng, x).d, "lines", "scripts", "blocks") for x in ("hang", "list", "hangs", "axis", "axis")
             for _ in range(N(60, 1500))]
    c.campaign("random segments", jobs, clauses, keep=BLOCKKEEP)
    jobs = [stages(d.d, "lines", "scripts", "blocks") for _ in range(N(1, 12)) for d in gen.label_docs(c.rng)]
    c.campaign("every label", jobs, clauses, keep=BLOCKKEEP)
    articles(c, N(16, 250), clauses, BLOCKKEEP, "blocks")
    large(c, gen.big_blocks, ["long", "long", "pages"], lambda d: stages(d.d, "lines", "scripts", "blocks"), clauses, BLOCKKEEP)


def c09(c):
    blocks(c, {"blocks"})


def c10(c):
    blocks(c, {"blockattrs"})


XYKEEP = {"words", "segs", "blocks", "figs", "shapes", "graphics", "cuts", "pages"}


def xy_pages(hs, as_blocks=False):
    """A document with one page per history of elements."""
    d = gen.Doc()
    d.d["st"] = dict(MCST, mwd=400)
    probs = []
    for h in hs:
        page = d.page()
        for x in h:
            b, k = x["b"], x["e"][1]
            o = {"b": b, "r": x["r"], "wm": x["wm"], "rk": x["rk"]}
            if x["e"][0] == "s":
                d.add("shapes", dict(o, r=0), page, "sh")
            elif as_blocks:
                w = gen.add_word(d, page, [gen.char(b[0], b[1], 800, 800)])
                ln = d.add("lines", dict(o, t="a", f="F1", s=1600, w=[w], blk=len(d.d["blocks"]) + 1, bb=b, bs=b[3], r=0), page)
                d.add("blocks", dict(o, t="a", f="F1", s=1600, l=[ln], tb=b), page, "bl")
                probs += [900 if i == x["role"] else 0 for i in range(14)]
            else:
                gen.add_word(d, page, [gen.char(b[0], b[1], b[2] - b[0], b[3] - b[1], r=x["r"])], rk=x["rk"])
    d.fonts()
    return d.d, probs


def raw_cuts(doc, specs):
    return {"ops": [{"op": "load", "doc": doc}] + [dict(op="xycut", fn=f, mx=mx, my=my, minx=gx, miny=gy, maxov=ov)
                                                   for f, mx, my, gx, gy, ov in specs]}


def c05(c):
    out = c.model("MCXYCut", "MCXYCut%s.cfg" % ("Deep" if DEEP else ""), coverage=False)
    hs = histories(out, N(1600, 60000), c.rng)
    jobs = []
    for x in chunks(hs, 40):
        d = xy_pages(x)[0]
        jobs.append(raw_cuts(d, [("xy", "all", "all", 480, 320, 1), ("x", "odd", "none", 0, 0, 0)]))
        jobs.append({"ops": [{"op": "load", "doc": d}, {"op": "stage", "name": "segs", "ovn": 2}]})
    c.campaign("model histories", jobs, {"xycut", "segs"}, keep=XYKEEP)
    jobs = []
    for _ in range(N(700, 8000)):
        d = gen.layout_doc(c.rng, c.rng.choice([20, 40, 60])).d
        jobs.append({"ops": [{"op": "load", "doc": d}, {"op": "stage", "name": "segs", "ovn": c.rng.choice([2, 5, 20, 500])}]})
    for _ in range(N(100, 2000)):
        d = gen.layout_doc(c.rng, 20).d
        jobs.append(raw_cuts(d, [(c.rng.choice(["x", "y", "xy", "xy"]), c.rng.choice(["all", "odd", "none"]),
                                  c.rng.choice(["all", "odd", "none"]), c.rng.choice([0, 10, 320, 800]), c.rng.choice([0, 320, 330]),
                                  c.rng.choice([0, 0, 1, 2, 3, 1000]))]))
    for _ in range(N(3, 20)):      # many elements, with the default parameter
        d = gen.layout_doc(c.rng, 620).d
        jobs.append({"ops": [{"op": "load", "doc": d}, {"op": "stage", "name": "segs"}]})
    c.campaign("random pages", jobs, {"xycut", "segs"}, keep=XYKEEP)
    large(c, gen.big_layout, [400, 505, 505, 540, 620], lambda d: {"ops": [{"op": "load", "doc": d.d}, {"op": "stage", "name": "segs"}]},
          {"xycut", "segs"}, XYKEEP, (2, 24))


def c11(c):
    out = c.model("MCXYCut", "MCXYCut%s.cfg" % ("Deep" if DEEP else ""), coverage=False)
    hs = histories(out, N(2400, 60000), c.rng)
    jobs = []
    for x in chunks(hs, 40):
        d, p = xy_pages(x, True)
        jobs.append({"ops": [{"op": "load", "doc": d}, {"op": "roles", "p": p}, {"op": "stage", "name": "order"}]})
    c.campaign("model histories", jobs, {"order"}, keep=XYKEEP)
    jobs = []
    for _ in range(N(900, 12000)):
        d, p = gen.order_doc(c.rng)
        jobs.append({"ops": [{"op": "load", "doc": d.d}, {"op": "roles", "p": p}, {"op": "stage", "name": "order"}]})
    c.campaign("random pages", jobs, {"order"}, keep=XYKEEP)
    large(c, gen.big_order, ["page", "page", "page", "pages"], lambda x: {"ops": [{"op": "load", "doc": x[0].d}, {"op": "roles", "p": x[1]},
                                                                     {"op": "stage", "name": "order"}]}, {"order"}, XYKEEP)


OUTKEEP = {"chars", "words", "lines", "blocks", "pages", "hyph", "fonts", "figs", "shapes"}
KINDS = ["page", "char", "word", "block", "figure", "shape"]


def output_pages(h):
    """The document of a history of MCOutput."""
    d = gen.Doc()
    page, lines, ws = None, [], []
    for i, x in enumerate(h):
        if x["k"] == "p":
            page = d.page()
        w = gen.output_word(OUTRNG, d, page, text=x["t"])
        d.d["words"][-1]["t"] = x["t"]
        if x["k"] == "w":
            ws.append(w)
        else:
            ws = [w]
            if x["k"] == "l":
                lines.append(ws)
            else:
                lines = [ws]
        nxt = h[i + 1]["k"] if i + 1 < len(h) else "p"
        if nxt in "brp":
            ls = [gen.output_line(OUTRNG, d, page, 0, words=y) for y in lines]
            k = [y["k"] for y in h[:i + 1] if y["k"] in "brp"][-1]
            gen.output_block(OUTRNG, d, page, ls, role=1 if k == "r" else 0)
    d.fonts()
    return d.d


OUTRNG = gen.random.Random(7)


def sers(doc, specs, *before):
    return {"ops": [{"op": "load", "doc": doc}] + [{"op": "stage", "name": n} for n in before] +
            [{"op": "ser", "fmt": f, "roles": r, "kinds": k} for f, r, k in specs]}


def c12(c):
    out = c.model("MCOutput", "MCOutput%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out, N(6000, 200000), c.rng)
    c.campaign("model histories", [stages(output_pages(h), "dehyph") for h in hs], {"dehyph"}, keep=OUTKEEP)
    jobs = [stages(gen.output_doc(c.rng).d, "dehyph") for _ in range(N(1500, 20000))]
    c.campaign("random documents", jobs, {"dehyph"}, keep=OUTKEEP)
    articles(c, N(24, 400), {"dehyph"}, OUTKEEP, "dehyph")
    large(c, gen.big_output, ["pages", "block", "line", "blocks"], lambda d: stages(d.d, "dehyph"), {"dehyph"}, OUTKEEP)


def c13(c):
    out = c.model("MCOutput", "MCOutput%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out, N(3000, 100000), c.rng)
    c.campaign("model histories", [sers(output_pages(h), [("txt", range14, []), ("ext", range14, [])], "dehyph") for h in hs], {"ser"},
               keep=OUTKEEP)
    jobs = [sers(gen.output_doc(c.rng).d, [("txt", range14, []), ("ext", range14, [])], *c.rng.choice([[], ["dehyph"]]))
            for _ in range(N(1200, 16000))]
    c.campaign("random documents", jobs, {"ser"}, keep=OUTKEEP)
    articles(c, N(16, 200), {"ser"}, OUTKEEP, "dehyph", printed=[("txt", [], []), ("ext", [], [])])
    large(c, gen.big_output, ["pages", "block", "line", "blocks"],
          lambda d: sers(d.d, [("txt", range14, []), ("ext", range14, [])], "dehyph"), {"ser"}, OUTKEEP)


range14 = list(range(14))


def c14(c):
    out = c.model("MCOutput", "MCOutput%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out, N(800, 20000), c.rng)
    c.campaign("model histories", [sers(output_pages(h), [("jsonl", range14, KINDS)], "dehyph") for h in hs], {"ser"}, keep=OUTKEEP)
    jobs = []
    for _ in range(N(1200, 16000)):
        ks = c.rng.choice([KINDS, [], c.rng.sample(KINDS, c.rng.randrange(1, 5))])
        jobs.append(sers(gen.output_doc(c.rng).d, [("jsonl", range14, ks)], *c.rng.choice([[], ["dehyph"]])))
    c.campaign("random documents", jobs, {"ser"}, keep=OUTKEEP)
    articles(c, N(12, 150), {"ser"}, OUTKEEP, "dehyph", printed=[("jsonl", [], KINDS)])
    large(c, gen.big_output, ["pages", "block", "line", "blocks"], lambda d: sers(d.d, [("jsonl", range14, KINDS)], "dehyph"), {"ser"}, OUTKEEP)


def c15(c):
    out = c.model("MCOutput", "MCOutput%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out, N(1500, 50000), c.rng)
    c.campaign("model histories", [sers(output_pages(h), [("txt", [0], []), ("ext", [1], []), ("jsonl", [1], ["word", "char", "block"])],
                                        "dehyph") for h in hs], {"ser"}, keep=OUTKEEP)
    jobs = []
    for _ in range(N(900, 12000)):
        d = gen.output_doc(c.rng).d
        have = sorted({b["role"] for b in d["blocks"]}) or [0]
        specs = []
        for f in ("txt", "ext", "jsonl"):
            r = c.rng.choice([[], range14, [c.rng.choice(have)], c.rng.sample(have, c.rng.randrange(1, len(have) + 1)),
                              [x for x in range14 if x not in have[:1]]])
            specs.append((f, r, c.rng.choice([KINDS, [], ["block"], ["char", "word"]])))
        jobs.append(sers(d, specs, "dehyph"))
    c.campaign("random documents", jobs, {"ser"}, keep=OUTKEEP)
    large(c, gen.big_output, ["pages", "block", "line", "blocks"],
          lambda d: sers(d.d, [(f, [d.d["blocks"][0]["role"]], ["word", "block"]) for f in ("txt", "ext", "jsonl")], "dehyph"), {"ser"}, OUTKEEP)


VOCABS = {}


def add_vocab(recs, job):
    v = next((o.get("vocab") for o in job["ops"] if o["op"] == "predict"), None)
    if v is None:
        if "real" not in VOCABS:
            with open(lib.REPO + "/resources/models/2021-08-30_model-3K-documents/bpe-vocab.tsv", encoding="utf-8") as f:
                VOCABS["real"] = lex.vocabulary(f.read())
        voc = VOCABS["real"]
    else:
        voc = lex.vocabulary(v)
    for r in recs:
        if r["op"] == "predict":
            r["aux"]["vocab"] = voc
    return recs


def c16(c):
    out = c.model("MCBPE", "MCBPE%s.cfg" % ("Deep" if DEEP else ""))
    by = {}
    for h in histories(out):
        by.setdefault(json.dumps(h["v"], sort_keys=True), []).append(h["word"])
    jobs = []
    for v, words in by.items():
        d = gen.Doc()
        page = d.page()
        for ws in chunks(words, 12):
            gen.output_block(OUTRNG, d, page, [], True, text=" ".join(ws))
        d.fonts()
        jobs.append({"ops": [{"op": "load", "doc": d.d},
                             {"op": "predict", "vocab": "".join("%s\t%d\n" % x for x in (json.loads(v) or {}).items()), "p": []}]})
    c.campaign("model histories", jobs, {"predict"}, keep=OUTKEEP, post=add_vocab)
    jobs = []
    for i in range(N(700, 10000)):
        d, op = gen.roles_doc(c.rng, real=i < N(12, 100))
        jobs.append({"ops": [{"op": "load", "doc": d.d}, op]})
    c.campaign("random documents", jobs, {"predict"}, keep=OUTKEEP, post=add_vocab)
    large(c, gen.big_roles, ["pages", "blocks", "text"], lambda x: {"ops": [{"op": "load", "doc": x[0].d}, x[1]]}, {"predict"}, OUTKEEP,
          post=add_vocab)


def c17(c):
    out = c.model("MCContent", "MCContentText%s.cfg" % ("Deep" if DEEP else ""), coverage=False)
    hs = histories(out, N(4500, 80000), c.rng)
    jobs = [{"ops": [pdf.history_pdf(x, rots=(0, 0, 90, 180, 270)).job()]} for x in chunks(hs, 30)]
    c.campaign("model histories", jobs, {"glyphs", "fontinfo"}, keep=PDFKEEP)
    jobs = [{"ops": [pdf.random_pdf(c.rng).job()]} for _ in range(N(900, 16000))]
    jobs += [{"ops": [pdf.fonts_pdf(c.rng).job()]} for _ in range(N(250, 3000))]
    c.campaign("random content streams", jobs, {"glyphs", "fontinfo"}, keep=PDFKEEP)
    jobs = [{"ops": [pdf.codes_pdf(c.rng, x).job()]} for x in chunks(pdf.ODDCODES, 40)]
    c.campaign("every code point", jobs, {"glyphs"}, keep=PDFKEEP)
    large(c, pdf.big_pdf, ["pages", "content", "nested"], lambda p: {"ops": [p.job()]}, {"glyphs", "fontinfo"}, PDFKEEP)


def c18(c):
    out = c.model("MCContent", "MCContentGfx%s.cfg" % ("Deep" if DEEP else ""), coverage=False)
    hs = histories(out, N(4500, 80000), c.rng)
    jobs = [{"ops": [pdf.history_pdf(x, rots=(0, 0, 90, 180, 270)).job()]} for x in chunks(hs, 30)]
    c.campaign("model histories", jobs, {"figures"}, keep=PDFKEEP)
    jobs = [{"ops": [pdf.random_pdf(c.rng, 24).job()]} for _ in range(N(900, 16000))]
    c.campaign("random content streams", jobs, {"figures"}, keep=PDFKEEP)
    jobs = []
    for key, m in (("image-straddle", (100, 0, 0, 50, 550000, 100000)), ("image-rotated", (0, 50, -100, 0, 200000, 100000))):
        p = pdf.Pdf()
        page = p.page()
        page.q()
        page.cm(m)
        page.image()
        page.Q()
        jobs.append({"finding": key, "ops": [p.job()]})
    c.campaign("known findings", jobs, {"figures"}, keep=PDFKEEP)
    large(c, pdf.big_pdf, ["pages", "content", "nested", "path"], lambda p: {"ops": [p.job()]}, {"figures"}, PDFKEEP)


def calls(cs):
    return {"ops": [{"op": "calls", "calls": cs}]}


WHITE = ["\t", "\n", "\u000b", "\f", "\r", " "]


def random_call(r):
    """A call of a utility function with random arguments (numbers are multiples of 1/16 pt)."""
    def num(k=60):
        return 10 * r.randrange(-k, k + 1)

    def text(al, n):
        return "".join(r.choice(al) for _ in range(r.randrange(n)))
    f = r.choice(["equal", "larger", "smaller", "equalOrLarger", "equalOrSmaller", "between", "round", "minimum", "maximum",
                  "overlap", "pair", "pair", "pair", "split", "split", "wsplit", "sentence", "upper", "escape", "shorten", "strip",
                  "strip", "wrap", "wrap", "wrap", "join", "join"])
    c = {"fn": f}
    if f in ("equal", "larger", "smaller", "equalOrLarger", "equalOrSmaller"):
        a = num()
        c["n"] = [a, r.choice([a, a + num(3), num()])] + r.choice([[], [10 * r.randrange(5)]])
    elif f == "between":
        a = num()
        c["n"] = [r.choice([a, num()]), a, a + 10 * r.randrange(30)] + r.choice([[], [10 * r.randrange(5)]])
    elif f == "round":
        c["n"], c["d"] = [num(4000)], r.randrange(4)
    elif f in ("minimum", "maximum"):
        c["n"] = [num() for _ in range(r.randrange(2, 5))]
    elif f == "overlap":
        c["n"] = [num(r.choice([5, 60])) for _ in range(4)]
    elif f == "pair":
        for k in "ab":
            x, y = num(), num()
            c[k] = {"b": [x, y, x + 10 * r.randrange(r.choice([4, 90])), y + 10 * r.randrange(r.choice([4, 90]))],
                    "r": r.randrange(4), "f": r.choice(["F1", "F2"]), "s": 1600 + num(3)}
        if r.random() < 0.4:
            for i in range(4):
                if r.random() < 0.5:
                    c["b"]["b"][i] = c["a"]["b"][i] + num(2)
            bb = c["b"]["b"]
            c["b"]["b"] = [min(bb[0], bb[2]), min(bb[1], bb[3]), max(bb[0], bb[2]), max(bb[1], bb[3])]
        c["tol"] = 10 * r.randrange(4)
    elif f == "split":
        if r.random() < 0.5:
            d = r.choice([",", ",; ", " \n\t\r\u000b\f", "ab", "-"])
            c["t"], c["ds"] = [text(list(d) * 2 + list("abcde-,; "), 14), d], sorted(set(d))
        else:
            c["t"], c["ds"] = [text(WHITE + list("abcxyz."), 14 if r.random() < .99 else 5000)], WHITE
    elif f == "wsplit":
        c["t"], c["ds"] = [text(WHITE + list("abcxyz."), 14 if r.random() < .99 else 5000)], WHITE
    elif f == "sentence":
        c["t"] = [text("ab ?!.);:,(-", 6)]
    elif f == "upper":
        c["t"] = [r.choice(["", text("aAbBzZ19 .-", 6), text("aAbBzZ19 .-[`@{", 6)])]
        c["up"] = c["t"][0][:1] in set("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
    elif f == "escape":
        c["t"] = [text(["\"", "\\", "/", "\b", "\f", "\n", "\r", "\t", "a", " ", "\u0001", "\u001f", "\u007f", "\u00e9", "\u20ac",
                        "\U0001d4d0", "{", "'"], 12)]
    elif f == "shorten":
        c["t"], c["d"] = [text("abc def", 16)], r.randrange(18)
    elif f == "strip":
        c["t"], c["ds"] = [text(WHITE + list("ab"), r.choice([2, 5, 12]))], WHITE
    elif f == "wrap":
        e = r.choice([0, 0, 1, 2, 5])
        c["t"] = [text(r.choice(["ab ", "abcd \n", "abcdefgh ", "a \n", "abcdefghijklmnop \n"]), r.choice([4, 30, 60]))]
        c["e"], c["d"] = e, e + r.randrange(1, 22)
    elif f == "join":
        c["v"], c["t"] = [text("abc", 4) for _ in range(r.randrange(6))], [r.choice(["", " ", ", ", "ab"])]
    return c


def decode_escaped(recs, job):
    for x in recs:
        if x["op"] == "calls":
            for k, v in zip(x["calls"], x["res"]):
                if k["fn"] == "escape":
                    try:
                        k["dec"] = json.loads('"' + v + '"')
                    except ValueError:
                        k["dec"] = "(not a JSON string)" + v
    return recs


def c23(c):
    out = c.model("MCGeometry", "MCGeometry%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out)
    pairs = []
    for a, b in hs:
        for x in (a, b):
            x.update(f=c.rng.choice("FG"), s=1600 + 10 * c.rng.randrange(3))
        pairs.append({"fn": "pair", "a": a, "b": b, "tol": 10 * c.rng.randrange(3)})
    c.campaign("model geometry", [calls(x) for x in chunks(pairs, 500)], {"utils"})
    jobs = []
    out = c.model("MCUtils", "MCUtilsCounter%s.cfg" % ("Deep" if DEEP else ""))
    for h in histories(out):
        kind = h["kind"][0]
        for o in h["ops"]:
            o["k"] *= 10
        jobs.append({"op": "counter", "kind": kind, "ops": h["ops"]})
    out = c.model("MCUtils", "MCUtilsQueue%s.cfg" % ("Deep" if DEEP else ""))
    for h in histories(out):
        jobs.append({"op": "queue", "kind": h["kind"][0], "cap": h["kind"][1], "ops": h["ops"]})
    c.campaign("model histories", [{"ops": x} for x in chunks(jobs, 300)], {"utils"})
    jobs = []
    for _ in range(N(150, 3000)):
        ops = []
        for _ in range(20):
            kind = c.rng.choice(["double", "string"])
            ks = [10 * k for k in range(-3 if kind == "double" else 1, 6)]
            ops.append({"op": "counter", "kind": kind,
                        "ops": [{"f": c.rng.choice(["inc"] * 5 + ["set", "mode", "sum", "max"]), "k": c.rng.choice(ks),
                                 "v": c.rng.randrange(5), "p": 0, "m": ""} for _ in range(c.rng.randrange(1, 40))]})
        for _ in range(20):
            n, q = 0, []
            cap = c.rng.randrange(1, 12)
            for _ in range(c.rng.randrange(1, 50)):
                f = c.rng.choice(["push"] * 4 + ["sort"] + (["pop", "top"] if n else []))
                n = min(n + 1, cap) if f == "push" else n - 1 if f == "pop" else n
                q.append({"f": f, "k": c.rng.randrange(2) if f == "sort" else c.rng.randrange(-9, 10), "v": 0, "p": 0, "m": ""})
            ops.append({"op": "queue", "kind": c.rng.choice(["max", "min"]), "cap": cap, "ops": q})
        jobs.append({"ops": ops})
    for n in N([3000], [3000] * 20):            # long histories, with many keys
        kind = c.rng.choice(["double", "string"])
        jobs.append({"ops": [{"op": "counter", "kind": kind,
                              "ops": [{"f": c.rng.choice(["inc"] * 50 + ["set"] * 5 + ["mode", "sum", "max"]), "k": 10 * c.rng.randrange(1, 400),
                                       "v": c.rng.randrange(500), "p": 0, "m": ""} for _ in range(n // 3)]},
                             {"op": "queue", "kind": c.rng.choice(["max", "min"]), "cap": 300,
                              "ops": [{"f": "push" if c.rng.random() < .97 else "sort", "k": c.rng.randrange(-500, 500), "v": 0, "p": 0, "m": ""}
                                      for _ in range(n // 10)]}]})
    c.campaign("random histories", jobs, {"utils"})
    jobs = [calls([random_call(c.rng) for _ in range(150)]) for _ in range(N(200, 4000))]
    jobs.append(calls([{"fn": "random", "d": d, "t": [p, al]} for d, p, al in
                       ((8, "", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"), (8, "tb-", "abc"), (3, "x", "01"),
                        (5, "", "z"), (0, "pre", "ab"), (20, "", "0123456789abcdef"))] +
                      [{"fn": "names", "t": [x]} for x in (", ", " ", "|")]))
    c.campaign("random calls", jobs, {"utils"}, post=decode_escaped)


LOGLINE = re.compile(r"^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3})\t- ((?:\x1b\[[0-9;]*m)*)((?:TRACE|DEBUG|ERROR):|(?:INFO|WARN): )"
                     r"((?:\x1b\[[0-9;]*m)*) (.*)\n$", re.S)


def log_aux(recs, job):
    for x in recs:
        if x["op"] == "logger":
            x["aux"] = []
            for v in x["res"]:
                m = LOGLINE.match(v)
                x["aux"].append({"empty": v == "", "level": m.group(3) if m else "", "text": m.group(5) if m else v, "time": bool(m)})
    return recs


def c25(c):
    out = c.model("MCUtils", "MCUtilsLogger%s.cfg" % ("Deep" if DEEP else ""))
    jobs = [{"op": "logger", "level": 4, "filter": -1, "ops": h["ops"]} for h in histories(out)]
    c.campaign("model histories", [{"ops": x} for x in chunks(jobs, 200)], {"log"}, post=log_aux)
    jobs = []
    for _ in range(N(100, 2000)):
        ops = []
        for _ in range(25):
            ops.append({"op": "logger", "level": c.rng.randrange(5), "filter": c.rng.choice([-1, 0, 1, 2, 7]),
                        "ops": [{"f": f, "k": c.rng.randrange(5) if f != "filter" else c.rng.choice([-1, 0, 1, 2, 7]),
                                 "p": c.rng.choice([0, 1, 2, 7, 70]), "v": 0, "m": c.rng.choice(["", "a message", "x\ty", "90% {}"])}
                                for f in c.rng.choices(["log", "level", "filter"], [8, 1, 1], k=30)]})
        jobs.append({"ops": ops})
    c.campaign("random histories", jobs, {"log"}, post=log_aux)
    jobs = []
    for k in range(N(10, 250)):
        p = pdf.article_pdf(c.rng, True) if k % 5 else pdf.tiny_pdf(c.rng)
        base = {"op": "process", "hex": p.bytes().hex(), "file": "A", "readable": True, "p": score(c.rng),
                "disabled": [x for x in ALLSTAGES if c.rng.random() < .04], "last": False}
        ops = [{**base, "level": 0, "filter": 0}]
        ops += [{**base, "level": v, "filter": 0} for v in range(1, 5)]
        fs = [99] + list(range(1, len(p.pages) + 1))
        ops += [{**base, "level": 0, "filter": f, "last": f == fs[-1]} for f in fs]
        ops += [{**base, "level": 1, "filter": 1}]
        jobs.append({"ops": ops})
    c.campaign("pipeline", jobs, {"log"}, timeout=120)
    large(c, lambda rng, k: {"op": "process", "hex": pdf.big_pdf(rng, "pages").bytes().hex(), "file": "A", "readable": True, "p": score(rng),
                             "disabled": [], "last": False}, [0],
          lambda b: {"ops": [{**b, "level": 0, "filter": 0}] + [{**b, "level": 0, "filter": f, "last": f == 120} for f in [999] + list(range(1, 121))]},
          {"log"}, n=(1, 8))


def c24(c):
    out = c.model("MCType1", "MCType1%s.cfg" % ("Deep" if DEEP else ""))
    subrs = json.loads(json.loads(re.search(r'^"SUBRS .*"$', out, re.M)[0])[6:])
    # TLC writes the empty records and sequences alike.
    progs = [h["p"] for h in histories(out)]

    def job(ps, ss, **kw):
        return {"ops": [pdf.type1_pdf(c.rng, ss, [(c.rng.choice(["q%d"] * 6 + ["q.%d", "q-%d", "q_%d", "%dq", "q:%d"]) % i, p)
                                                         for i, p in enumerate(ps)], **kw).job()]}
    clauses = {"type1", "glyphs", "fontinfo"}
    keep = PDFKEEP
    c.campaign("model histories", [job(x, subrs) for x in chunks(progs, 200)], clauses, keep=keep)

    def table():
        ss = subrs[:7]
        for i in range(7, c.rng.randrange(7, 12)):
            ss = ss + [pdf.random_program(c.rng, i - 1) + [{"o": "return", "n": 0}]]
        return ss
    jobs = []
    for i in range(N(150, 4000)):
        ss = table()
        want = c.rng.choice([b"ND", b"RD", b" /"]) if i % 10 == 0 else None
        jobs.append(job([pdf.random_program(c.rng, len(ss)) for _ in range(40)], ss, want=want))
    c.campaign("random programs", jobs, clauses, keep=keep)
    jobs = []
    for _ in range(N(1500, 20000)):
        ss = table()
        jobs.append(job([pdf.random_program(c.rng, len(ss)) for _ in range(c.rng.choice([1, 5, 20]))], ss, damage=c.rng.randrange(1, 6)))
    c.campaign("damaged programs", jobs, {"type1"}, keep=keep)
    large(c, lambda rng, k: (lambda ss: job([pdf.random_program(rng, len(ss), k) for _ in range(12)], ss))(table()), [80, 300],
          lambda x: x, clauses, keep)
    jobs = []
    for _ in range(N(3, 30)):                           # more procedures than a byte can number
        ss = table()
        while len(ss) < 420:
            ss.append(type1.toks("%d %d %s return" % (c.rng.randrange(-300, 300), c.rng.randrange(-300, 300), c.rng.choice(["rmoveto", "rlineto"]))))
        jobs.append(job([type1.toks("0 500 hsbw 10 10 rmoveto " + " ".join("%d callsubr" % c.rng.randrange(7 if c.rng.random() < .2 else 200, len(ss))
                                                                           for _ in range(5)) + " endchar") for _ in range(40)], ss))
    c.campaign("many procedures", jobs, clauses, keep=keep)


ALLSTAGES = ["glyphstats", "diacritics", "words", "wordstats", "segs", "lines", "scripts", "linestats", "blocks", "order", "dehyph"]


def runs(files, hist, p=None, compose=True, **kw):
    """The runs of a history: for each the pipeline, and (for the files that can be read) its stages one by one."""
    ops = []
    for x in hist:
        f = files[x["f"]]
        base = {"file": x["f"], "disabled": sorted(x["o"]), "readable": x["f"] not in ("bad", "none"), "last": False, "level": 4, "filter": 0,
                "p": p or [], **f, **kw}
        if base["readable"] and compose:
            ops.append({"op": "compose", "stages": [s for s in ALLSTAGES if s not in x["o"]], **base})
        ops.append({"op": "process", **base})
    return {"ops": ops}


def score(rng, n=14 * 40):
    return [rng.choice([0, 1, 250, 500, 900]) for _ in range(n)]


def c19(c):
    bad = {"bad": {"hex": b"this is no PDF file".hex()}, "none": {"path": "/nonexistent/file.pdf"}}

    def file(p):
        return {"hex": p.bytes().hex()}
    out = c.model("MCPipeline", "MCPipelineSwitches.cfg")
    hs = histories(out, N(450, 8000), c.rng)
    jobs = [runs({"A": file(pdf.tiny_pdf(c.rng)), **bad}, h, score(c.rng)) for h in hs]
    jobs += [runs({"A": file(pdf.tiny_pdf(c.rng))}, [{"f": "A", "o": [x]}], score(c.rng)) for x in ALLSTAGES + ["roles", "fontfiles"]]
    c.campaign("every set of switches", jobs, {"pipeline", "deterministic"})
    out = c.model("MCPipeline", "MCPipelineRuns%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out, N(150, 4000), c.rng)
    jobs = []
    for h in hs:
        fs = {"A": file(pdf.tiny_pdf(c.rng)), "B": file(pdf.tiny_pdf(c.rng)), **bad}
        jobs.append(runs(fs, h + [h[0]], score(c.rng)))
    c.campaign("sequences of files", jobs, {"pipeline", "deterministic"})
    jobs = []
    for _ in range(N(120, 4000)):
        fs = {k: file(pdf.feature_pdf(c.rng)) for k in "ABCDE"}
        order = c.rng.sample(sorted(fs), 5)
        jobs.append(runs(fs, [{"f": k, "o": []} for k in order + order[::-1]], score(c.rng), compose=False))
    c.campaign("files with different features", jobs, {"deterministic"})
    jobs = []
    for _ in range(N(16, 500)):
        fs = {"A": file(pdf.article_pdf(c.rng, True)), "B": file(pdf.random_pdf(c.rng))}
        off = [x for x in ALLSTAGES + ["roles", "fontfiles"] if c.rng.random() < .1]
        jobs.append(runs(fs, [{"f": "A", "o": off}, {"f": "B", "o": []}, {"f": "A", "o": off}], score(c.rng)))
    c.campaign("articles", jobs, {"pipeline", "deterministic"})


def add_nfd(recs, job):
    """The decomposition of the printed texts and of the texts of the glyphs."""
    ts = set()
    for x in recs:
        if x["op"] == "pdf":
            ts |= {c["t"] for c in x["doc"]["chars"]}
            for f in x.get("fonts", []):
                ts |= set(f.get("texts", []))
            for pg in x.get("pages", []):
                for o in pg["ops"]:
                    ts |= {g["t"] for g in o.get("g", []) if "t" in g}
    table = {t: lex.nfd(t) for t in ts | set(CHARTEXTS()) if t}
    for x in recs:
        if x["op"] == "ser":
            x["aux"] = {"nfd": table, "out": lex.printed(x["fmt"], x["out"])}
    return recs


def CHARTEXTS():
    with open(lib.SPEC + "/charmap.json") as f:
        return [v[1] for v in json.load(f).values()]


PRINTS = [{"op": "ser", "fmt": f, "roles": [], "kinds": k} for f, k in (("txt", []), ("ext", []), ("jsonl", ["word"]))]
ENDKEEP = {"chars", "words", "hyph", "lines", "pages"}


def end_job(p, rng, fmts=PRINTS):
    b = p if isinstance(p, dict) else {"hex": p.bytes().hex()}
    return {"ops": [p.job() if not isinstance(p, dict) else {"op": "pdf", **p}, {"op": "process", "p": score(rng), "disabled": [], **b}] + fmts}


def end_pdf(hs):
    """One page per sequence of glyphs of the model MCEnd."""
    a = pdf.Article(random.Random(0), True)
    for h in hs:
        page = a.p.page((0, 0, 600, 800))
        page.BT()
        page.Tf(a.body, 1000)
        x, y, prev = 60000, 700000, 0
        for k in h:
            if k == "n":
                y, x, prev = y - 12000, x // 300000 * 240000 + 60000, 0
                continue
            if k == "c":
                y, x, prev = 700000, 300000, 0
                continue
            c = {"a": 97, "b": 98, "^": 180, "-": 45, "f": 99, "s": 32}[k]
            w = a.body.glyphs[c][2] * 10
            if k == "f":
                page.ET()
                f = page.form((1, 0, 0, 1, x, y - 5000), (0, 0, 20000, 20000))
                f.BT()
                f.Tf(a.body, 1000)
                f.Td(2000, 5000)
                f.show([c])
                f.ET()
                page = f.endform()
                page.BT()
                page.Tf(a.body, 1000)
                x, prev = x + 20000, 0
                continue
            page.Tm((1, 0, 0, 1, x - prev if k == "^" else x, y))
            page.show([c])
            if k != "^":
                x, prev = x + w, w
        page.ET()
    return a.p


def c20(c):
    out = c.model("MCEnd", "MCEnd%s.cfg" % ("Deep" if DEEP else ""))
    hs = histories(out, N(10000, 60000), c.rng)
    c.campaign("model histories", [end_job(end_pdf(x), c.rng) for x in chunks(hs, 40)], {"conserve"}, keep=ENDKEEP, post=add_nfd,
               timeout=120)
    jobs = [end_job(pdf.random_pdf(c.rng), c.rng) for _ in range(N(150, 3000))]
    jobs += [end_job(pdf.fonts_pdf(c.rng), c.rng) for _ in range(N(50, 500))]
    jobs += [end_job(pdf.codes_pdf(c.rng, x), c.rng) for x in chunks(pdf.ODDCODES, 40)]
    jobs += [end_job(pdf.article_pdf(c.rng, not DEEP), c.rng) for _ in range(N(24, 600))]
    c.campaign("random files", jobs, {"conserve"}, keep=ENDKEEP, post=add_nfd, timeout=120)
    d = lib.REPO + "/test/pdfs/"
    files = sorted(d + x for x in os.listdir(d) if x.endswith(".pdf"))
    c.campaign("test files", [end_job({"path": x}, c.rng, PRINTS[:N(1, 3)]) for x in files], {"conserve"}, keep=ENDKEEP,
               post=add_nfd, timeout=120)
    large(c, lambda rng, k: pdf.article_pdf(rng, True, 12), [0], lambda p: end_job(p, c.rng), {"conserve"}, ENDKEEP, (1, 8),
          post=add_nfd)



# -- the program
def digest(t):
    return "%d:%s:%s" % (len(t), hashlib.md5(t.encode("utf-8", "surrogatepass")).hexdigest(), t[:200])


def plain_ids(t):
    """Numbers the (random) ids in the order of their first appearance (in JSONL: the kinds may come in any order)."""
    ids = {}
    if t.startswith('{"type": '):
        t = "\n".join(sorted(t.split("\n"), key=lambda x: x[:15]))
    return re.sub(r'"([a-z]+-[0-9A-Za-z]{8})"', lambda m: '"id%d"' % ids.setdefault(m.group(1), len(ids)), t)


LOGSTART = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3}\t- ", re.M)
LEVELMARKS = ["TRACE:", "DEBUG:", "INFO: ", "WARN: ", "ERROR:"]


def cli_aux(recs, job):
    """Splits what the program printed into messages, text and running times."""
    for x in recs:
        if x["op"] == "process":
            D = x.pop("doc")
            x["lines"] = sum(len(b["l"]) for b in D["blocks"])
            x["blocks"] = len(D["blocks"])
            x["scripts"] = sum(1 for c in D["chars"] if c.get("sub") or c.get("sup"))
            x["breaks"] = sum(1 for p in D["pages"] if p["bl"]) - 1
        elif x["op"] == "ser":
            x.pop("doc")
            x["aux"] = {"text": digest(plain_ids(x.pop("out")))}
        elif x["op"] == "cli":
            out = x["out"]
            log = [out.count("m" + m + "\x1b[") for m in LEVELMARKS]
            lines = out.split("\n")
            times = [i for i, v in enumerate(lines) if re.match(r"^(\x1b\[[0-9;]*m)*Finished in ", v)]
            tail = lines[times[0]:-1] if times and "--print-running-times" in x["args"] else []
            if tail:
                lines = lines[:times[0]] + [""]
            # The messages come first.
            last = max([i for i, v in enumerate(lines) if LOGSTART.match(v)], default=-1)
            text = "\n".join(lines[last + 1:])
            nums = [re.match(r"^ \* (.*):\s*(-?[\d,.]+) ms \((.*)%\)$", v) for v in tail[1:]]
            total = re.match(r"^(?:\x1b\[[0-9;]*m)*Finished in ([\d,.]+) ms\.(?:\x1b\[[0-9;]*m)*$", tail[0]) if tail else None
            num = lambda v: int(re.sub(r"\D", "", v))
            written = ""
            for e in x["after"]:
                if x.get("target") and os.path.normpath(e["p"]) == os.path.normpath(x["target"]):
                    written = e["t"]
            x["aux"] = {"log": log, "text": digest(plain_ids(text)) if text else "", "times": [m.group(1) if m else "?" for m in nums],
                        "millis": [num(m.group(2)) if m else -1 for m in nums], "total": num(total.group(1)) if total else -1,
                        "written": digest(written), "writtentext": digest(plain_ids(written)),
                        "mentioned": re.findall(r"^(?:-\w \[ )?--([a-z-]+)(?: \])?(?: arg)?$", out, re.M),
                        "feeds": text.count("\f"), "roles": len(re.findall(r"paragraph|heading|reference", text, re.I)),
                        "lines": text.count('"type": "line"')}
            if "version" not in out:
                x["out"] = out[:100]
            for l in ("before", "after"):
                for e in x[l]:
                    if e["k"] == "file":
                        e["t"] = digest(e["t"])
    # A text that is empty is not printed at all.
    for x in recs:
        if x["op"] == "ser" and x["aux"]["text"].startswith("0:"):
            x["aux"]["text"] = ""
        if x["op"] == "cli" and x["aux"]["writtentext"].startswith("0:"):
            x["aux"]["writtentext"] = ""
    return recs


SERFMT = {"txt": "txt", "txt-extended": "ext", "jsonl": "jsonl"}
UNITS = {"pages": "page", "blocks": "block", "lines": "line", "words": "word", "characters": "char", "figures": "figure", "shapes": "shape"}
ROLES = ["paragraph", "reference", "marginal", "footnote", "heading", "formula", "title", "author-info", "abstract", "date", "caption",
         "table", "other", "toc"]
STUB = {"PPP_STUB_ROLES": "0,4,1,13,3"}


def spelled(units, rng):
    """The arguments for a sequence of units."""
    args = []
    for u in units:
        o, v = u["o"], u["v"]
        if o == "pos":
            args.append(v)
        elif o in ("help", "version") and rng.random() < .3:
            args.append("-" + o[0])
        elif o in ("format", "role", "type", "verbosity", "log-page-filter", "visualization-path", "pdf-file", "output-file"):
            args += ["--" + o, v] if v and v[0] != "-" and rng.random() < .5 else ["--%s=%s" % (o, v)]
        else:
            args.append("--" + o)
    return args


def reference(m, files):
    """The two reference records for the settings m the specification derived."""
    f = files.get(m["pdf"])
    off = sorted(m["off"])
    return [{"op": "process", "disabled": off, "level": m["level"], "filter": m["filter"], "debug": sorted(m["dbg"]),
             **({"hex": f} if f else {"path": "/nonexistent/file.pdf"})},
            {"op": "ser", "fmt": SERFMT[m["fmt"]], "roles": sorted(ROLES.index(r) for r in m["roles"]),
             "kinds": sorted(UNITS[t] for t in m["types"])}]


def command(h, files, rng):
    ops = reference(h["m"]["c"], files) if h["m"]["kind"] == "run" else []
    out = h["m"]["c"]["out"] if h["m"]["kind"] == "run" else ""
    return ops + [{"op": "cli", "units": h["u"], "args": spelled(h["u"], rng), "dirs": ["d"], "target": out,
                   "files": [{"p": p, "hex": x} for p, x in files.items()]}]


MODULES = {"glyphs-statistics-calculation": "glyphstats", "diacritic-marks-merging": "diacritics", "words-detection": "words",
           "words-statistics-calculation": "wordstats", "page-segmentation": "segs", "text-lines-detection": "lines",
           "sub-super-scripts-detection": "scripts", "text-lines-statistics-calculation": "linestats", "text-blocks-detection": "blocks",
           "reading-order-detection": "order", "semantic-roles-prediction": "roles", "words-dehyphenation": "dehyph"}
SHOWN = ["characters", "graphics", "figures", "shapes", "words", "text-lines", "text-blocks", "segments", "segment-cuts", "reading-order",
         "reading-order-cuts"]


def random_command(rng):
    """A valid command line of several units with its meaning (which the specification derives again)."""
    m = {"fmt": "txt", "roles": [], "types": [], "off": [], "level": 4, "filter": -1, "dbg": [], "pdf": "in.pdf", "out": "-"}
    us = []
    def add(p, o, v=""):
        if rng.random() < p:
            us.append({"o": o, "v": v})
            return True
    v = rng.choice(list(SERFMT))
    if add(.7, "format", v):
        m["fmt"] = v
    for r in rng.sample(ROLES[:6], rng.randrange(4)):
        if add(.5, "role", r):
            m["roles"].append(r)
    for t in rng.sample(sorted(set(UNITS) - {"lines"}), rng.randrange(4)):
        if add(.6, "type", t):
            m["types"].append(t)
    for k, n in list(MODULES.items()) + [("embedded-font-files-parsing", "fontfiles")]:
        if add(.06, "skip-" + k):
            m["off"].append(n)
    if add(.15, "no-dehyphenation") and "dehyph" not in m["off"]:
        m["off"].append("dehyph")
    for k, n in list(MODULES.items()) + [("pdf-parsing", "parse")]:
        if add(.04, "debug-" + k):
            m["dbg"].append(n)
    v = rng.choice(["trace", "debug", "info", "warn", "error", "INFO", "ERROR"])
    if add(.2, "verbosity", v):
        m["level"] = ["trace", "debug", "info", "warn", "error"].index(v.lower())
    v = rng.choice([1, 2, 3, -1, 0])
    if add(.2, "log-page-filter", str(v)):
        m["filter"] = v
    add(.2, "print-running-times")
    if add(.25, "visualization-path", rng.choice(["v.pdf", "d/v.pdf"])):
        for k in rng.sample(SHOWN, rng.randrange(5)):
            add(.8, "visualize-" + k)
    v = rng.choice(["out.txt", "d/out.txt", "new/a/b", "-", "out.pdf"])
    rng.shuffle(us)
    if rng.random() < .5:
        us.insert(rng.randrange(len(us) + 1), {"o": "output-file", "v": v})
        m["out"] = v
        us.insert(rng.randrange(len(us) + 1), {"o": rng.choice(["pos", "pdf-file"]), "v": "in.pdf"})
    else:
        us.insert(rng.randrange(len(us) + 1), {"o": "pos", "v": "in.pdf"})
        if rng.random() < .4:
            i = [u["o"] for u in us].index("pos")
            us.insert(rng.randrange(i + 1, len(us) + 1), {"o": "pos", "v": v})
            m["out"] = v
    return {"u": us, "m": {"kind": "run", "c": m}}


def c22(c):
    def files():
        p = pdf.tiny_pdf(c.rng) if c.rng.random() < .8 else pdf.article_pdf(c.rng, True)
        return {"in.pdf": p.bytes().hex(), "bad.pdf": b"this is no PDF file".hex()}
    out = c.model("MCCli", "MCCli%s.cfg" % ("Pairs" if DEEP else ""))
    hs = histories(out)
    runs_, rest = [h for h in hs if h["m"]["kind"] == "run"], [h for h in hs if h["m"]["kind"] != "run"]
    hs = sample(c.rng, runs_, N(700, 20000)) + sample(c.rng, rest, N(500, 20000))
    c.rng.shuffle(hs)
    pool = [files() for _ in range(N(12, 60))]
    c.campaign("model histories", [{"ops": [o for h in x for o in command(h, c.rng.choice(pool), c.rng)]} for x in chunks(hs, 5)],
               {"cli"}, post=cli_aux, env=STUB, timeout=120)
    jobs = [{"ops": [o for _ in range(4) for o in command(random_command(c.rng), c.rng.choice(pool), c.rng)]} for _ in range(N(150, 3000))]
    c.campaign("random command lines", jobs, {"cli"}, post=cli_aux, env=STUB, timeout=120)
    f = {"in.pdf": marks_pdf().bytes().hex()}
    jobs = []
    for key, us, kw in (("no-scripts", [{"o": "no-scripts", "v": ""}], {}), ("control-characters", [{"o": "control-characters", "v": ""}], {}),
                        ("semantic-roles", [{"o": "semantic-roles", "v": ""}], {}),
                        ("type-lines", [{"o": "format", "v": "jsonl"}, {"o": "type", "v": "lines"}], {"fmt": "jsonl", "types": ["lines"]})):
        m = {"fmt": "txt", "roles": [], "types": [], "off": [], "level": 4, "filter": -1, "dbg": [], "pdf": "in.pdf", "out": "-", **kw}
        jobs.append({"finding": key, "ops": command({"u": us + [{"o": "pos", "v": "in.pdf"}], "m": {"kind": "run", "c": m}}, f, c.rng)})
    c.campaign("options without effect", jobs, {"cli"}, post=cli_aux, env=STUB)


def visual_aux(recs, job):
    for x in recs:
        if x["op"] == "cli":
            x["before"] = x["after"] = []
            x["out"] = x["out"][:100]
    return recs


def draw(h, name, f, rng):
    """A run that draws the kinds of h, with the record of the document."""
    us = [{"o": "visualize-" + k, "v": ""} for k in h["kinds"]] + [{"o": "visualization-path", "v": "v.pdf"}]
    off = h.get("off", [])
    us += [{"o": "skip-" + k, "v": ""} for k, v in MODULES.items() if v in off]
    rng.shuffle(us)
    us.insert(rng.randrange(len(us) + 1), {"o": "pos", "v": "in.pdf"})
    return [{"op": "process", "disabled": sorted(off), "level": 4, "filter": -1, "debug": [], "hex": f},
            {"op": "cli", "units": us, "args": spelled(us, rng), "dirs": [], "target": "-", "look": ["in.pdf", "v.pdf"],
             "files": [{"p": "in.pdf", "hex": f}]}]


def c26(c):
    def some(rng):
        n = rng.randrange(1, len(SHOWN) + 1)
        return {"kinds": rng.sample(SHOWN, rng.choice([1, 1, 2, n])), "off": rng.sample(sorted(MODULES.values()), rng.choice([0, 0, 0, 1, 2]))}
    def odd(p, rng):
        """Pages that are rotated or do not start at the origin, and pages with annotations."""
        for q in p.pages:
            if rng.random() < .6:
                q.rot = rng.choice([0, 90, 180, 270])
            if rng.random() < .6:
                x, y = rng.choice([(-50, -30), (20, 0), (0, 17), (100, 200), (-7, 3)])
                q.box = (q.box[0] + x, q.box[1] + y, q.box[2] + x, q.box[3] + y)
            for _ in range(rng.choice([0, 2, 5])):
                w, h = rng.choice([(500, 500), (500, 30000), (30000, 500), (1000, 1000), (1500, 500), (0, 0), (0, 20000), (900, 1000)])
                q.re(rng.randrange(20, 500) * 1000, rng.randrange(50, 600) * 1000, w, h)
                q.paint(rng.choice(["S", "f"]))
            if rng.random() < .4:
                q.extra = "/Annots[%s]" % "".join(rng.sample(NOTES, rng.randrange(1, 4)))
        return p
    hs = histories(c.model("MCVisual", "MCVisual%s.cfg" % ("Deep" if DEEP else "")))
    hs = sample(c.rng, hs, N(160, 4000))
    pool = [pdf.tiny_pdf(c.rng).bytes().hex() for _ in range(4)] + [odd(pdf.tiny_pdf(c.rng), c.rng).bytes().hex() for _ in range(8)]
    pool += [pdf.article_pdf(c.rng, True).bytes().hex() for _ in range(4)]
    c.campaign("model histories", [{"ops": [o for h in x for o in draw({"kinds": h}, "v", f, c.rng)]}
                                   for x, f in ((x, c.rng.choice(pool)) for x in chunks(hs, 4))], {"visual"}, post=visual_aux, env=STUB, timeout=120)
    jobs = []
    for _ in range(N(50, 1500)):
        p = pdf.tiny_pdf(c.rng) if c.rng.random() < .6 else pdf.article_pdf(c.rng, True)
        f = (odd(p, c.rng) if c.rng.random() < .6 else p).bytes().hex()
        jobs.append({"ops": [o for _ in range(2) for o in draw(some(c.rng), "v", f, c.rng)]})
    c.campaign("articles", jobs, {"visual"}, post=visual_aux, env=STUB, timeout=120)
    large(c, lambda rng, k: pdf.big_pdf(rng, "pages").bytes().hex(), [0], lambda f: {"ops": draw({"kinds": SHOWN}, "v", f, c.rng)}, {"visual"},
          n=(1, 8), post=visual_aux, env=STUB)


NOTES = ["<</Type/Annot/Subtype/Square/Rect[10 20 110 70]/C[0 1 0]>>", "<</Type/Annot/Subtype/Circle/Rect[300 300 320 330]/C[1 0 1]/IC[0 0 1]>>",
         "<</Type/Annot/Subtype/FreeText/Rect[50 50 90 60]/Contents(note)/DA(/Helv 7 Tf 0 g)>>",
         "<</Type/Annot/Subtype/Line/Rect[10 10 40 50]/L[12 12 38 48]/C[1 0 0]>>",
         "<</Type/Annot/Subtype/Link/Rect[200 200 240 210]/Border[0 0 0]/A<</S/URI/URI(http://a.b)>>>>"]


def marks_pdf():
    """Two pages with a superscript."""
    a = pdf.Article(random.Random(0), True)
    for _ in range(2):
        page = a.p.page((0, 0, 600, 800))
        page.BT()
        for k in range(4):
            page.Tf(a.body, 1000)
            page.Tm((1, 0, 0, 1, 60000, 700000 - 12000 * k))
            page.show([97 + i % 20 for i in range(20)])
            if k == 1:
                page.Tf(a.body, 600)
                page.Tm((1, 0, 0, 1, 60000 + 100000, 704000 - 12000 * k))
                page.show([49])
        page.ET()
    return a.p


def sample(rng, xs, n):
    return list(xs) if len(xs) <= n else rng.sample(xs, n)


ODD = ["a b", "$(touch inj)", "`touch inj`", ";touch inj;", "it's", 'say "x"', "ü.txt", "*", "~", "%s%n", "a\tb", "a\nb", "&touch inj&", "|cat",
       ">inj", "\\", "#x", "$HOME", "!!", "..x", "x.", "-", "--help", "-o", "a" * 200, "文本", "[ab]", "{a,b}"]


def c21(c):
    base = {"in.pdf": marks_pdf().bytes().hex()}
    out = c.model("MCTarget", "MCTarget%s.cfg" % ("Deep" if DEEP else ""))

    def job(hist, names, rng):
        def spell(p):
            return p if p.startswith("/dev") else "/".join(names.get(x, x) for x in p.split("/"))
        ops = []
        for k, p in enumerate(hist):
            m = {"fmt": rng.choice(["txt", "txt-extended", "jsonl"]), "roles": [], "types": [], "off": [], "level": 4, "filter": -1, "dbg": [],
                 "pdf": "in.pdf", "out": p}
            t = spell(p)
            us = [{"o": "pos", "v": "in.pdf"}] + ([{"o": "format", "v": m["fmt"]}] if m["fmt"] != "txt" or rng.random() < .5 else [])
            us.insert(rng.randrange(len(us) + 1), {"o": "output-file", "v": t})
            if (t == "-" or not t.startswith("-")) and rng.random() < .5:
                us = [u for u in us if u["o"] != "output-file"] + [{"o": "pos", "v": t}]
            op = {"op": "cli", "args": spelled(us, rng), "target": t}
            if k == 0:
                op.update(dirs=[spell("d")], files=[{"p": spell("f"), "t": "old text, longer than a few bytes\n" * 300},
                                                    {"p": spell("d/f"), "t": "old"}, {"p": "in.pdf", "hex": base["in.pdf"]}])
            ops += reference(m, base) + [op]
        return {"ops": ops}
    jobs = []
    for h in sample(c.rng, histories(out), N(324, 5832)):
        names = {}
        if c.rng.random() < .7:
            names = dict(zip("fxdynm", c.rng.sample([x for x in ODD if x not in ("-",)], 6)))
        jobs.append(job(h, names, c.rng))
    for x in ODD + ["a" * 255, "a" * 256, "ä" * 127]:
        for t in ([x] if x != "-" else ["-"]) + ["d/" + x, "n/" + x + "/y"]:
            jobs.append(job([t], {}, c.rng))
    c.campaign("model histories", jobs, {"target"}, post=cli_aux, env=STUB, timeout=120)


PDFKEEP = {"chars", "figs", "shapes", "graphics", "pages", "fonts"}

CHECKS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
