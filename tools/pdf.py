"""A writer for PDF files, with a description of what their content streams show (for the specification of content
streams, Content.tla). Lengths are integers in 1/1000 pt, font sizes in 1/100 pt, glyph widths in 1/1000 em."""
import json
import os
import random

import type1

HERE = os.path.dirname(os.path.abspath(__file__))
CHARMAP = json.load(open(os.path.join(HERE, "..", "spec", "charmap.json")))


def num(v, d=1000):
    """An integer in 1/d as a PDF number."""
    s = "-" if v < 0 else ""
    v = abs(v)
    q, r = divmod(v, d)
    if not r:
        return "%s%d" % (s, q)
    return ("%s%d.%0*d" % (s, q, len(str(d)) - 1, r)).rstrip("0")


def stream(c, d=""):
    if isinstance(c, str):
        c = c.encode("latin-1")
    return ("<<%s/Length %d>>stream\n" % (d, len(c))).encode() + c + b"\nendstream"


class Font:
    """glyphs: {code: (name, code points, width)}; kind: type1, truetype, type3, cid, cidv."""

    def __init__(self, kind, name, glyphs, flags=32, weight=0, fm=(1, 1), tounicode=True, program=None, angle=0):
        self.kind, self.name, self.glyphs, self.flags, self.weight = kind, name, glyphs, flags, weight
        self.fm, self.tounicode, self.program, self.angle = fm, tounicode, program, angle
        self.id = 0
        self.t1 = None

    @property
    def bytes2(self):
        return self.kind in ("cid", "cidv")

    def cmap(self):
        w = 4 if self.bytes2 else 2
        r = ["/CIDInit /ProcSet findresource begin 12 dict begin begincmap", "/CMapName /X def /CMapType 2 def",
             "1 begincodespacerange <%s> <%s> endcodespacerange" % ("0" * w, "F" * w)]
        e = [(c, u) for c, (_, u, _) in sorted(self.glyphs.items()) if u]
        for i in range(0, len(e), 50):
            p = e[i:i + 50]
            r.append("%d beginbfchar" % len(p))
            for c, u in p:
                r.append("<%0*X> <%s>" % (w, c, "".join(map(chr, u)).encode("utf-16-be", "surrogatepass").hex()))
            r.append("endbfchar")
        r.append("endcmap end end")
        return "\n".join(r)

    def write(self, pdf, fid):
        cs = sorted(self.glyphs)
        tu = ""
        if self.tounicode:
            tu = "/ToUnicode %d 0 R" % pdf.add(stream(self.cmap()))
        if self.bytes2:
            ws = "[" + " ".join("%d [%d]" % (c, self.glyphs[c][2]) for c in cs) + "]"
            fd = pdf.add("<</Type/FontDescriptor/FontName/%s/Flags %d/FontBBox[0 -200 1000 800]/ItalicAngle 0/Ascent 800/"
                         "Descent -200/CapHeight 700/StemV 80%s>>" % (self.name, self.flags, self.wtxt()))
            d = pdf.add("<</Type/Font/Subtype/CIDFontType2/BaseFont/%s/CIDSystemInfo<</Registry(Adobe)/Ordering(Identity)"
                        "/Supplement 0>>/DW 1000/W %s/FontDescriptor %d 0 R>>" % (self.name, ws, fd))
            pdf.put(fid, "<</Type/Font/Subtype/Type0/BaseFont/%s/Encoding/Identity-%s/DescendantFonts[%d 0 R]%s>>"
                    % (self.name, "V" if self.kind == "cidv" else "H", d, tu))
            return
        diffs = " ".join("%d/%s" % (c, self.glyphs[c][0]) for c in cs if self.glyphs[c][0])
        enc = "/Encoding<</Type/Encoding/Differences[%s]>>" % diffs
        lo, hi = cs[0], cs[-1]
        widths = [self.glyphs[c][2] if c in self.glyphs else 0 for c in range(lo, hi + 1)]
        if self.kind == "type3":
            ma, mb = self.fm
            proc = pdf.add(stream("500 0 d0 0 0 400 400 re f"))
            procs = "".join("/%s %d 0 R" % (self.glyphs[c][0], proc) for c in cs)
            w = " ".join(num(x * 1000 // ma, 1000) for x in widths)
            pdf.put(fid, "<</Type/Font/Subtype/Type3/FontBBox[0 0 1000 1000]/FontMatrix[%s 0 0 %s 0 0]/FirstChar %d/LastChar %d"
                    "/Widths[%s]%s/CharProcs<<%s>>%s>>" % (num(ma, 1000), num(mb, 1000), lo, hi, w, enc, procs, tu))
            return
        w = " ".join(str(x) for x in widths)
        ff = ""
        if self.program is not None:
            data, l1, l2 = self.program
            ff = "/FontFile %d 0 R" % pdf.add(stream(data, "/Length1 %d/Length2 %d/Length3 0" % (l1, l2)))
        fd = pdf.add("<</Type/FontDescriptor/FontName/%s/Flags %d/FontBBox[0 -200 1000 800]/ItalicAngle %d/Ascent 800/"
                     "Descent -200/CapHeight 700/StemV 80%s%s>>" % (self.name, self.flags, self.angle, self.wtxt(), ff))
        pdf.put(fid, "<</Type/Font/Subtype/%s/BaseFont/%s/FirstChar %d/LastChar %d/Widths[%s]%s/FontDescriptor %d 0 R%s>>"
                % ("TrueType" if self.kind == "truetype" else "Type1", self.name, lo, hi, w, enc, fd, tu))

    def wtxt(self):
        return "/FontWeight %d" % self.weight if self.weight else ""

    def describe(self):
        s = (1, 1)
        if self.kind == "type3":
            s = tuple(1 if x > 0 else -1 for x in self.fm)
        r = {"id": self.id, "name": self.name if self.kind != "type3" else "", "wm": 1 if self.kind == "cidv" else 0,
             "t3": self.kind == "type3", "sx": s[0], "sy": s[1], "b8": not self.bytes2, "flags": self.flags,
             "weight": self.weight, "lower": self.name.lower()}
        if self.t1:
            r["t1"] = self.t1
        return r


class Page:
    """The content of a page (or form): the operators and their description."""

    def __init__(self, pdf, box=(0, 0, 600, 800), rot=0):
        self.pdf, self.box, self.rot, self.extra = pdf, box, rot, ""
        self.txt, self.ops, self.font = [], [], None
        self.ctm = (1, 0, 0, 1, 0, 0)
        self.view = (box[0] * 1000, box[1] * 1000, box[2] * 1000, box[3] * 1000)
        self.pts, self.pend, self.saved = [], False, []

    def at(self, x, y):
        m = self.ctm
        return x * m[0] + y * m[2] + m[4], x * m[1] + y * m[3] + m[5]

    def concat(self, m):
        c = self.ctm
        self.ctm = (m[0] * c[0] + m[1] * c[2], m[0] * c[1] + m[1] * c[3], m[2] * c[0] + m[3] * c[2],
                    m[2] * c[1] + m[3] * c[3]) + self.at(m[4], m[5])

    def cut(self, pts):
        xs, ys, v = [a for a, _ in pts], [b for _, b in pts], self.view
        self.view = (max(v[0], min(xs)), max(v[1], min(ys)), min(v[2], max(xs)), min(v[3], max(ys)))

    def drawable(self):
        """Does the unit square lie inside the clip box, or beside, above or below it? (Known finding: otherwise an
        image is lost.)"""
        m, v = self.ctm, self.view
        if m[1] or m[2] or m[0] < 0 or m[3] < 0:
            return False
        (x1, y1), (x2, y2) = self.at(0, 0), self.at(1000, 1000)
        return v[0] < x1 and x2 < v[2] or x2 < v[0] or x1 > v[2] or y2 < v[1] or y1 > v[3]

    def op(self, o, text, **kw):
        r = {"o": o}
        r.update(kw)
        self.ops.append(r)
        if text:
            self.txt.append(text)

    def q(self):
        self.op("q", "q")
        self.saved.append((self.ctm, self.view))

    def Q(self):
        self.op("Q", "Q")
        self.ctm, self.view = self.saved.pop()

    def cm(self, m):
        self.concat(m)
        self.op("cm", "%d %d %d %d %s %s cm" % (m[0], m[1], m[2], m[3], num(m[4]), num(m[5])), m=list(m))

    # paths
    def m(self, x, y):
        self.pts.append(self.at(x, y))
        self.op("m", "%s %s m" % (num(x), num(y)), p=[x, y])
    def l(self, x, y):
        self.pts.append(self.at(x, y))
        self.op("l", "%s %s l" % (num(x), num(y)), p=[x, y])

    def c(self, *a, k="c"):
        ps = [[a[i], a[i + 1]] for i in range(0, len(a), 2)]
        self.pts += [self.at(*q) for q in ps]
        self.op("c", " ".join(num(x) for x in a) + " " + k, ps=ps)

    def re(self, x, y, w, h):
        self.pts += [self.at(x, y), self.at(x + w, y + h)]
        self.op("re", "%s %s %s %s re" % (num(x), num(y), num(w), num(h)), p=[x, y], w=w, h=h)
    def h(self): self.op("h", "h")

    def W(self, eo=False):
        self.pend = True
        self.op("W", "W*" if eo else "W")

    def paint(self, k):
        if k[0] in "sb":
            self.op("close", "")
        n = 0 if k == "n" else 1 if k in ("S", "s", "f", "F", "f*") else 2
        self.op("paint", k, n=n)
        if self.pend and self.pts:
            self.cut(self.pts)
        self.pts, self.pend = [], False

    def clip(self, x, y, w, h):
        self.re(x, y, w, h)
        self.W()
        self.paint("n")

    # text
    def BT(self): self.op("BT", "BT")
    def ET(self): self.op("ET", "ET")

    def Tf(self, f, z):
        self.font = f
        self.op("Tf", "/F%d %s Tf" % (f.id, num(z, 100)), f=f.id, z=z)

    def par(self, k, v):
        """Tc, Tw, TL, Ts (lengths), Tz (percent)."""
        self.op("par", "%s %s" % (v if k == "Tz" else num(v), k), k=k, v=v)

    def Td(self, x, y, lead=False):
        if lead:
            self.op("par", "", k="TL", v=-y)
        self.op("Td", "%s %s %s" % (num(x), num(y), "TD" if lead else "Td"), p=[x, y])

    def Tm(self, m): self.op("Tm", "%d %d %d %d %s %s Tm" % (m[0], m[1], m[2], m[3], num(m[4]), num(m[5])), m=list(m))
    def Tstar(self): self.op("Tstar", "T*")

    def items(self, codes):
        r = []
        for c in codes:
            n, u, w = self.font.glyphs[c]
            r.append({"k": "g", "w": w, "sp": 1 if c == 32 and not self.font.bytes2 else 0, "u": list(u),
                      "t": "".join(map(chr, u)), "n": n if not self.font.bytes2 else ""})
        return r

    def string(self, codes):
        w = 4 if self.font.bytes2 else 2
        return "<" + "".join("%0*X" % (w, c) for c in codes) + ">"

    def show(self, codes): self.op("show", self.string(codes) + " Tj", g=self.items(codes))

    def quote(self, codes):
        self.op("Tstar", "")
        self.op("show", self.string(codes) + " '", g=self.items(codes))

    def dquote(self, tw, tc, codes):
        self.op("par", "", k="Tw", v=tw)
        self.op("par", "", k="Tc", v=tc)
        self.op("Tstar", "")
        self.op("show", "%s %s %s \"" % (num(tw), num(tc), self.string(codes)), g=self.items(codes))

    def TJ(self, parts):
        """parts: lists of codes and adjustments."""
        g, t = [], []
        for p in parts:
            if isinstance(p, list):
                g += self.items(p)
                t.append(self.string(p))
            else:
                g.append({"k": "adj", "v": p})
                t.append(str(p))
        self.op("show", "[" + " ".join(t) + "] TJ", g=g)

    def Tr(self, v): self.op("nop", "%d Tr" % v)
    def raw(self, text): self.op("nop", text)
    def RG(self, r, g, b): self.op("RG", "%s %s %s RG" % (num(r), num(g), num(b)), c=[r, g, b])

    def CA(self, v):
        self.op("CA", "/G%d gs" % self.pdf.gstate("/CA %s" % num(v)), v=v)

    def gsfont(self, f, z):
        self.font = f
        self.op("Tf", "/G%d gs" % self.pdf.gstate("/Font[%d 0 R %s]" % (self.pdf.fontobj[f.id], num(z, 100))), f=f.id, z=z)

    # objects
    def image(self, kind="xobj"):
        if kind == "inline":
            self.op("img", "BI /W 1 /H 1 /BPC 8 /CS /G ID \x80 EI")
        else:
            self.op("img", "/I%d Do" % self.pdf.image(kind))

    def form(self, m, bbox):
        """Begins a form; returns the page object to draw into. End it with endform()."""
        f = Page(self.pdf)
        f.ops, f.parent, f.matrix, f.bbox, f.font = self.ops, self, m, bbox, self.font
        f.ctm, f.view = self.ctm, self.view
        f.concat(m)
        f.cut([f.at(bbox[0], bbox[1]), f.at(bbox[2], bbox[1]), f.at(bbox[0], bbox[3]), f.at(bbox[2], bbox[3])])
        self.ops.append({"o": "form", "m": list(m), "b": list(bbox)})
        return f

    def endform(self):
        k = self.pdf.formobj(self)
        self.ops.append({"o": "endform"})
        self.parent.txt.append("/X%d Do" % k)
        return self.parent


class Pdf:
    def __init__(self):
        self.objs, self.fonts, self.pages = [], [], []
        self.fontobj, self.gs, self.images, self.xforms = {}, [], {}, []
        self.imgobj = []
        self.cat, self.tree, self.res = self.new(), self.new(), self.new()

    def new(self):
        self.objs.append(b"null")
        return len(self.objs)

    def put(self, i, s):
        self.objs[i - 1] = s.encode("latin-1") if isinstance(s, str) else s

    def add(self, s):
        i = self.new()
        self.put(i, s)
        return i

    def font(self, f):
        self.fonts.append(f)
        f.id = len(self.fonts)
        self.fontobj[f.id] = self.new()
        return f

    def gstate(self, s):
        if s not in self.gs:
            self.gs.append(s)
        return self.gs.index(s) + 1

    def image(self, kind):
        if kind not in self.images:
            d = "/Type/XObject/Subtype/Image/Width 1/Height 1/BitsPerComponent %d%s"
            gray = d % (8, "/ColorSpace/DeviceGray")
            if kind == "mask":
                o = self.add(stream("\x80", d % (1, "/ImageMask true")))
            elif kind == "smask":
                o = self.add(stream("\x80", gray + "/SMask %d 0 R" % self.add(stream("\x80", gray))))
            elif kind == "masked":
                o = self.add(stream("\x80", gray + "/Mask %d 0 R" % self.add(stream("\x80", d % (1, "/ImageMask true")))))
            else:
                o = self.add(stream("\x80", gray))
            self.imgobj.append(o)
            self.images[kind] = len(self.imgobj)
        return self.images[kind]

    def formobj(self, f):
        o = self.add(stream("\n".join(f.txt), "/Type/XObject/Subtype/Form/Matrix[%d %d %d %d %s %s]/BBox[%s]/Resources %d 0 R"
                            % (f.matrix[0], f.matrix[1], f.matrix[2], f.matrix[3], num(f.matrix[4]), num(f.matrix[5]),
                               " ".join(num(x) for x in f.bbox), self.res)))
        self.xforms.append(o)
        return len(self.xforms)

    def page(self, box=(0, 0, 600, 800), rot=0):
        p = Page(self, box, rot)
        self.pages.append(p)
        return p

    def bytes(self):
        for f in self.fonts:
            f.write(self, self.fontobj[f.id])
        kids = []
        for p in self.pages:
            c = self.add(stream("\n".join(p.txt)))
            kids.append(self.add("<</Type/Page/Parent %d 0 R/MediaBox[%s]/Rotate %d/Contents %d 0 R/Resources %d 0 R%s>>"
                                 % (self.tree, " ".join(map(str, p.box)), p.rot, c, self.res, p.extra)))
        self.put(self.tree, "<</Type/Pages/Kids[%s]/Count %d>>" % (" ".join("%d 0 R" % k for k in kids), len(kids)))
        self.put(self.cat, "<</Type/Catalog/Pages %d 0 R>>" % self.tree)
        self.put(self.res, "<</Font<<%s>>/ExtGState<<%s>>/XObject<<%s%s>>>>" % (
            "".join("/F%d %d 0 R" % x for x in self.fontobj.items()),
            "".join("/G%d<<%s>>" % (i + 1, g) for i, g in enumerate(self.gs)),
            "".join("/I%d %d 0 R" % (i + 1, o) for i, o in enumerate(self.imgobj)),
            "".join("/X%d %d 0 R" % (i + 1, o) for i, o in enumerate(self.xforms))))
        out, offs = bytearray(b"%PDF-1.5\n"), []
        for i, o in enumerate(self.objs, 1):
            offs.append(len(out))
            out += b"%d 0 obj\n%s\nendobj\n" % (i, o)
        x = len(out)
        out += b"xref\n0 %d\n0000000000 65535 f \n" % (len(self.objs) + 1)
        for o in offs:
            out += b"%010d 00000 n \n" % o
        return bytes(out + b"trailer<</Size %d/Root %d 0 R>>\nstartxref\n%d\n%%%%EOF" % (len(self.objs) + 1, self.cat, x))

    def job(self, op="pdf", **kw):
        b = self.bytes()
        r = {"op": op, "hex": b.hex(), "fonts": [f.describe() for f in self.fonts],
             "pages": [{"box": list(p.box), "rot": p.rot, "ops": p.ops} for p in self.pages]}
        r.update(kw)
        return r


# ---- histories of operators of the model MCContent

def emit(page, x):
    """Writes an operator of a history; returns the page or form to continue with."""
    o = x["o"]
    if o in ("q", "Q", "h", "BT", "ET", "Tstar", "W"):
        getattr(page, o)()
    elif o in ("cm", "Tm"):
        getattr(page, o)(tuple(x["m"]))
    elif o in ("m", "l", "Td"):
        getattr(page, o)(*x["p"])
    elif o == "c":
        page.c(*[v for q in x["ps"] for v in q])
    elif o == "re":
        page.re(x["p"][0], x["p"][1], x["w"], x["h"])
    elif o == "paint":
        page.paint(x["k"])
    elif o == "img":
        page.image(x["kind"])
    elif o == "RG":
        page.RG(*x["c"])
    elif o == "form":
        return page.form(tuple(x["m"]), tuple(x["b"]))
    elif o == "endform":
        return page.endform()
    elif o == "Tf":
        page.Tf(page.pdf.fonts[x["f"] - 1], x["z"])
    elif o == "par":
        page.par(x["k"], x["v"])
    elif o == "show":
        parts = []
        for it in x["g"]:
            if it["k"] == "adj":
                parts.append(it["v"])
            elif parts and isinstance(parts[-1], list):
                parts[-1].append(it["c"])
            else:
                parts.append([it["c"]])
        page.show(parts[0]) if len(parts) == 1 else page.TJ(parts)
    else:
        raise ValueError(o)
    return page


def history_pdf(hs, box=(10, 20, 610, 800), rots=(0,)):
    """A PDF with one page per history."""
    p = Pdf()
    g = {97: ("a", [97], 600), 98: ("b", [98], 1000), 32: ("space", [32], 200)}
    p.font(Font("type1", "Fa", g))
    p.font(Font("cidv", "Fb", g))
    for i, h in enumerate(hs):
        page = p.page(box, 0 if any(x["o"] == "img" for x in h) else rots[i % len(rots)])
        depth = []
        for x in h:
            page = emit(page, x)
            if x["o"] in ("q", "form", "Q", "endform"):
                depth.append(x["o"]) if x["o"] in ("q", "form") else depth.pop()
        for x in reversed(depth):
            page = emit(page, {"o": "Q" if x == "q" else "endform"})
    return p


# ---- a set of fonts, and random content

NAMES = {ord(c): n for c, n in zip("0123456789", ["zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine"])}
NAMES.update({ord(c): c for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"})
NAMES.update({ord(c): n for c, n in [(" ", "space"), ("-", "hyphen"), (".", "period"), (",", "comma"), ("(", "parenleft"),
                                     (")", "parenright"), ("+", "plus"), ("é", "eacute"), ("ß", "germandbls"),
                                     ("´", "acute"), ("∑", "summation"), ("\u00a0", "nbspace")]})
WIDTHS = [200, 400, 600, 800, 1000]


def latin(rng, codes="abcdefgxyzABC0123 -.é"):
    r = {}
    for c in codes:
        r[ord(c)] = (NAMES[ord(c)], [ord(c)], rng.choice(WIDTHS))
    return r


def fontset(rng, pdf):
    fs = []
    pre = "".join(rng.choice("ABCDEFGHIJ") for _ in range(6)) + "+"
    fs.append(Font("type1", pre + rng.choice(["Times-Roman", "Nimbus12-Bold", "CMBX10", "MyriadBlack", "Foo-BoldItalic"]), latin(rng),
                   flags=rng.choice([4, 32, 34, 96, 4 + 64, 1 << 18 | 32]), weight=rng.choice([0, 0, 400, 700, 900]),
                   tounicode=rng.random() < .5))
    fs.append(Font("truetype", rng.choice(["Arial", "ABCDEF+Verdana-Italic", "Foo.Bar_12-x"]), latin(rng), tounicode=rng.random() < .5))
    cid = {}
    for i, u in enumerate([[0x41], [0x66, 0x69], [0x4e2d], [0x1d54f], [0x20], [0xa0], [0x20, 0x20], [0x20, 0x41], [0x301], [0x3b1], [0x42, 0x20], [0x20, 0x43, 0xa0]]):
        cid[rng.choice([1, 32, 256]) + i * 7] = ("", u, rng.choice(WIDTHS))
    fs.append(Font("cid", pre + "SomeCid", cid))
    fs.append(Font("cidv", pre + "Vertical", dict(cid)))
    fm = rng.choice([(1, 1), (10, 10), (1, -1), (100, 100)])
    fs.append(Font("type3", "", latin(rng, "abcxyz -"), fm=fm))
    names = rng.sample(sorted(CHARMAP), 8)
    tex = {}
    for i, n in enumerate(names + ["alpha", "A", "fi"]):
        u = {"alpha": [0x3b1], "A": [0x41], "fi": [0xfb01]}.get(n, [0xe000 + i] if rng.random() < .9 else [0xe000 + i, 0x42])
        tex[(65 if rng.random() < .5 else 33) + i] = (n, u, rng.choice(WIDTHS))
    fs.append(Font("type1", pre + "CMEX10", tex, flags=4))
    fs.append(Font("type3", "", latin(rng, "abc"), fm=fm))
    rng.shuffle(fs)
    fs = fs[:rng.choice([1, 2, 3, 4, 7])]
    return [pdf.font(f) for f in fs]


MATS = [(1, 0, 0, 1), (0, 1, -1, 0), (-1, 0, 0, -1), (0, -1, 1, 0), (2, 0, 0, 2), (1, 0, 0, 2), (2, 0, 0, 1)]


def pt(rng, lo, hi, step=1):
    """A position in 1/1000 pt that is a multiple of step/10 pt."""
    return rng.randrange(lo * 10, hi * 10, step) * 100


def content(rng, pdf, page, fonts, n, depth=0):
    """Random operators."""
    stack = []
    infont = page.font is not None
    for _ in range(n):
        k = rng.choice(["text", "text", "text", "path", "path", "img", "q", "Q", "cm", "clip", "RG", "CA", "form"])
        if k == "q":
            page.q()
            stack.append((page.font, infont))
        elif k == "Q" and stack:
            page.Q()
            page.font, infont = stack.pop()
        elif k == "cm":
            m = rng.choice(MATS[:1] * 6 + MATS)
            page.cm(m + (pt(rng, 0, 60, 5), pt(rng, 0, 60, 5)) if not m[1] and m[0] > 0 else m + (pt(rng, 100, 500), pt(rng, 100, 500)))
        elif k == "clip" and rng.random() < .5:
            if rng.random() < .8:
                page.clip(*rng.choice([(50000, 50000, 200000, 200000), (100000, 100000, 50000, 300000), (0, 0, 700000, 900000),
                                       (50000, 50000, 200000, 201000)]))
            else:
                page.m(60000, 60000)
                page.l(200000, 60000)
                page.c(200000, 100000, 190000, 300000, 100000, 300000)
                page.h()
                page.W(eo=True)
                page.paint(rng.choice(["n", "S", "f"]))
        elif k == "RG":
            page.RG(rng.choice([0, 500, 1000]), rng.choice([0, 250]), rng.choice([0, 1000]))
        elif k == "CA":
            page.CA(rng.choice([1000, 500, 0]))
        elif k == "path":
            for _ in range(rng.choice([1, 1, 2])):
                x, y = pt(rng, -20, 400, 10), pt(rng, -20, 500, 10)
                s = rng.choice(["re", "re", "line", "curve", "dot", "poly"])
                if s == "re":
                    page.re(x, y, pt(rng, 1, 300, 10), rng.choice([1, -1]) * pt(rng, 1, 100, 10))
                else:
                    page.m(x, y)
                    if s == "line":
                        page.l(x + pt(rng, 1, 200, 10), y)
                    elif s == "curve":
                        kk = rng.choice("cvy")
                        a = [pt(rng, 0, 400, 10) for _ in range(6 if kk == "c" else 4)]
                        page.c(*a, k=kk)
                    elif s == "poly":
                        for _ in range(rng.randrange(1, 4)):
                            page.l(pt(rng, 0, 600, 10), pt(rng, 0, 800, 10))
                        if rng.random() < .5:
                            page.h()
                            if rng.random() < .3:
                                page.l(pt(rng, 0, 600, 10), pt(rng, 0, 800, 10))
            page.paint(rng.choice(["S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n"]))
        elif k == "img" and page.rot == 0:
            page.q()
            x, w = rng.choice([(110000, 30000), (60000, 20000), (200000, 10000), (300000, 100000), (900000, 50000), (-900000, 50000)])
            y, h = rng.choice([(110000, 50000), (60000, 300000), (900000, 20000), (-500000, 100000), (700000, 300000)])
            page.cm((w // 1000, 0, 0, h // 1000, x, y))
            if page.drawable():
                page.image(rng.choice(["xobj", "inline", "mask", "smask", "masked"]))
            page.Q()
        elif k == "form" and depth < 2 and rng.random() < .6:
            m = (1, 0, 0, 1, pt(rng, 0, 50, 10), 0)
            f = page.form(m, rng.choice([(0, 0, 800000, 900000), (40000, 40000, 300000, 300000)]))
            f.rot = page.rot
            content(rng, pdf, f, fonts, rng.randrange(1, 5), depth + 1)
            page = f.endform()
        elif k == "text":
            page.BT()
            for _ in range(rng.randrange(1, 7)):
                t = rng.choice(["Tf", "Td", "TD", "Tm", "T*", "par", "par", "show", "show", "show", "TJ", "'", '"', "Tr", "gs"])
                if t in ("show", "TJ", "'", '"') and not infont:
                    t = "Tf"
                if t in ("Tf", "gs"):
                    z = rng.choice([1000, 1200, 996, 798, 1440, 600, 2400, -1000, 100])
                    (page.Tf if t == "Tf" else page.gsfont)(rng.choice(fonts), z)
                    infont = True
                elif t == "Td":
                    page.Td(pt(rng, -50, 300), pt(rng, -50, 300))
                elif t == "TD":
                    page.Td(pt(rng, 0, 100), -pt(rng, 1, 30), lead=True)
                elif t == "Tm":
                    page.Tm(rng.choice(MATS) + (pt(rng, 0, 600), pt(rng, 0, 800)))
                elif t == "T*":
                    page.Tstar()
                elif t == "par":
                    kk = rng.choice(["Tc", "Tw", "TL", "Ts", "Tz"])
                    page.par(kk, rng.choice([100, 50, 200]) if kk == "Tz" else pt(rng, -2, 12) * (1 if kk != "Tc" else 1) // 200 * 200)
                elif t == "Tr":
                    page.Tr(rng.choice([0, 1, 2, 3]))
                else:
                    cs = [rng.choice(sorted(page.font.glyphs)) for _ in range(rng.randrange(1, 6))]
                    if t == "show":
                        page.show(cs)
                    elif t == "'":
                        page.quote(cs)
                    elif t == '"':
                        page.dquote(pt(rng, 0, 5) // 200 * 200, pt(rng, 0, 2) // 200 * 200, cs)
                    else:
                        parts = []
                        for c in cs:
                            parts.append([c])
                            if rng.random() < .5:
                                parts.append(rng.choice([200, -200, 400, -1000, 2000, 0]))
                        page.TJ(parts)
            page.ET()
    while stack:
        page.Q()
        page.font, infont = stack.pop()


def random_pdf(rng, size=12):
    p = Pdf()
    fonts = fontset(rng, p)
    for _ in range(rng.choice([1, 1, 2, 3])):
        box = rng.choice([(0, 0, 600, 800), (0, 0, 600, 800), (10, 20, 610, 700), (-50, -30, 500, 800)])
        page = p.page(box, rng.choice([0, 0, 0, 90, 180, 270]))
        content(rng, p, page, fonts, rng.randrange(1, size))
    return p


ODDCODES = list(range(1, 0x300)) + list(range(0x2000, 0x2070)) + [0x600, 0x61c, 0x1680, 0x180e, 0x2028, 0x3000, 0x3164, 0xfb00, 0xfb03, 0xfe00, 0xfeff, 0xfffc,
    0xfffd, 0xfffe - 1, 0x10000, 0x1d7ff, 0xe0020, 0x10fffd, 0xe000, 0xf8ff, 0x0e33, 0xac00, 0x1100, 0x20dd, 0x2160, 0x3000]


def codes_pdf(rng, codes):
    """Glyphs with these code points, alone, after a letter and twice."""
    p = Pdf()
    g = {}
    for i, u in enumerate(codes):
        g[256 + 4 * i] = ("", [u], 500)
        g[257 + 4 * i] = ("", [0x41, u], 500)
        g[258 + 4 * i] = ("", [u, u], 500)
        g[259 + 4 * i] = ("", [u, 0x20], 500)
    f = p.font(Font("cid", "Codes", g))
    page = p.page()
    page.BT()
    for k, x in enumerate(sorted(g)):
        page.Tf(f, 1000)
        page.Tm((1, 0, 0, 1, 20000 + k % 16 * 20000, 780000 - k // 16 * 13000))
        page.show([x])
    page.ET()
    return p


def big_pdf(rng, kind):
    """Many pages; a page with a long content stream; deep nesting of the graphics state; a font with many glyphs shown."""
    p = Pdf()
    fonts = fontset(rng, p)
    if kind == "pages":
        for _ in range(rng.randrange(60, 120)):
            content(rng, p, p.page((0, 0, 600, 800), rng.choice([0, 0, 0, 90, 180, 270])), fonts, rng.randrange(0, 6))
        return p
    page = p.page()
    if kind == "content":
        for _ in range(rng.randrange(60, 100)):
            page.q()
            f = page.font
            content(rng, p, page, fonts, rng.randrange(1, 12))
            page.Q()
            page.font = f
    elif kind == "nested":
        n = rng.randrange(40, 70)
        fs = []
        for k in range(n):
            page.q()
            fs.append(page.font)
            if k % 3 == 0:
                page.cm((1, 0, 0, 1, 1000, 2000))
            if k % 7 == 0:
                page.RG(rng.choice([0, 500, 1000]), 0, 250)
            content(rng, p, page, fonts, 1, depth=2)
        for k in range(n):
            page.Q()
            page.font = fs.pop()
            if k % 4 == 0:
                page.re(100000 + 1000 * k, 50000, 20000, 3000)
                page.paint("S")
    elif kind == "path":                        # long paths, and many of them in one drawing
        for _ in range(6):
            page.m(pt(rng, 0, 500), pt(rng, 0, 700))
            for k in range(rng.randrange(60, 200)):
                x = rng.choice("llllcrmh")
                if x == "l":
                    page.l(pt(rng, 0, 600), pt(rng, 0, 800))
                elif x == "c":
                    page.c(*[pt(rng, 0, 600) for _ in range(6)])
                elif x == "r":
                    page.re(pt(rng, 0, 500), pt(rng, 0, 700), pt(rng, 1, 90), pt(rng, 1, 90))
                elif x == "m" and k % 5 == 0:
                    page.m(pt(rng, 0, 500), pt(rng, 0, 700))
                    page.l(pt(rng, 0, 500), pt(rng, 0, 700))
            page.paint(rng.choice(["S", "f", "B", "b"]))
    return p


def fonts_pdf(rng):
    """Many fonts with telling names, flags and weights, some with the same name."""
    p = Pdf()
    fs = []
    for _ in range(rng.randrange(1, 8)):
        if fs and fs[-1].name and rng.random() < .2:
            name = fs[-1].name
        else:
            name = rng.choice(["", "ABCDEF+", "X+Y+"]) + rng.choice(["Times", "CMR10", "cmbx12", "F", "12", "Nimbus9L", "BLACKletter", "Embolden"]) \
                + rng.choice(["", "-Bold", "-Italic", "-BoldItalic", "Black", "-Roman-12", ",Bold", "BOLD", "-ITALIC"])
        kind = rng.choice(["type1", "truetype", "cid", "type1", "type3"])
        g = {97: ("a", [97], 600), 98: ("b", [98], 1000), 32: ("space", [32], 200)}
        fs.append(p.font(Font(kind, name if kind != "type3" else "", g, flags=rng.choice([4, 32, 96, 1 << 18 | 32, 1 << 18 | 64 | 4, 34, 33]),
                              weight=rng.choice([0, 0, 100, 300, 400, 500, 600, 700, 800, 900]))))
    for _ in range(rng.choice([1, 2])):
        page = p.page()
        page.BT()
        for f in rng.choices(fs, k=rng.randrange(1, 6)):
            page.Tf(f, rng.choice([1000, 1200]))
            page.Tm((1, 0, 0, 1, pt(rng, 0, 500), pt(rng, 0, 800)))
            page.show(rng.choices([97, 98, 32], k=rng.randrange(1, 3)))
        page.ET()
    return p


def type1_pdf(rng, subrs, glyphs, damage=0, want=None):
    """A document with text in a font whose program has these glyphs ([(name, program)], at most 200)."""
    p = Pdf()
    names = [n for n, _ in glyphs]
    fm = rng.choice([(1000, 0, 0, 1000, 0, 0)] * 3 + [(1000, 0, 200, 1000, 0, 0), (2000, 0, 0, 1000, 0, 0)])
    angle = rng.choice([0, 0, 0, -12, 95])
    weight = rng.choice(["", "", "Regular", "Medium", "Bold", "Book"])
    data = type1.font(rng, subrs, glyphs, rng.choice(["binary", "hex", "pfb"]), rng.choice([4, 4, 0, 1]) if not want else rng.choice([4, 4, 2]),
                      " ".join(num(v, 1000000) for v in fm), num(angle, 10) if angle or rng.random() < .7 else "0.0",
                      weight or None, want, rng.choice(["\n", "\n", "\r\n"]), damage)
    f = Font("type1", rng.choice(["Foo", "ABCDEF+Bar-Bold", "Baz-Italic"]), {33 + i: (n, [0x4e00 + i], rng.choice([500, 700])) for i, n in enumerate(names)},
             flags=rng.choice([4, 96]), weight=rng.choice([0, 300]), program=data)
    f.t1 = {"subrs": subrs, "glyphs": [{"n": n, "p": g} for n, g in glyphs], "fm": list(fm), "angle": angle, "weight": weight,
            "damaged": bool(damage)}
    p.font(f)
    page = p.page()
    page.BT()
    for i in range(0, len(names), 20):
        page.Tf(f, rng.choice([1000, 1000, 700]))
        page.Tm((1, 0, 0, 1, pt(rng, 50, 80), pt(rng, 100, 700)))
        page.show([33 + j for j in range(i, min(i + 20, len(names)))])
    page.ET()
    return p


def random_program(rng, nsubrs, most=13):
    def n(k=600):
        return rng.choice([0, rng.randrange(-107, 108), rng.randrange(-k, k), rng.randrange(-2000, 2000)])
    ops = [("rmoveto", 2), ("hmoveto", 1), ("vmoveto", 1), ("rlineto", 2), ("hlineto", 1), ("vlineto", 1), ("rrcurveto", 6), ("vhcurveto", 4),
           ("hvcurveto", 4), ("closepath", 0), ("hstem", 2), ("vstem", 2), ("hstem3", 6), ("vstem3", 6), ("dotsection", 0), ("seac", 5),
           ("setcurrentpoint", 2), ("div", 2), ("pop", 0), ("callothersubr", 2), ("return", 0), ("endchar", 0), ("hsbw", 2), ("sbw", 4)]
    w = [6, 4, 4, 8, 6, 6, 8, 6, 6, 3, 1, 1, 1, 1, 1, .5, .5, 1, 1, .5, .3, .3, .3, .2]
    if rng.random() < .15:                              # about as high as the font
        return type1.toks("0 600 hsbw %d vmoveto 50 %d rlineto endchar" % (rng.choice([-1, 1]) * rng.randrange(300, 400), rng.randrange(500, 1400)))
    out = type1.toks("%d %d hsbw" % (n(), n())) if rng.random() < .85 else type1.toks("%d %d %d %d sbw" % (n(), n(), n(), n()))
    for _ in range(rng.randrange(0, most + 1)):
        k = rng.random()
        if k < .08:
            out += type1.toks("1 callsubr " + "".join("%d %d rmoveto 2 callsubr " % (n(), n()) for _ in range(rng.choice([7, 7, 2])))
                              + "50 %d %d 0 callsubr" % (n(), n()))
        elif k < .2:
            out += type1.toks("%d callsubr" % rng.randrange(nsubrs + 1))
        elif k < .24:
            out += type1.toks("%d 1 3 callothersubr pop callsubr" % rng.randrange(nsubrs))
        elif k < .28:
            m = rng.randrange(4)
            out += type1.toks("".join("%d " % n() for _ in range(m)) + "%d %d callothersubr" % (m, rng.choice([4, 12, 13, 14]))
                              + " pop" * rng.randrange(m + 1))
        elif k < .31:
            out += type1.toks("%d" % n())
        elif k < .34:
            out += type1.toks("%d %d div %s" % (n(30000), n(), rng.choice(["hlineto", "vmoveto", "5 rlineto"])))
        else:
            o, a = rng.choices(ops, w)[0]
            a = max(0, a + (rng.choice([-1, 1]) if rng.random() < .03 else 0))
            if o == "callothersubr":
                out += type1.toks("%d %d callothersubr" % (rng.randrange(3), rng.choice([0, 1, 2, 3])))
            else:
                out += type1.toks("".join("%d " % n() for _ in range(a)) + o)
    return out + (type1.toks("endchar") if rng.random() < .8 else [])


# ---- articles

ARTICLE = {ord(c): (NAMES.get(ord(c), "g%d" % ord(c)), [ord(c)], w) for c, w in
           [(c, 500) for c in "abcdeghknopqsuvxyz0123456789"] + [(c, 300) for c in "fijlrt .,-;:()*'"] +
           [(c, 800) for c in "mwABCDEFGHKLMNOPQRSTUVWXYZIJ"] + [("é", 500), ("´", 300), ("•", 500), ("¨", 300), ("=", 600)] if ord(c) < 256}
ARTICLE[149] = ("bullet", [0x2022], 500)
ARTICLE[150] = ("ffi", [0xfb03], 800)
SYMBOLS = {65: ("summation", [0x2211], 1000), 66: ("integral", [0x222b], 800), 67: ("alpha", [0x3b1], 600), 68: ("infinity", [0x221e], 1000)}


class Article:
    """A document with titles, columns, paragraphs, headings, lists, footnotes, formulas, figures, marginals and tables.
    Everything is on a grid of 1/2 pt."""

    def __init__(self, rng, small=False, size=None):
        self.rng, self.p, self.small = rng, Pdf(), small
        pre = "ABCDEF+"
        mk = lambda name, flags, weight, g=ARTICLE: self.p.font(Font("type1", pre + name, g, flags=flags, weight=weight))
        self.body, self.bold = mk("Times-Roman", 34, 400), mk("Times-Bold", 34, 700)
        self.italic, self.math = mk("Times-Italic", 98, 400), mk("CMSY10", 4, 400, SYMBOLS)
        self.size = size or rng.choice([900, 1000, 1000, 1100])
        self.number = 0

    def word(self, n=None):
        r = self.rng
        w = "".join(r.choice("abcdefghiklmnoprstuvwy") for _ in range(n or r.choice([1, 2, 3, 4, 5, 6, 7, 9, 11])))
        if r.random() < .12:
            w = w.capitalize()
        if r.random() < .05:
            w += "-" + "".join(r.choice("abcdest") for _ in range(3))
        if r.random() < .03:
            w = w[:1] + "\x96" + w[1:]
        return w + r.choice([""] * 9 + [",", ".", ".", ";", ":"])

    def width(self, s, z, f):
        return sum(f.glyphs[ord(c)][2] for c in s) * z // 100

    def line(self, page, x, y, s, z, f):
        """Prints one line: a base glyph may carry a separate accent."""
        page.Tf(f, z)
        page.Tm((1, 0, 0, 1, x, y))
        parts = []
        for c in s:
            if c in "aeo" and self.rng.random() < .02:      # the accent first, or the letter first
                w = f.glyphs[ord(c)][2]
                k = self.rng.choice([180, 168])
                parts += [[k], f.glyphs[k][2], [ord(c)]] if self.rng.random() < .5 else [[ord(c)], w, [k], f.glyphs[k][2] - w]
            else:
                parts.append([ord(c)])
        page.TJ(parts)

    def paragraph(self, page, x, y, w, lines, z=None, f=None, indent=0, lead=None, hang=0, first=None):
        """Returns the position below."""
        r, z, f = self.rng, z or self.size, f or self.body
        lead = lead or z * 12
        rest = first
        for i in range(lines):
            room = w - (indent if i == 0 else hang)
            s = rest or self.word()
            rest = None
            while True:
                v = self.word()
                if self.width(s + " " + v, z, f) > room:
                    break
                s += " " + v
            if i < lines - 1:
                if len(v) > 4 and r.random() < .6:
                    k = r.randrange(2, len(v) - 1)
                    if self.width(s + " " + v[:k] + "-", z, f) <= room:
                        s, rest = s + " " + v[:k] + "-", v[k:]
                if rest is None:
                    rest = v
            elif r.random() < .7:
                s = s[:max(1, len(s) // 2)].strip() + "."
            self.line(page, x + (indent if i == 0 else hang), y, s, z, f)
            if r.random() < .06:                            # a superscript
                page.Tf(f, 700)
                page.par("Ts", 4000)
                page.show([ord(r.choice("1234*"))])
                page.par("Ts", 0)
            y -= lead
        return y

    def formula(self, page, x, y, w):
        page.Tf(self.math, self.size)
        page.Tm((1, 0, 0, 1, x + w // 2000 * 500, y))
        page.show([65, 67, 66])
        page.Tf(self.body, self.size)
        page.show([ord(c) for c in "=x"])
        page.Tf(self.body, 700)
        page.Tm((1, 0, 0, 1, x + w // 2000 * 500, y - 9000))
        page.show([ord(c) for c in "i=1"])
        page.Tf(self.body, self.size)
        page.Tm((1, 0, 0, 1, x + w - 14000, y))
        page.show([ord(c) for c in "(%d)" % self.rng.randrange(1, 9)])
        return y - 24000

    def figure(self, page, x, y, w):
        r = self.rng
        h = r.randrange(40, 90) * 1000
        page.ET()
        k = r.choice(["form", "clip", "image"])
        if k == "image":
            page.q()
            page.cm((w // 1000, 0, 0, h // 1000, x, y - h))
            page.image("xobj")
            page.Q()
        else:
            if k == "form":
                g = page.form((1, 0, 0, 1, x, y - h), (0, 0, w, h))
                ox = oy = 0
            else:
                page.q()
                page.clip(x, y - h, w, h)
                g, ox, oy = page, x, y - h
            for _ in range(r.randrange(1, 4)):
                g.re(ox + r.randrange(2, 20) * 1000, oy + r.randrange(2, 20) * 1000, r.randrange(5, 40) * 1000, r.randrange(5, 15) * 1000)
                g.paint("S")
            g.BT()
            g.Tf(self.body, 800)
            g.Tm((1, 0, 0, 1, ox + 10000, oy + 10000))
            g.show([ord(c) for c in "axis"])
            g.ET()
            if k == "form":
                page = g.endform()
            else:
                page.Q()
        page.BT()
        y -= h + 14000
        self.line(page, x, y, "Figure %d: " % r.randrange(1, 5) + self.word(5) + " " + self.word(4), self.size, self.body)
        return y - 22000

    def column(self, page, x, y, w, bottom):
        r = self.rng
        while y > bottom + 90000:
            k = r.choice(["par"] * 6 + ["head", "item", "formula", "figure", "table"])
            if k == "par":
                y = self.paragraph(page, x, y, w, min(r.randrange(2, 9), (y - bottom) // (self.size * 12)),
                                   indent=r.choice([0, 10000, 15000]))
                y -= r.choice([0, 0, 6000, 12000])
            elif k == "head":
                self.number += 1
                y -= 8000
                self.line(page, x, y, "%d %s" % (self.number, self.word(8).capitalize()), self.size + 200, self.bold)
                y -= 20000
            elif k == "item":
                for i in range(r.randrange(2, 4)):
                    y = self.paragraph(page, x, y, w, r.randrange(1, 3), hang=12000,
                                       first=r.choice(["\x95 ", "%d. " % (i + 1), "(%s) " % "abc"[i]]) + self.word())
                y -= 6000
            elif k == "formula":
                y = self.formula(page, x, y - 10000, w)
            elif k == "figure":
                y = self.figure(page, x, y, w)
            else:
                for i in range(3):
                    for j in range(3):
                        self.line(page, x + j * w // 3000 * 1000, y, self.word(3), self.size, self.body)
                    y -= 14000
                y -= 10000

    def build(self, pages=None):
        r = self.rng
        two = r.random() < .5
        for n in range(pages or (r.choice([1, 1, 2]) if self.small else r.choice([1, 1, 2, 2, 3]))):
            page = self.p.page((0, 0, 600, 800), r.choice([0] * 9 + [90]))
            page.BT()
            top = 740000
            if r.random() < .7:
                self.line(page, 60000, 770000, "Journal of " + self.word(6), 800, self.italic)
                self.line(page, 530000, 770000, str(n + 1), 800, self.body)
            if n == 0 and r.random() < .8:
                s = " ".join(self.word(7).strip(".,;:").capitalize() for _ in range(4))
                self.line(page, (600000 - self.width(s, 1700, self.bold)) // 2000 * 1000, top, s, 1700, self.bold)
                s = "Anna " + self.word(6).capitalize()
                self.line(page, (600000 - self.width(s, 1200, self.body)) // 2000 * 1000, top - 30000, s, 1200, self.body)
                top -= 70000
                if r.random() < .6:
                    self.line(page, 280000, top, "Abstract", self.size, self.bold)
                    top = self.paragraph(page, 100000, top - 16000, 400000, r.randrange(3, 6), z=900) - 16000
            bottom = r.choice([480000, 550000]) if self.small else r.choice([100000, 300000, 500000])
            if two:
                self.column(page, 60000, top, 230000, bottom)
                self.column(page, 310000, top - r.choice([0, 0, 5000]), 230000, bottom)
            else:
                self.column(page, 60000, top, 480000, bottom)
            if r.random() < .5:
                page.ET()
                page.re(60000, 85000, 100000, 500)
                page.paint("f")
                page.BT()
                self.paragraph(page, 60000, 74000, 230000, 2, z=800, first="1 Note")
            if r.random() < .2:                             # a stamp in the margin
                page.Tf(self.body, 1400)
                page.Tm((0, 1, -1, 0, 30000, 200000))
                page.show([ord(c) for c in "arXiv:" + "".join(r.choice("0123456789") for _ in range(6))])
            if r.random() < .5:
                self.line(page, 300000, 40000, str(n + 1), self.size, self.body)
            page.ET()
        return self.p


def article_pdf(rng, small=False, pages=None, size=None):
    return Article(rng, small, size).build(pages)


def tiny_pdf(rng):
    """A page on which every stage has something to do, with few glyphs."""
    a = Article(rng, True)
    page = a.p.page((0, 0, 600, 800))
    page.BT()
    a.line(page, 250000, 740000, "Title " + a.word(3).strip(".,:;"), 1700, a.bold)
    y = a.paragraph(page, 60000, 700000, 70000, 3, first="ab", indent=10000)
    a.line(page, 60000, y, "un-", 1000, a.body)
    a.line(page, 60000, y - 12000, "der it.", 1000, a.body)
    a.paragraph(page, 300000, 700000, 70000, 3, first="se\xb4e")
    page.Tf(a.body, 700)
    page.par("Ts", 4000)
    page.show([49])
    page.par("Ts", 0)
    a.line(page, 300000, 600000, "a\xb4" if rng.random() < .5 else "\xa8o", 1000, a.body)
    page.Tf(a.body, 1000)
    page.Tm((1, 0, 0, 1, 400000, 600000))
    page.TJ([[101], 500, [180]])
    page.ET()
    g = page.form((1, 0, 0, 1, 100000, 400000), (0, 0, 50000, 50000))
    g.re(10000, 10000, 20000, 20000)
    g.paint("S")
    page = g.endform()
    page.BT()
    a.line(page, 60000, 300000, a.word(3), 1000, a.italic)
    page.ET()
    return a.p


def feature_pdf(rng, size=None):
    """One or two small pages with a random choice of features: what is found in one file must not influence another."""
    a = Article(rng, True)
    size = size or rng.choice([800, 1000, 1200])
    for _ in range(rng.choice([1, 1, 2])):
        page = a.p.page((0, 0, 600, 800))
        page.BT()
        y = 740000
        for f in rng.sample(["label", "label", "note", "note", "item", "hyphen", "bold", "far", "plain", "plain", "italic"], rng.randrange(2, 7)):
            lab = rng.choice("12a*")
            def sup():
                page.Tf(a.body, 600)
                page.par("Ts", 4000)
                page.show([ord(lab)])
                page.par("Ts", 0)
            def words(n, font=a.body, x=60000):
                a.line(page, x, y, " ".join(a.word(rng.randrange(2, 6)) for _ in range(n)), size, font)
            if f == "label":
                words(3)
                sup()
            elif f == "note":
                words(3)
                y -= 12 * size
                page.Tm((1, 0, 0, 1, 60000, y))
                sup()
                page.Tf(a.body, size)
                page.show([ord(c) for c in a.word(4) + " " + a.word(3)])
                y -= 12 * size
                words(3)
            elif f == "item":
                for k in range(rng.randrange(1, 4)):
                    a.line(page, 60000, y, rng.choice(["(%d)", "%d.", "(%d)"]) % (k + 1) + " " + a.word(5) + " " + a.word(4), size, a.body)
                    y -= 12 * size
            elif f == "hyphen":
                w = a.word(7)
                a.line(page, 60000, y, a.word(4) + " " + w[:3] + "-", size, a.body)
                y -= 12 * size
                a.line(page, 60000, y, w[3:] + " " + a.word(3), size, a.body)
                y -= 12 * size
                a.line(page, 60000, y, w + " " + (w[:3] + "-" + w[3:] if rng.random() < .5 else "x"), size, a.body)
            elif f == "bold":
                words(2, a.bold)
            elif f == "far":
                y -= 24 * size
                words(3, x=rng.choice([60000, 90000, 300000]))
            elif f == "italic":
                words(1, a.italic)
            else:
                for _ in range(rng.randrange(1, 4)):
                    words(rng.randrange(1, 6), x=60000 + (rng.random() < .3) * 10000)
                    y -= 12 * size
            y -= rng.choice([12, 12, 14, 20]) * size
        page.ET()
    return a.p
