"""A writer for Type 1 font programs. A charstring is a list of tokens: {"o": "num", "n": n} or {"o": operator, "n": 0}."""

OPS = {"hstem": 1, "vstem": 3, "vmoveto": 4, "rlineto": 5, "hlineto": 6, "vlineto": 7, "rrcurveto": 8, "closepath": 9,
       "callsubr": 10, "return": 11, "hsbw": 13, "endchar": 14, "rmoveto": 21, "hmoveto": 22, "vhcurveto": 30, "hvcurveto": 31}
OPS2 = {"dotsection": 0, "vstem3": 1, "hstem3": 2, "seac": 6, "sbw": 7, "div": 12, "callothersubr": 16, "pop": 17,
        "setcurrentpoint": 33}


def toks(s):
    """The tokens of a text as "30 -40 rmoveto"."""
    return [{"o": "num", "n": int(x)} if x.lstrip("-").isdigit() else {"o": x, "n": 0} for x in s.split()]


def encode(prog, rng):
    b = bytearray()
    for t in prog:
        n = t["n"]
        if t["o"] == "num":
            if -107 <= n <= 107 and rng.random() < .9:
                b.append(n + 139)
            elif 108 <= n <= 1131 and rng.random() < .9:
                b += bytes([247 + (n - 108) // 256, (n - 108) % 256])
            elif -1131 <= n <= -108 and rng.random() < .9:
                b += bytes([251 + (-n - 108) // 256, (-n - 108) % 256])
            else:
                b += b"\xff" + (n & 0xffffffff).to_bytes(4, "big")
        elif t["o"] in OPS:
            b.append(OPS[t["o"]])
        else:
            b += bytes([12, OPS2[t["o"]]])
    return bytes(b)


def encrypt(data, r, lead):
    out = bytearray()
    for p in lead + data:
        c = p ^ (r >> 8)
        out.append(c)
        r = ((c + r) * 52845 + 22719) & 0xffff
    return bytes(out)


def charstring(data, rng, n, want=None):
    """An encrypted charstring with n leading bytes; if possible, one that contains the given bytes."""
    c = b""
    for _ in range(20000 if want and n else 1):
        c = encrypt(data, 4330, bytes(rng.randrange(256) for _ in range(n)))
        if not want or want in c:
            break
    return c


def font(rng, subrs, glyphs, form="binary", lenIV=4, matrix="0.001 0 0 0.001 0 0", angle="0", weight=None, want=None, eol="\n",
         damage=0):
    """subrs: programs; glyphs: [(name, program)]; gives the data, Length1 and Length2."""
    clear = ["%!PS-AdobeFont-1.0: X 001.000", "11 dict begin", "/FontInfo 10 dict dup begin"]
    if weight is not None:
        before = rng.choice(["", "", "/Notice (x) readonly def ", " "])
        clear.append("%s/Weight (%s) readonly def" % (before, weight))
    if angle is not None:
        clear.append("/ItalicAngle %s def" % angle)
    clear += ["/isFixedPitch false def", "end readonly def", "/FontName /X def", "/PaintType 0 def", "/FontType 1 def",
              "/FontMatrix [%s] readonly def" % matrix, "/Encoding StandardEncoding def", "/FontBBox {0 0 1000 1000} readonly def",
              "currentdict end", "currentfile eexec", ""]
    clear = eol.join(clear).encode("latin-1")
    p = bytearray(b"dup /Private 15 dict dup begin\n/RD {string currentfile exch readstring pop} executeonly def\n"
                  b"/ND {noaccess def} executeonly def\n/NP {noaccess put} executeonly def\n"
                  b"/BlueValues [] def\n/password 5839 def\n")
    if lenIV != 4 or rng.random() < .3:
        p += b"/lenIV %d def\n" % lenIV
    hit = rng.randrange(len(subrs)) if subrs else 0
    p += b"/Subrs %d array\n" % len(subrs)
    for i, s in enumerate(subrs):
        c = charstring(encode(s, rng), rng, lenIV, want if i == hit else None)
        p += b"dup %d %d RD " % (i, len(c)) + c + b" NP\n"
    p += b"ND\n2 index /CharStrings %d dict dup begin\n" % len(glyphs)
    for i, (n, s) in enumerate(glyphs):
        c = charstring(encode(s, rng), rng, lenIV, want if want and i == 0 else None)
        p += b"/%s %d RD " % (n.encode("latin-1"), len(c)) + c + b" ND\n"
    p += b"end\nend\nreadonly put\nnoaccess put\ndup/FontName get exch definefont pop\nmark currentfile closefile\n"
    p = bytes(p)
    for _ in range(damage):
        i = rng.randrange(len(p))
        k = rng.randrange(4)
        p = p[:i] + (bytes([rng.randrange(256)]) + p[i + 1:] if k == 0 else p[i + rng.choice([1, 2, 50]):] if k == 1
                     else b"9" * rng.choice([1, 3, 12]) + p[i:] if k == 2 else p[i:i + 30] + p[i:])
    hexd = b"0123456789abcdefABCDEF"
    while True:
        e = encrypt(p, 55665, bytes(rng.randrange(256) for _ in range(4)))
        if not all(x in hexd for x in e[:4]):
            break
    trailer = (b"0" * 64 + b"\n") * 8 + b"cleartomark\n"
    if form == "hex":
        h = e.hex() if rng.random() < .5 else e.hex().upper()
        k = rng.choice([64, 63, 80, 10 ** 9])
        h = "\n".join(h[i:i + k] for i in range(0, len(h), k)).encode() + b"\n"
        return clear + h + trailer, len(clear), len(h)
    if form == "pfb":
        def seg(t, d):
            return bytes([0x80, t]) + len(d).to_bytes(4, "little") + d
        return (seg(1, clear) + seg(2, e) + seg(1, trailer) + b"\x80\x03", len(clear) + 6, len(e) + 6)
    return clear + e + trailer, len(clear), len(e)
