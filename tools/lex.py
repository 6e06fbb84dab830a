"""The oracle for the lexical facts about texts that the specification takes as given."""
import json
import math
import re
import unicodedata

ITEM = [(rb"^(\xe2\x80\xa2|-|\xe2\x80\x93|\+)\s+", 0), (rb"^(X{0,1}(IX|IV|V?I{0,3}))\.\s+", re.I),
        (rb"^\((X{0,1}(IX|IV|V?I{0,3}))\)\s+", re.I), (rb"^([a-z])\.\s+", 0), (rb"^([0-9]+)\.\s+", 0),
        (rb"^(\(|\[)([a-z0-9][0-9]{0,2})(\)|\])\s+", re.I), (rb"^(\[)([A-Z][a-zA-Z0-9]{0,5})(\])\s+", 0),
        (rb"^([a-z0-9][0-9]{0,1})\)\s+", re.I), (rb"^PACS\s+", re.I)]
ITEM = [re.compile(p, f) for p, f in ITEM]
SUPER = "*∗abcdefghijklmnopqrstuvwxyz01234567890()".encode()
SPECIAL = "*∗†‡§‖¶?".encode()
ALNUM = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def line_facts(D, l):
    W, C = D["words"], D["chars"]
    t = l["t"].encode("utf-8", "surrogatepass")
    ws = [W[i - 1] for i in l["w"]]
    first = [C[i - 1] for i in ws[0]["c"]] if ws else []
    labels = []
    for w in ws:
        lab, seen = b"", False
        for i in w["c"]:
            c = C[i - 1]
            ct = c["t"].encode()
            if not seen and not c["sub"] and not c["sup"]:
                seen = True
                continue
            if not seen or not ct:
                continue
            if ct[:1] in SPECIAL or (c["sup"] and ct[:1] in ALNUM):
                lab += ct
                continue
            if lab:
                labels.append(lab)
                lab = b""
        if lab:
            labels.append(lab)
    pre = ""
    for c in first:
        if not c["sup"]:
            break
        pre += c["t"]
    item = bool(ws) and bool(first) and ((first[0]["sup"] and first[0]["t"].encode() in SUPER) or any(r.search(t) for r in ITEM))
    return {"item": item, "lab": [x.decode() for x in labels], "pre": pre, "delim": t[-1:] != b"" and t[-1:] in b"?!.);",
            "upper": t[:1].isupper(), "lower": t[:1].islower(), "long": len(t) >= 3, "formula": b"=" in t or b"+" in t,
            "alpha": bool(re.search(rb"[A-Za-z]", t)), "low": bool(re.search(rb"[a-z]", t)),
            "name": bool(ws) and ws[0]["t"] in ("van", "von", "de")}


def blocks_aux(D):
    return {"lines": [line_facts(D, l) for l in D["lines"]]}


LENGTHS = ("minX", "minY", "maxX", "maxY", "width", "height", "fontSize")


def jsonl(out):
    """The objects of a JSONL output; every line has to be one strictly valid JSON object without duplicate keys."""
    def const(x):
        raise ValueError("no JSON constant: " + x)

    def pairs(ps):
        if len({k for k, _ in ps}) != len(ps):
            raise ValueError("duplicate key")
        return dict(ps)

    objs, bad = [], ""
    lines = out.split("\n")
    if lines[-1] != "":
        bad = "no line end after " + lines[-1][-60:]
    for x in lines[:-1]:
        try:
            o = json.loads(x, parse_constant=const, object_pairs_hook=pairs)
            if not isinstance(o, dict) or not isinstance(o.get("type"), str):
                raise ValueError("no object")
            for k in LENGTHS:
                if k in o:
                    o[k] = math.floor(float(o[k]) * 160 + 0.5)
            if "color" in o:
                o["color"] = [math.floor(float(v) * 1000 + 0.5) for v in o["color"]]
            if "opacity" in o:
                o["opacity"] = math.floor(float(o["opacity"]) * 1000 + 0.5)
            objs.append(o)
        except (ValueError, TypeError) as e:
            bad = "%s in %s" % (e, x[:300])
    return {"ok": not bad, "bad": bad, "objs": objs}


def cps(t):
    return {"c": list(t), "u": [ord(x) for x in t]}


def roles_aux(D):
    """The characters of the texts the roles depend on. The vocabulary is added by the campaign."""
    r = []
    for b in D["blocks"]:
        x = cps(b["t"])
        x["w"] = [[ord(y) for y in D["words"][w - 1]["t"]] for l in b["l"] for w in D["lines"][l - 1]["w"]]
        r.append(x)
    return {"blocks": r}


def vocabulary(text):
    """The vocabulary of a file: the first number of every token in lines that contain a tab and end with a line end."""
    v = {}
    for x in text.split("\n")[:-1]:
        if "\t" in x:
            t, n = x.split("\t")[:2]
            v.setdefault(t, int(n))
    return v


def nfd(t):
    return [ord(x) for x in unicodedata.normalize("NFD", t)]


def printed(fmt, out):
    """The decomposed code points a format prints: of the words alone (without roles, marks and the syntax of JSON)."""
    if fmt == "txt":
        t = out
    elif fmt == "ext":
        t = "\n".join(re.sub(r"^\[[A-Z-]+\] \u0001?", "", x) for x in out.replace("\f", "").split("\n"))
    else:
        t = " ".join(json.loads(x)["text"] for x in out.split("\n") if x)
    return nfd(t)
