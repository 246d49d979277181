"""R01: each field is the first match of its own pattern, parsed or verbatim."""
import copy

from lib import SPEC, record
from scrapehost import OPAQUE, play
from selftest import must_reject

KEYS = ["LINES", "FIRST_LINES", "LINE", "L", "NAME", "A.B", "TIME"]


def p(pre="", neg=True, set="\n", quant="*", opt=False, post=""):
    return {"pre": list(pre), "neg": neg, "set": list(set), "quant": quant, "opt": opt, "post": list(post)}


def literal(rng, depth=0):
    """text of a literal, of the kinds the specification describes"""
    k = rng.randrange(10 if depth < 2 else 7)
    sp = lambda: rng.choice(["", "", "", " ", "  "])
    if k <= 1:
        return rng.choice(["", "", "-", "+", "- "]) + rng.choice(["0", "1", "7", "12", "00", "99"])
    if k == 2:
        return rng.choice(["", "-"]) + rng.choice(["0.5", "1.", ".25", "01.50", "0.0", "12.125", "0.1"])
    if k == 3:
        return rng.choice(["None", "True", "False"])
    if k <= 6:
        q = rng.choice("'\"")
        return q + "".join(rng.choice(["a", "b", " ", "1", "é", "#", ",", "]", "=", "{", {"'": '"', '"': "'"}[q]]) for _ in range(rng.randrange(1, 5))) + q
    if k == 7:
        return "[" + sp() + ("," + sp()).join(literal(rng, depth + 1) for _ in range(rng.randrange(4))) + "]"
    items = [literal(rng, depth + 1) for _ in range(rng.randrange(1, 4))]
    s = ("," + sp()).join(items) + ("," if len(items) == 1 and rng.random() < 0.6 else "")
    return "(" + s + sp() + ")" if rng.random() < 0.6 else s


def value(rng):
    k = rng.randrange(10)
    if k <= 3:
        return list(literal(rng))
    if k == 4:
        s = list(literal(rng))
        if s:
            i = rng.randrange(len(s))
            s[i:i + 1] = rng.choice([[], [s[i], s[i]], ["]"], ["'"], ["a"], [" "]])
        return s
    if k == 5:
        return list(rng.choice(["2005-01-01T00:00", "1 2", "abc", "ab cd", "--1", "1+1", "a.b", "1.2.3", "N/A", "-", "'", "[1", "(", ",", "01", "1a", "nan",
                                "true", "1 km", "<1>", "12:30", "a'b", "f(x)", "[a]", "(1, b)", "not 1", "-'a'", "[1 2]", "[1,,2]", "Ⅷ", "½", "x\u00a0y"]))
    if k == 6:
        return []
    return [rng.choice(list(OPAQUE))] if rng.random() < 0.4 else list(literal(rng))


def label(rng, used):
    out = []
    for _ in range(rng.randrange(0, 6)):
        key, sep = rng.choice(KEYS), rng.choice([" = ", " = ", "=", " ="])
        used.append((key, sep))
        end = rng.choice(["\n", "\n", "\n", "\r\n", ";\n", ""])
        val = value(rng)
        out += list(key) + list(sep) + (['"'] + val + ['"'] if rng.random() < 0.2 else val) + list(end)
    return out


def pattern(rng, opaque, used):
    key, sep = rng.choice(used or [("LINE", " = ")]) if rng.random() < 0.7 else (rng.choice(KEYS), rng.choice([" = ", " = ", "=", " ="]))
    k = rng.randrange(9)
    if opaque or k <= 2:
        q = p(key + sep, quant=rng.choice("*+"), post=rng.choice(["", "", "\n"]))
    elif k == 3:
        q = p(key + sep + '"', set='"', quant=rng.choice(["*", "+", "*?"]), post='"')
    elif k == 4:
        q = p(key + sep, False, "0123456789", rng.choice(["*", "+", "+?", "?", "2", "??"]))
    elif k == 5:
        q = p(key + sep, True, "", rng.choice(["*?", "+?"]), post=rng.choice(["\n", ";", "1"]))
    elif k == 6:
        q = p(key, False, rng.choice([" =", "1", "0123456789"]), rng.choice(["+", "+?", "2"]), True, rng.choice(["", "1", "\n", " = "]))
    elif k == 7:
        q = p("", False, rng.choice(["0123456789", "-+.0123456789", "'", "[]"]), rng.choice(["+", "*", "2"]), post=rng.choice(["", "\n", ","]))
    else:
        q = p(rng.choice(["\n", ""]) + key + sep, True, rng.choice(["\n\r", "\n;", " \n", ","]), rng.choice("*+"))
    q["how"] = rng.choice(["", "", "", "compiled", "verbose", "(?x)"])
    return q


def op(rng):
    fn = rng.choice(["scraper", "scraper", "patterns", "patterns", "patterns", "bulk", "bulk", "fromfile", "fromfile", "text", "frame"])
    if fn == "frame":
        return frame(rng)
    opaque = rng.random() < 0.25
    n = {"text": 1, "patterns": rng.choice([1, 2]), "bulk": rng.choice([0, 1, 2, 3, 4])}.get(fn, rng.choice([1, 2, 3]))
    c = {"fn": fn, "kind": rng.choice(["str", "path"]), "sup": False, "extra": [], "cached": rng.random() < 0.5, "iter": rng.random() < 0.5,
         "loader": rng.choice(["given", "default", "default", "direct"])}
    texts, used = [], []
    while len(texts) < n:
        mine = []
        t = label(rng, mine)
        surrogate = fn in ("fromfile", "text") or c["loader"] != "given"
        if opaque and not any(len(x) > 1 for x in t):
            continue
        if (fn != "scraper" and surrogate and "S:sur" in t) or (not opaque and any(len(x) > 1 for x in t)) or len(t) > 160:
            continue
        if sum(len(OPAQUE.get(x, x).encode("utf-8", "replace")) for x in t) > 30000:
            continue  # by default no more than 35592 bytes of a label are read
        texts.append(t)
        used += mine
    if n > 1 and rng.random() < 0.3:
        texts[-1] = texts[0]
    c["texts"], c["order"] = texts, rng.sample(range(n), n)
    names = rng.sample(["a", "b", "c", "d"], rng.randrange(0 if fn in ("patterns", "bulk") else 1, 4)) if fn != "text" else []
    c["pats"] = [{"name": x, **pattern(rng, opaque, used)} for x in names]
    if len(c["pats"]) > 1 and rng.random() < 0.3:
        c["pats"][0].update({k: v for k, v in c["pats"][1].items() if k != "name"})
    if fn in ("patterns", "bulk") and rng.random() < 0.5:
        c["sup"], c["extra"] = True, [(x, rng.choice([None, 5, "x", [1, 2], True, ""])) for x in rng.sample(["a", "b", "e"], rng.randrange(0, 3))]
    return c


def frame(rng):
    num = lambda: str(rng.choice([0, 1, 7, 1200, 1648, 33]))
    body = lambda: "".join(rng.choice(["\n", " "]) + rng.choice(KEYS) + " = " + num() for _ in range(rng.choice([2, 3, 4, 5])))
    junk = lambda: rng.choice(["", "END\n", "LINES = 5\n", "1 2 3\n"])
    text = junk() + "OBJECT = SUBFRAME" + body() + "\nEND_OBJECT = SUBFRAME" + junk() + rng.choice(["", "OBJECT = SUBFRAME" + body() + "\nEND"])
    return {"fn": "frame", "texts": [list(text)], "pats": []}


def spoil(r, e):
    e = copy.deepcopy(e)
    if e["exc"] or e["fn"] in ("text", "frame"):
        return None
    k = r.randrange(3)
    parts = [q for q in e["parts"] if q["got"]]
    if k == 0 and e["fn"] == "bulk":
        e["n"] += 1
        return e
    if not parts:
        return None
    q = r.choice(parts)
    if k == 1:
        q["got"].pop()
        return e
    g = r.choice(q["got"])
    named = {x["name"] for x in e["extra"]}
    if g["name"] not in named and any(len(x) > 1 for x in q["text"]):
        return None
    if g["v"]["t"] == "none":
        g["v"] = {"t": "str", "s": "zz", "items": []}
        return e
    if g["name"] in named or g["v"]["t"] in ("bool", "int", "list"):
        g["v"] = {"t": "none", "s": "", "items": []} if g["v"]["t"] != "int" else {**g["v"], "s": g["v"]["s"] + "5"}
        return e
    return None


def run(ctx):
    rng = ctx.rng()
    text = (SPEC / "MCScrape.cfg").read_text()
    if ctx.thorough:
        text = text.replace("N = 5", "N = 6")
    res = ctx.model("MCScrape", cfg_text=text)
    for b in ("last", "falsy"):
        ctx.model_fails("MCScrape", b, cfg_text=text.replace('"none"', f'"{b}"'))
    memo = text.replace("N = 5", "N = 2").replace("N = 6", "N = 2").replace("M = 0", f"M = {ctx.scale(2, 3)}").replace("{1}", "{1, 2}")
    memo = memo.replace('{"a", "1", "-", "\'", ","}', '{"a", "1"}').replace("Earliest Faithful Shape Shown", "")
    ctx.model("MCScrape", cfg_text=memo)
    ctx.model_fails("MCScrape", "key", cfg_text=memo.replace('"none"', '"key"'))
    found = [list(t) for t in res.json_printed("CALL")]
    ctx.note("model_inputs", len(found))
    pats = [p("a", True, "a"), p("", False, "1-,", "+"), p("a", True, "", "*?", False, "a"), p("", False, "1", "+", True, "a"),
            p("-", False, "1a", "2"), p("'", True, "'", "+?", False, "'"), p("", True, "a"), p("a", False, "1,", "+?", True, "1")]
    ops = []
    rng.shuffle(found)
    for i in range(0, len(found), 8):
        ops.append({"fn": "scraper", "texts": found[i:i + 8], "order": list(range(len(found[i:i + 8]))),
                    "pats": [{"name": str(k), **q} for k, q in enumerate(pats)]})
    ops += [op(rng) for _ in range(ctx.scale(3000, 60000))]
    for o in OPAQUE:
        for end in ("\n", "\r\n", ""):
            q = p("NAME = ", quant=rng.choice("*+"))
            ops.append({"fn": "scraper", "texts": [list("NAME = ") + [o] + list(end)], "order": [0], "pats": [{"name": "a", **q}]})
    cases = [{"ops": ops[i:i + 20]} for i in range(0, len(ops), 20)]
    hist = record(ctx, play, cases, "TraceScrape", "scraping", limit=60, batch=1500, heap="6g")
    if not ctx.violations:
        r = ctx.rng("corrupt")
        bad = [spoil(r, r.choice(h["ev"])) for h in hist[-90:]]
        must_reject(ctx, "TraceScrape", [{"ev": [e]} for e in bad if e][:30])
    ctx.assumptions.append("patterns are a literal prefix, one group of repeated characters and a literal suffix; labels are UTF-8 and "
                           "don't change while their scraping is cached")
