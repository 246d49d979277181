"""scraping of labels. texts are lists of characters and of names in OPAQUE."""
import os
from pathlib import Path
import re
import shutil
import tempfile

from canon import canon
from lib import Hang

OPAQUE = {
    "S:nul": "\x00", "S:sur": "\ud800", "N:minus": "-" * 10000 + "1", "N:plus": "1+" * 10000 + "1", "N:paren": "(" * 300,
    "N:digits": "9" * 5000, "N:bracket": "[" * 2000, "N:dots": "q" + ".q" * 3000, "N:call": "f(" * 150 + ")" * 150, "N:not": "not " * 3000 + "1",
    "N:name": "w" * 3000, "N:unhash": "{[]: 1234}", "N:unhash2": "{1, {2}}", "V:dict": "{'q': 1234}", "V:empty": "{}", "V:set": "{1234, 77777}", "V:bytes": "b'xy'", "V:cplx": "1234+5678j",
    "V:imag": "-5678j", "V:hex": "0x1F3F", "V:exp": "123e5", "V:under": "1_234_567", "V:huge": "1e400", "V:esc": r"'q\nq'",
    "V:deep": "{'q': [1, {'r': None}]}", "V:dots": "...", "V:raw": r"r'\d+q'", "V:tri": '"""q\'s tri"""', "V:tiny": "0.00001234",
    "V:long": "[" + ", ".join(str(10**k) for k in range(30, 60)) + "]",
}


def worth(name):
    from ast import literal_eval

    return canon(literal_eval(OPAQUE[name]))


def real(els):
    return "".join(OPAQUE.get(e, e) for e in els)


def masked(s, names):
    for n in sorted(names, key=lambda n: -len(OPAQUE[n])):
        s = s.replace(OPAQUE[n], n)
    return s.encode("utf-8", "replace").decode()


def enc(v, names, top=True):
    if top and names:
        c = canon(v)
        for n in names:
            if n[0] == "V" and worth(n) == c:
                return {"t": "other", "s": n, "items": []}
    if v is None:
        return {"t": "none", "s": "", "items": []}
    if isinstance(v, bool):
        return {"t": "bool", "s": str(v), "items": []}
    if type(v) in (list, tuple):
        return {"t": type(v).__name__, "s": "", "items": [enc(x, names, False) for x in v]}
    kind = {int: "int", float: "float", str: "str"}.get(type(v))
    if kind == "str":
        return {"t": kind, "s": masked(v, names), "items": []}
    if kind == "int" and abs(v) >= 10**4000:
        kind = None
    return {"t": kind or "other", "s": repr(v) if kind else canon(v), "items": []}


def regex(p):
    cls = "[" + ("^" if p["neg"] else "") + "".join(re.escape(c) for c in p["set"]) + "]" if p["set"] else r"[\s\S]"
    quant = "{2}" if p["quant"] == "2" else p["quant"]
    s = re.escape("".join(p["pre"])) + f"({cls}{quant})" + ("?" if p["opt"] else "") + re.escape("".join(p["post"]))
    how = p.get("how", "")
    if how in ("verbose", "(?x)"):
        # spaces and comments don't count
        s = s + "  # the value\n"
    return {"": s, "compiled": re.compile(s), "(?x)": "(?x)" + s,
            "verbose": re.compile(s, re.VERBOSE)}[how]


def plain(p):
    return {k: p[k] for k in ("pre", "neg", "set", "quant", "opt", "post")}


def opaques(els):
    return {e for e in els if len(e) > 1}


class Room:
    def __init__(self):
        self.dir = Path(tempfile.mkdtemp(prefix="scrape"))
        self.files = {}

    def path(self, els, kind):
        key = tuple(els)
        if key not in self.files:
            p = self.dir / f"label{len(self.files)}.lbl"
            p.write_bytes(real(els).encode())
            self.files[key] = p
        return str(self.files[key]) if kind == "str" else self.files[key]


def part(text, **kw):
    return {"text": text, "exc": "", "seen": "", "label": "", "label2": "", "got": [], **kw}


def do(room, c):
    from dustgoggles import scrape as S

    e = {"fn": c["fn"], "exc": "", "n": len(c["texts"]), "sees": False, "pats": [{"name": q["name"], "p": plain(q)} for q in c["pats"]],
         "extra": [], "parts": []}
    pats = [(q["name"], regex(q)) for q in c["pats"]]
    names = set().union(*(opaques(t) for t in c["texts"])) if c["texts"] else set()
    shown = lambda got: [{"name": n, "v": enc(v, names)} for n, v in got]
    try:
        fn, kind = c["fn"], c.get("kind", "str")
        if fn == "frame":
            e["parts"] = [part(c["texts"][0])]
            e["parts"][0]["got"] = shown([("frame", S.scrape_subframe(real(c["texts"][0])))])
        elif fn == "text":
            f = room.path(c["texts"][0], kind)
            e["parts"] = [part(c["texts"][0])]
            e["parts"][0]["seen"] = masked((S.cached_label_loader if c["cached"] else S.get_label_text)(f), names)
        elif fn == "scraper":
            # scrapers of several texts at once
            made = [S.make_scraper(real(t)) for t in c["texts"]]
            e["parts"] = [part(t) for t in c["texts"]]
            for n, p in pats:
                for i in c["order"]:
                    e["parts"][i]["got"] += shown([(n, made[i](p))])
        elif fn == "fromfile":
            e["parts"] = [part(t) for t in c["texts"]]
            for n, p in pats:
                for i in c["order"]:
                    got = S.scrape_from_file(room.path(c["texts"][i], kind), p)
                    e["parts"][i]["got"] += shown([(n, got)])
        else:
            seen = []
            e["parts"] = [part(t) for t in c["texts"]]
            e["extra"] = [{"name": n, "v": enc(v, set())} for n, v in c["extra"]] if c["sup"] else []
            e["sees"] = c["sup"]

            def special(label, text):
                seen.append((str(label), masked(text, names)))
                return dict(c["extra"])

            if c["loader"] == "given":
                labels = [f"label {i}" if kind == "str" else i for i in range(len(c["texts"]))]
                kw = {"label_loader": lambda lab: real(c["texts"][labels.index(lab)])}
            else:
                labels = [room.path(t, kind) for t in c["texts"]]
                kw = {"label_loader": S.get_label_text} if c["loader"] == "direct" else {}
            if c["sup"]:
                kw["supplemental_search_function"] = special
            given = dict(pats)
            if fn == "bulk":
                outs = S.bulk_scrape_metadata(iter(labels) if c["iter"] else tuple(labels), lambda f: S.scrape_patterns(f, given, **kw))
            else:
                outs = [S.scrape_patterns(lab, given, **kw) for lab in labels]
            e["n"] = len(outs)
            for k, q in enumerate(e["parts"]):
                if k < len(outs):
                    q["got"] = shown(outs[k].items())
                if c["sup"] and k < len(seen):
                    q["label"], q["label2"], q["seen"] = str(labels[k]), *seen[k]
            assert given == dict(pats), "modified the patterns"
    except Hang:
        raise
    except BaseException as ex:
        e["exc"] = type(ex).__name__
        e["msg"] = str(ex)[:200].encode("utf-8", "replace").decode()
    return e


def play(case):
    room = Room()
    try:
        return {"ev": [do(room, c) for c in case["ops"]]}
    finally:
        shutil.rmtree(room.dir, ignore_errors=True)
