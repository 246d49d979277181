"""use dynamic functions; look at all of them after each call."""
import inspect
import re
import sys
import traceback

from lib import Hang, exc_token

TAG = "host"


class Own(Exception):
    def __str__(self):
        return "own: %s\n{}"


BODY = """
    import dynhost
    dynhost.act(x, globals())
    return ("ret", VER, globals().get("TAG"))
"""
SOURCES = {
    "v1": "def f1(x):" + BODY.replace("VER", "'v1'"),
    # (its function is far from the first thing of the module)
    "v2": "# comment\n" + "".join(f"T{k} = {k * k + 1000}\n" for k in range(40)) + "\ndef g2(x, *rest):\n    'doc'" + BODY.replace("VER", "'v2'") + "\nTRAIL = 3\n",
    # (with functions within, and the line ends and indentation of others)
    "v3": "def h3(x, **kw):" + ("""
    def inner(y):
        return (lambda z: z)(y)
    class C: pass
    caf\u00e9 = [inner(k) for k in range(2)]""" + BODY).replace("VER", "'v3'").replace("    ", "\t").replace("\n", "\r\n"),
    "v4": "def f1(x, *rest):" + BODY.replace("VER", "'v4'"),
    "bad": "def f(:\n   pass", "empty": "X = 1\n", "none": None,
}


def h1(x, **kw):
    import dynhost
    dynhost.act(x, globals())
    return ("ret", "h1", globals().get("TAG"))


def h2(x, *rest):
    import dynhost
    dynhost.act(x, globals())
    return ("ret", "h2", globals().get("TAG"))


SOURCES["h1"] = inspect.getsource(h1)
SOURCES["h2"] = inspect.getsource(h2)
NAMES = {"v1": ("f1", "(x)"), "v2": ("g2", "(x, *rest)"), "v3": ("h3", "(x, **kw)"), "v4": ("f1", "(x, *rest)"),
         "h1": ("h1", "(x, **kw)"), "h2": ("h2", "(x, *rest)")}
FUNCS = {"h1": h1, "h2": h2}
TEXT = {"ValueError": "<class 'ValueError'>: bad {value} %s", "KeyError": "<class 'KeyError'>: 'k'",
        "StopIteration": "<class 'StopIteration'>: 5", "ZeroDivisionError": "<class 'ZeroDivisionError'>: division by zero"}


def deep(n):
    return deep(n - 1) if n else 1 / 0


SEEN, WAY = [], []


def blow(x):
    if x == "val":
        raise ValueError("bad {value} %s")
    if x == "key":
        raise KeyError("k")
    if x == "stop":
        raise StopIteration(5)
    if x == "kbd":
        raise KeyboardInterrupt
    if x.startswith("exit"):
        raise SystemExit({"exit": 3, "exit0": 0, "exitnone": None}[x])
    if x == "own":
        raise Own
    if x == "deep":
        deep(5)


def act(x, where=None):
    SEEN[:] = [where]
    WAY.clear()
    try:
        blow(x)
    except BaseException as ex:
        # the way from the dynamic function to where it was raised
        caller = sys._getframe(1)
        WAY.append((caller.f_code.co_filename, caller.f_lineno, caller.f_code.co_name))
        WAY.extend((f.filename, f.lineno, f.name) for f in traceback.extract_tb(ex.__traceback__))
        raise


def globs(g):
    if not g:
        return None
    if g == "e":
        return {}
    return {"TAG": g, "act": act, "__name__": "made"}


class DynHost:
    def __init__(self):
        self.d, self.calls, self.given = {}, {}, {}

    def call(self, e):
        from dustgoggles.dynamic import Dynamic

        op, i = e["op"], e["i"]
        d = self.d.get(i)
        if op in ("new", "from"):
            kw = {}
            if e["opt"] or e["full"]:
                kw["optional"] = e["opt"]
            if e["lazy"] or e["full"]:
                kw["lazy"] = e["lazy"]
            if not e["loc"] or e["full"]:
                kw["load_on_call"] = e["loc"]
            if e["g"]:
                kw["globals_"] = globs(e["g"])
            made = Dynamic(SOURCES[e["s"]], **kw) if op == "new" else Dynamic.from_function(FUNCS[e["s"]], **kw)
            self.d[i] = made
            self.given[i] = (e["g"], kw.get("globals_"))
            self.calls[i] = []
            return "ok"
        if op == "load":
            d.load(reload=e["b"]) if e["b"] else d.load()
        elif op == "compile":
            d.compile_source(e["b"])
        elif op == "define":
            d.define(e["b"])
        elif op == "unload":
            d.unload()
            self.calls[i] = []
        elif op == "src":
            d.source = SOURCES[e["s"]]
        elif op == "opt":
            d.optional = e["b"]
        elif op == "loc":
            d.load_on_call = e["b"]
        elif op == "call":
            kw = {"_optional": e["o"] == "yes"} if e["o"] else {}
            args = [e["x"]]
            if e["how"] == "two":
                args.append(5)
            if e["how"] == "kw":
                kw["key"] = 7
            r = d(*args, **kw)
            if r is None:
                return "ret:None"
            # it runs in the very globals it was given, not in a copy
            tag, (g, given) = r[2] if r[2] is not None else "", self.given[i]
            if given is not None and SEEN[0] is given:
                tag = g
            elif g and tag == g:
                tag = "copy"
            return f"{r[0]}:{r[1]}/{tag}"
        return "ok"

    def do(self, e):
        d = self.d.get(e["i"])
        n = len(d.errors) if d is not None else 0
        try:
            out = self.call(e)
        except Hang:
            raise
        except BaseException as ex:
            out = exc_token(ex)
        if e["op"] == "call" and d is not None:
            # the function a new report has to name
            self.calls[e["i"]] += [(d.func, list(WAY))] * (len(d.errors) - n)
        elif d is not None and e["op"] != "unload":
            self.calls[e["i"]] += [None] * (len(d.errors) - n)
        return {"out": out, "see": [self.see(i, x) for i, x in self.d.items()]}

    def see(self, i, d):
        if d.func is None:
            ver = ""
        else:
            ver = "?"
            sig = str(inspect.signature(d))
            for v, (name, want) in NAMES.items():
                if d.__name__ == name and sig == want and str(d) == f"Dynamic {want}":
                    ver = v
        errs = []
        for k, r in enumerate(d.errors):
            m = re.match(r"(?s)<class '(?:\w+\.)*(\w+)'>: (.*)", str(r.get("exception")))
            exc = m.group(1) if m else "?"
            ok = m is not None
            lens = {len(r[f]) for f in ("lineno", "name", "filename")}
            ok = ok and len(lens) == 1 and lens != {0}
            if r["category"] == "call":
                func, way = self.calls[i][k]
                ok = ok and r["func"] is not None and r["func"] is func
                if exc in TEXT:
                    ok = ok and r["exception"] == TEXT[exc]
                if exc in TEXT or exc == "Own":
                    # the traceback leads to where it was raised
                    got = list(zip(r["filename"], r["lineno"], r["name"]))[-len(way):]
                    ok = ok and len(got) == len(way) >= 3
                    ok = ok and all(g[:2] == w[:2] and (g[2] == w[2] or g[2].endswith("." + w[2])) for g, w in zip(got, way))
                if exc == "Own":
                    ok = ok and m.group(2) == "own: %s\n{}"
            errs.append({"cat": r["category"], "exc": exc, "ok": bool(ok)})
        return {"i": i, "ver": ver, "errs": errs, "cfail": d.call_fail, "kfail": d.compile_fail,
                "opt": d.optional}


BLANK = {"s": "", "g": "", "opt": False, "lazy": False, "loc": True, "b": False, "o": "", "x": "", "how": "one",
         "full": False}


def play(case):
    import sys

    sys.modules.setdefault("dynhost", sys.modules[__name__])
    h = DynHost()
    ev = []
    for e in case["ops"]:
        e = {**BLANK, **e}
        if e["op"] not in ("new", "from") and e["i"] not in h.d:
            continue  # its construction failed
        if e["op"] in ("load", "call") and not e["b"] and h.d[e["i"]].func is None and h.d[e["i"]].code is not None:
            continue  # compiled but not defined: not specified
        ev.append({**e, **h.do(e)})
    return {"ev": ev}
