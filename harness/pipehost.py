"""run edits and executions of compositions whose steps record their calls."""
import functools
import re
import tempfile
from pathlib import Path

from lib import Hang

TOKENS = {"~": None, "#0": 0, "#1": 1, "%F": False, "''": "", "[]": [], "{}": {}}
KINDS = ("ValueError", "KeyError", "AttributeError", "TypeError", "FileNotFoundError",
         "ZeroDivisionError", "KeyboardInterrupt", "RuntimeError")


def value(tok):
    v = TOKENS.get(tok, tok)
    return type(v)() if isinstance(v, (list, dict)) else v


def token(v):
    for t, w in TOKENS.items():
        if type(v) is type(w) and v == w:
            return t
    return v if isinstance(v, str) else f"?{v!r}"


def name_of(tok):
    return int(tok[1:]) if tok[0] == "i" else (tok[1:] if tok[0] == "s" else (tok[1:], 0))


def name_token(n):
    if isinstance(n, int) and not isinstance(n, bool):
        return f"i{n}"
    if isinstance(n, tuple):
        return "t" + n[0]
    return "s" + n if isinstance(n, str) else f"?{n!r}"


class PipeHost:
    def __init__(self, tmp):
        self.n, self.log, self.base, self.at, self.exc = 0, [], 0, 0, ""
        self.comps, self.its, self.caps, self.lists, self.dicts, self.files = {}, {}, {}, {}, {}, {}
        self.hidden, self.funs = {}, {}
        self.tmp = tmp

    # --- things that record
    def logged(self, entry, ret=""):
        self.n += 1
        self.log.append(entry)
        if self.at and self.n - self.base == self.at:
            import builtins

            raise getattr(builtins, self.exc[4:])(f"fault {self.at}")
        return value(ret) if ret else f"v{self.n}"

    def entry(self, id_, args, kw):
        return (id_ + "(" + ",".join(token(a) for a in args)
                + "".join(f";{k}={token(kw[k])}" for k in sorted(kw)) + ")")

    def fun(self, f):
        """each function once: a description met again is the same function"""
        key = repr(f)
        if key not in self.funs:
            self.funs[key] = self.make_fun(f)
        return self.funs[key]

    def make_fun(self, f):
        host, id_, ret = self, f["id"], f["ret"]
        if f["kind"] == "comp":
            from dustgoggles.composition import Composition

            return Composition([self.fun(g) for g in f["sub"]])

        def body(*args, **kw):
            return host.logged(host.entry(id_, args, kw), ret)

        body.__name__ = body.__qualname__ = f["name"]
        how = f.get("how", "")
        if f["kind"] == "partial":
            args = [value(a) for a in f["args"]]
            kw = {k: value(v) for k, v in f["kw"]}
            if how == "curry":
                import cytoolz

                return cytoolz.curry(body, *args, **kw)
            return functools.partial(body, *args, **kw)
        if how == "dynamic":
            from dustgoggles.dynamic import Dynamic

            return Dynamic(f"def {f['name']}(*args, **kw):\n    return body(*args, **kw)\n",
                           globals_={"body": body}, optional=f.get("opt", False))
        if how == "object":
            class Thing:
                def __call__(self, *args, **kw):
                    return body(*args, **kw)
            t = Thing()
            t.__name__ = f["name"]
            return t
        if how == "method":
            class Thing:
                def meth(self, *args, **kw):
                    return body(*args, **kw)
            Thing.meth.__name__ = f["name"]
            return Thing().meth
        return body

    def target(self, q):
        k, t = q["tk"], q["t"]
        if k == "none":
            return None
        if k == "step":
            return name_of(t)
        if k == "list":
            return self.lists[t]
        if k == "dict":
            return self.dicts[t]
        if k == "file":
            return self.files[t]
        return object()

    def pointer(self, q):
        return {"none": None, "int": q["pi"], "str": q["ps"]}[q["pk"]]

    def pipe(self, q):
        if not q["pipe"]:
            return None
        host, id_, ret = self, q["pipe"], q["ret"]

        def pipe(x):
            return host.logged(host.entry(id_, (x,), {}), ret)

        return pipe

    def send(self, q):
        q = {**NOQ, **q}
        return (self.pipe(q), self.target(q), self.pointer(q))

    # --- operations
    def make(self, e):
        from dustgoggles.composition import Composition
        from dustgoggles.tracker import Tracker

        steps = {name_of(s["n"]): self.fun(s["f"]) for s in e["steps"]}
        ins = {name_of(i["n"]): {**{k: value(v) for k, v in i["pos"]},
                                 **{k: value(v) for k, v in i["kw"]}} for i in e["ins"]}
        snd = {name_of(s["n"]): [self.send(q) for q in s["q"]] for s in e["snd"]}
        if e.get("form") == "seq":
            steps = list(steps.values())
        if e.get("form") == "tuple":
            steps = tuple(steps.values())
        kw = {}
        if e["trk"]:
            kw["tracker"] = Tracker("x", outdir=self.tmp)
        if e["opt"] or e.get("form"):
            kw["optional"] = e["opt"]
        if e["ins"]:
            kw["inserts"] = ins
        if e["snd"]:
            kw["sends"] = snd
        return Composition(steps, **kw)

    def call(self, e):
        op, c = e["op"], self.comps.get(e["c"])
        if op == "new":
            self.comps[e["c"]] = self.make(e)
            self.caps.pop(e["c"], None)
        elif op == "add_step":
            args = (self.fun(e["f"]),) + ((name_of(e["n"]),) if e["n"] else ())
            c.add_step(*args)
        elif op == "add_insert":
            c.add_insert(name_of(e["n"]), self.pointer({**NOQ, **e["q"]}), value(e["v"]))
        elif op == "add_send":
            c.add_send(name_of(e["n"]), *self.send(e["q"]))
        elif op == "add_capture":
            c.add_capture(name_of(e["n"]), None if e["q"]["tk"] == "cap" else self.target({**NOQ, **e["q"]}))
        elif op == "add_captures":
            c.add_captures()
        elif op == "reindex":
            c.reindex()
        elif op == "track":
            c.track()
        elif op == "exec":
            how = e.get("how", "")
            if how == "call":
                return token(c(value(e["v"])))
            if how == "kw":
                return token(c.execute(value(e["v"]), something=1))
            if how == "none" and e["v"] == "~":
                return token(c.execute())
            return token(c.execute(value(e["v"])))
        elif op == "itnew":
            self.its[e["it"]] = c.itercall(value(e["v"]))
        elif op == "itnext":
            try:
                return token(next(self.its[e["it"]]))
            except StopIteration:
                return "STOP"
        return "ok"

    def record(self, r):
        t = r["target"]
        if t.startswith("functools.partial("):
            t = "<partial>"
        if t.startswith("<bound method "):
            t = "<method>"
        if t.startswith("steps:"):
            t = "<comp>"
        exc = ""
        if "exception" in r:
            m = re.match(r"<class '(\w+)'>: ", r["exception"])
            exc = "EXC:" + (m.group(1) if m else "?" + r["exception"])
            if not (isinstance(r.get("name"), list) and r["name"]
                    and len(r["name"]) == len(r["lineno"]) == len(r["filename"])):
                exc += " without traceback"
            return {"t": t, "step": "", "exc": exc}
        return {"t": t, "step": name_token(r["step"]), "exc": exc}

    def do(self, e):
        self.log, self.base = [], self.n
        self.at, self.exc = e.get("at", 0), e.get("exc", "")
        try:
            out = self.call(e)
        except (Hang, SystemExit):
            raise
        except BaseException as ex:
            out = "EXC:" + type(ex).__name__
        self.at = 0
        return {"out": out, "log": self.log, **self.look(e["c"])}

    def look(self, cid):
        c = self.comps.get(cid)
        r = {"idx": [], "iidx": [], "sidx": [], "hist": [], "caps": []}
        if c is not None:
            r = {"idx": [name_token(n) for n in c.index],
                 "iidx": [name_token(n) for n in c.insert_index],
                 "sidx": [name_token(n) for n in c.send_index],
                 "hist": [] if c.tracker is None else [self.record(x) for x in c.tracker.history],
                 "caps": [{"n": name_token(n), "v": [token(x) for x in v]}
                          for n, v in (c.captures or {}).items()]}
        r["lists"] = [[k, [token(x) for x in v]] for k, v in self.lists.items()]
        r["dicts"] = [[k, [[str(k2) if k2 is not None else "-", token(x)] for k2, x in v.items()]]
                      for k, v in self.dicts.items()]
        r["files"] = [[k, [token(x) for x in v.got]] for k, v in self.files.items()]
        return r


def key_text(k):
    return "-" if k is None else str(k)


def play(case):
    """case: {ix, lists: [[id, [token]]], dicts: [id], files: [id], ops}"""
    with tempfile.TemporaryDirectory(prefix="vpipe_") as tmp:
        host = PipeHost(Path(tmp))
        import dustgoggles.composition as composition

        if hasattr(composition, "Tracker"):
            # trackers make a folder: not in the repository
            from dustgoggles.tracker import Tracker

            composition.Tracker = lambda *a, **k: Tracker(*a, **{"outdir": Path(tmp), **k})

        class LogList(list):
            id_ = ""

            def append(self, x):
                host.logged(f"put {self.id_}[-]={token(x)}")
                list.append(self, x)

            def __setitem__(self, k, x):
                host.logged(f"put {self.id_}[{key_text(k)}]={token(x)}")
                list.__setitem__(self, k, x)

        class LogDict(dict):
            id_ = ""

            def __setitem__(self, k, x):
                host.logged(f"put {self.id_}[{key_text(k)}]={token(x)}")
                dict.__setitem__(self, k, x)

        class LogFile:
            def __init__(self, id_):
                self.id_, self.got = id_, []

            def write(self, x):
                host.logged(f"write {self.id_} {token(x)}")
                self.got.append(x)

        for k, v in case["lists"]:
            host.lists[k] = LogList(value(t) for t in v)
            host.lists[k].id_ = k
        for k in case["dicts"]:
            host.dicts[k] = LogDict()
            host.dicts[k].id_ = k
        class EmptyFile(LogFile):
            """a writer that counts as false"""

            def __len__(self):
                return 0

        for i, k in enumerate(case["files"]):
            host.files[k] = (EmptyFile if (i + len(case["ops"])) % 2 else LogFile)(k)
        ev = [norm(e, host.do(e)) for e in case["ops"]]
    return {"lists": case["lists"], "dicts": case["dicts"], "files": case["files"], "ev": ev}


NOF = {"kind": "plain", "id": "", "name": "", "args": [], "kw": [], "ret": "", "sub": []}
NOQ = {"pipe": "", "ret": "", "tk": "none", "t": "", "pk": "none", "pi": 0, "ps": ""}


def norm_f(f):
    return {**NOF, **{k: v for k, v in f.items() if k in NOF},
            "name": "<partial>" if f["kind"] == "partial" and f.get("how") != "curry"
            else ("<method>" if f.get("how") == "method" else f.get("name", "")),
            "sub": [norm_f(g) for g in f.get("sub", [])]}


def norm(e, res):
    return {
        "op": e["op"], "c": e["c"], "n": e.get("n", ""), "f": norm_f(e.get("f", NOF)),
        "q": {**NOQ, **e.get("q", {})}, "v": e.get("v", ""), "at": e.get("at", 0),
        "exc": e.get("exc", ""), "it": e.get("it", ""), "ts": e.get("ts", []),
        "steps": [{"n": s["n"], "f": norm_f(s["f"])} for s in e.get("steps", [])],
        "ins": e.get("ins", []), "trk": e.get("trk", False), "opt": e.get("opt", False),
        "snd": [{"n": s["n"], "q": [{**NOQ, **q} for q in s["q"]]} for s in e.get("snd", [])],
        **res,
    }
