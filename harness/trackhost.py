"""run calls of trackers; look at histories and files after each."""
import json
import tempfile
from pathlib import Path

from canon import canon
from lib import Hang, exc_token


class Obj:
    pass


def circular():
    x = []
    x.append(x)
    return x


# name -> what to put into metadata; "!": can't be written
VALUES = {
    "1": 1, "0": 0, "none": None, "s": "text", "e": "", "u": "ünï☃\ud800", "l": [1, [2, None]], "d": {"k": {"j": 2.5}},
    "true": True, "long": "x" * 5000, "quote": '"]},\n[', "tuple": (1, 2), "float": 1e300,
}
BAD = {"!o": Obj, "!c": circular, "!o2": lambda: {1, 2}, "!o3": lambda: b"x", "!k": lambda: {"a": {(1, 2): 3}}, "!o4": lambda: [1, {"k": Obj()}]}


def value(k):
    return BAD[k]() if k in BAD else VALUES[k]


def token(v):
    try:
        return canon(json.loads(json.dumps(v)))
    except TypeError:
        return "!o"
    except ValueError:
        return "!c"


def named(name):
    def f():
        pass
    f.__name__ = name
    return f


class Named:
    __name__ = "attr name"


class Texty:
    def __str__(self):
        return "as text"


TARGETS = {
    "f": lambda: named("f"), "len": lambda: len, "str": lambda: "a string",
    "int": lambda: 5, "attr": Named, "text": Texty, "lambda": lambda: (lambda: 1), "none": lambda: None,
    "g": lambda: named("ünï g"),
}
NAMES = {"f": "f", "len": "len", "str": "a string", "int": "5", "attr": "attr name",
         "text": "as text", "lambda": "<lambda>", "none": "None", "g": "ünï g"}


def alpha(t, f, kw):
    t.track(f, **kw)


def beta(t, f, kw):
    pass
    t.track(
        f, **kw
    )


class Gamma:
    def delta(self, t, f, kw):
        t.track(f, **kw)


CALLERS = {"alpha": (alpha, alpha.__code__.co_firstlineno + 1),
           "beta": (beta, beta.__code__.co_firstlineno + 2),
           "delta": (Gamma().delta, Gamma.delta.__code__.co_firstlineno + 1)}


class TrackHost:
    def __init__(self, tmp):
        self.tmp, self.t, self.paths = Path(tmp), {}, {}

    def call(self, e):
        from dustgoggles.tracker import Tracker, TrivialTracker

        op = e["op"]
        t = self.t.get(e["t"])
        if op == "new":
            if e.get("trivial"):
                self.t[e["t"]] = TrivialTracker()
                return
            kw = {"outdir": self.tmp / e["dir"]}
            if e["ident"]:
                kw["identifier"] = e["ident"]
            self.t[e["t"]] = Tracker(e["name"], **kw)
            self.paths[e["path"]] = Path(self.t[e["t"]].outpath)
        elif op == "track":
            CALLERS[e["caller"]][0](t, TARGETS[e["target"]](), {k: value(v) for k, v in e["kw"]})
        elif op == "set":
            t.set_metadata(**{k: value(v) for k, v in e["kw"]})
        elif op == "pause":
            t.paused = e["x"]
        elif op == "clear":
            t.clear()
        elif op == "dump":
            t.dump()

    def do(self, e):
        try:
            self.call(e)
            out = "ok"
        except (Hang, SystemExit):
            raise
        except BaseException as ex:
            out = exc_token(ex)
        return {"out": out, "exc": out.startswith("EXC:"),
                "hists": [[k, self.records(t.history)] for k, t in self.t.items()],
                "files": [[p, self.file(f)] for p, f in self.paths.items()]}

    @staticmethod
    def records(rs):
        return [] if rs is None else [[[str(k), token(v)] for k, v in r.items()] for r in rs]

    def file(self, path):
        none = {"there": False, "ok": True, "dumps": []}
        if not path.exists():
            return none
        r = dict(none, there=True)
        try:
            got = json.loads(path.read_text())
            assert isinstance(got, list)
            for d in got:
                assert set(d) == {"name", "init_timestamp", "write_timestamp", "history"}
                assert list(d)[-1] == "history"
                r["dumps"].append({"name": token(d["name"]), "hist": self.records(d["history"])})
        except Exception:
            return dict(r, ok=False, dumps=[])
        return r


def play(case):
    ev = []
    with tempfile.TemporaryDirectory(prefix="vtrk_") as tmp:
        h = TrackHost(tmp)
        for e in case["ops"]:
            e = {"name": None, "path": "", "kw": [], "x": False, "target": "f", "caller": "alpha", **e}
            ev.append({"op": e["op"], "t": e["t"], "name": token(e["name"]), "path": e["path"],
                       "kw": [[k, token(value(v))] for k, v in e["kw"]], "x": e["x"],
                       "target": token(NAMES[e["target"]]), "caller": token(e["caller"]),
                       "lineno": token(CALLERS[e["caller"]][1]), **h.do(e)})
    return {"ev": ev}
