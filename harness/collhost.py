"""call the helpers for collections."""
import re
from collections import OrderedDict, UserDict, UserList, deque
from types import MappingProxyType

from canon import canon, fresh
from lib import Hang

THINGS = {canon(v): v for v in [0, 1, 2, 3, "", "a", "b", "text", None, 2.5, (1,), b"x", "c", 1000, (1, "b")]}
THINGS_LISTED = list(THINGS)
# for long collections
MANY = [str(i) for i in range(10, 91)]
THINGS.update((t, int(t)) for t in MANY)
BLANK = {"kind": "list", "x": "", "val": "", "els": [], "ps": [], "ms": [], "key": "", "yes": [], "exc": "",
         "same": True, "out": [], "count": 0, "how": ""}


class Item:
    """items with a class, told apart by name"""

    def __init__(self, name, cls):
        self.name, self.cls = name, cls

    def __hash__(self):
        return hash(self.cls)

    def __eq__(self, other):
        return self is other


def coll(kind, toks):
    xs = [fresh(THINGS[t]) for t in toks]
    if kind == "bytes":
        return bytes(xs)
    if kind == "range":
        return range(len(xs))
    return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "deque": deque, "ul": UserList,
            "gen": lambda x: (y for y in x), "iter": iter, "keys": lambda x: dict.fromkeys(x).keys(),
            "dict": dict.fromkeys, "array": arr}[kind](xs)


def arr(xs):
    import numpy as np

    a = np.empty(len(xs), dtype=object)
    a[:] = xs
    return a


def mapping(kind, ps):
    d = {fresh(THINGS[k]): fresh(THINGS[v]) for k, v in ps}
    return {"dict": dict, "od": OrderedDict, "ud": UserDict, "mp": MappingProxyType}[kind](d)


def toks(xs):
    return [canon(x) for x in xs]


def pairs(m):
    return [[canon(k), canon(v)] for k, v in m.items()]


class CollHost:
    def __init__(self):
        self.hd = None
        self.items = {}

    def call(self, e):
        from dustgoggles import structures as st

        fn = e["fn"]
        if fn == "listify":
            if e["kind"] in ("str", "atom"):
                return toks(st.listify(fresh(THINGS[e["x"]])))
            if e["kind"] in ("gen", "iter"):
                g = coll(e["kind"], e["els"])
                got = st.listify(g)
                e["kind"], e["x"] = "atom", "itself"
                return ["itself" if len(got) == 1 and got[0] is g else "something else"]
            c = coll(e["kind"], e["els"])
            e["els"] = toks(c)
            got = st.listify(c)
            e["same"] = toks(c) == e["els"]
            assert type(got) is list
            return toks(got)
        if fn in ("reindex", "after", "enumerate") and e["kind"] == "map":
            m = mapping(e["how"], e["ps"])
            if fn == "reindex":
                got = st.reindex_mapping(m)
            elif fn == "enumerate":
                got = st.enumerate_as_mapping(m)
            else:
                got = st.insert_after(fresh(THINGS[e["x"]]), fresh(THINGS[e["val"]]), fresh(THINGS[e["key"]]), m)
            e["same"] = pairs(m) == [list(p) for p in e["ps"]]
            return pairs(got)
        if fn == "reindex":
            return pairs(st.reindex_mapping(coll(e["how"], e["els"])))
        if fn == "enumerate":
            c = None if e["kind"] == "none" else coll(e["how"], e["els"])
            got = st.enumerate_as_mapping(c)
            return pairs(got)
        if fn == "getall":
            ms = [mapping(h, m) for h, m in zip(e["hows"], e["ms"])]
            arg = {"list": list, "tuple": tuple, "iter": iter, "dict": lambda x: dict(enumerate(x)),
                   "mp": lambda x: MappingProxyType({str(i): m for i, m in enumerate(x)})}[e["how"]](ms)
            if e["x"] == "None" and e["bare"]:
                got = st.get_from_all(THINGS[e["key"]], arg)
            else:
                got = st.get_from_all(THINGS[e["key"]], arg, THINGS[e["x"]])
            e["same"] = [pairs(m) for m in ms] == [[list(p) for p in m] for m in e["ms"]]
            return toks(got)
        if fn == "separate":
            c = coll(e["how"], e["els"])
            yes = {id(THINGS[t]) for t in e["yes"]} if False else set(e["yes"])
            hits, misses = st.separate_by(c, lambda x: canon(x) in yes)
            return [toks(hits), toks(misses)]
        # hash dictionaries
        if self.hd is None:
            self.hd = st.HashDict() if e["how"] == "hash" else st.HashDict(equivalence=lambda i: i.cls)
        if fn == "assign":
            item = self.items.setdefault((e["x"], e["val"]), Item(e["x"], e["val"]))
            self.hd[THINGS[e["key"]]] = item
            out = []
        else:
            try:
                out = [self.hd[THINGS[e["key"]]].name]
            except KeyError:
                out = ["EXC:KeyError"]
        e["count"] = int(re.search(r"(\d+) unique", str(self.hd)).group(1))
        return out

    def do(self, e):
        e = {**BLANK, **e}
        try:
            e["out"] = self.call(e)
        except Hang:
            raise
        except BaseException as ex:
            e["exc"] = type(ex).__name__
        return e


def play(case):
    h = CollHost()
    return {"ev": [h.do(e) for e in case["ops"]]}
