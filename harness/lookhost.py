"""nested structures of all sorts: build them and look things up."""
from collections import UserDict, UserList, namedtuple
from types import MappingProxyType, SimpleNamespace

from canon import canon
from lib import Hang

KEYLIST = ["a", "b", "x", "left", 0, 1, -1, 2, -3, None, "0", "", (1, 2), 2.5]
KEYS = {canon(k): k for k in KEYLIST}
COMMON = list(KEYS)
# for long sequences
KEYS.update((str(i), i) for i in range(-40, 40))
KEYS["[1]"] = [1]   # can't be a key of anything
VALUES = {canon(v): v for v in [None, 0, 1, "", False, 2.5, b"", ()]}


class Obj:
    pass


class Slots:
    __slots__ = ("a", "b", "x", "left")


class Prop:
    """attributes made on demand"""

    def __init__(self, d):
        self.__dict__["_d"] = d

    def __getattr__(self, name):
        try:
            return self.__dict__["_d"][name]
        except KeyError:
            raise AttributeError(name)


class Both:
    def __init__(self, items, attrs):
        self._items = items
        for k, v in attrs.items():
            setattr(self, k, v)

    def __getitem__(self, key):
        return self._items[key]


def build(n, ids):
    k = n["k"]
    if k == "leaf":
        return VALUES[n["v"]]
    if k == "str":
        return n["v"][2:-1]
    items = {KEYS[e["key"]]: build(e["val"], ids) for e in n["items"]}
    seq = [build(x, ids) for x in n["seq"]]
    attrs = {KEYS[e["key"]]: build(e["val"], ids) for e in n["attrs"]}
    if k == "nt":
        # the same object under a name and a position
        obj = namedtuple("NT", list(attrs))(*seq)
    elif k == "both":
        obj = Both(items, attrs)
    elif k in ("obj", "slots", "ns"):
        obj = {"obj": Obj, "slots": Slots, "ns": SimpleNamespace}[k]()
        for a, v in attrs.items():
            setattr(obj, a, v)
    elif k == "prop":
        obj = Prop(attrs)
    else:
        obj = {"dict": dict, "ud": UserDict, "mp": MappingProxyType, "list": list, "tuple": tuple,
               "ul": UserList}[k](items if k in ("dict", "ud", "mp") else seq)
    if k == "tuple" and not seq:
        return obj   # the empty tuple is one object
    ids[id(obj)] = (n["id"], obj)
    return obj


def ref(x, ids):
    return ids[id(x)][0] if id(x) in ids else canon(x)


def do(e):
    from dustgoggles.structures import get_from, getitemattr

    ids = {}
    root = build(e["root"], ids)
    path = [KEYS[k] for k in e["path"]]
    if e.get("iter"):
        path = {0: tuple, 1: iter, 2: list}[e["iter"] % 3](path)
    try:
        if e["fn"] == "get":
            if e["default"] == "None" and e.get("bare"):
                out = get_from(root, path)
            else:
                out = get_from(root, path, VALUES.get(e["default"], e["default"]))
                if out == e["default"] and isinstance(out, str) and e["default"] == "D":
                    return {**e, "out": "D", "same": True}
            out = ref(out, ids)
        else:
            try:
                out = ref(getitemattr(root, KEYS[e["path"][0]]), ids)
            except (AttributeError, TypeError, KeyError, IndexError):
                out = "EXC"
    except Hang:
        raise
    except BaseException as ex:
        out = "raised " + type(ex).__name__
    again = {}
    return {**e, "out": out, "same": repr_of(root) == repr_of(build(e["root"], again))}


def repr_of(x):
    if isinstance(x, (dict, UserDict, MappingProxyType)):
        return ["d"] + [(repr(k), repr_of(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple, UserList)):
        return ["s"] + [repr_of(v) for v in x]
    if isinstance(x, Both):
        return ["b", repr_of(x._items), repr_of({k: v for k, v in x.__dict__.items() if k != "_items"})]
    if isinstance(x, Slots):
        return ["o", [(k, repr_of(getattr(x, k))) for k in x.__slots__ if hasattr(x, k)]]
    if isinstance(x, (Obj, SimpleNamespace, Prop)):
        return ["o", repr_of(x.__dict__)]
    return repr(x)


def play(case):
    return {"ev": [do(e) for e in case["ops"]]}
