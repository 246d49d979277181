"""nested mappings: build them, call what works on them, write down what came of it."""
import copy
import json
import operator
from collections import OrderedDict, UserDict
from collections.abc import Mapping
from types import MappingProxyType

from canon import canon, fresh
from lib import Hang

KEYLIST = ["a", "b", "c", "w", 1, 2, None, (1, 2), "1", "", "a_b", "c_a"]
KEYS = {canon(k): k for k in KEYLIST}
COMMON = list(KEYS)
# for very wide mappings
WIDE = [f"k{i}" for i in range(20)] + list(range(100, 120))
KEYS.update((canon(k), k) for k in WIDE)
LEAVES = {canon(v): v for v in [1, 2, 9, "x", None, "", [], [1], "a", (1, 2), 2.5, [{"a": 1, "b": {"a": 1}}]]}


class Sub(dict):
    pass


def types(mts):
    from dustgoggles.structures import NestingDict

    t = {"dict": dict, "od": OrderedDict, "nd": NestingDict, "ud": UserDict, "Mapping": Mapping}
    return tuple(t[m] for m in mts)


def strip(n):
    """what two nodes with equal contents have in common"""
    return json.dumps([n["k"], n["v"], [[e["key"], strip(e["val"])] for e in n["es"]]])


def build(n, ids, shared=None):
    """shared: make mappings with equal contents one object"""
    from dustgoggles.structures import NestingDict

    if n["k"] == "leaf":
        v = LEAVES[n["v"]]
        return fresh(copy.deepcopy(v))
    if shared is not None and strip(n) in shared:
        return shared[strip(n)]
    items = [(fresh(KEYS[e["key"]]), build(e["val"], ids, shared)) for e in n["es"]]
    make = {"dict": dict, "od": OrderedDict, "ud": UserDict, "mp": lambda x: MappingProxyType(dict(x)),
            "nd": lambda x: NestingDict(None, x)}[n["k"]]
    obj = make(items)
    ids[id(obj)] = (n["id"], obj)   # obj is kept alive
    if shared is not None:
        shared[strip(n)] = obj
    return obj


def name(obj, ids):
    return ids[id(obj)][0] if id(obj) in ids else "new"


def ref(obj, ids):
    k = kind(obj)
    return name(obj, ids) if k != "leaf" else canon(obj)


def kind(obj):
    from dustgoggles.structures import NestingDict

    t = type(obj)
    return {dict: "dict", OrderedDict: "od", UserDict: "ud", MappingProxyType: "mp", NestingDict: "nd"}.get(t, "leaf")


def encode(obj, ids, depth=0):
    k = kind(obj)
    if depth > 40:
        return {"k": "too deep", "v": "", "id": "", "es": []}
    if k == "leaf":
        return {"k": k, "v": canon(obj), "id": "", "es": []}
    es = list(obj.items())
    return {"k": k, "v": "", "id": name(obj, ids),
            "es": [{"key": canon(key), "ks": str(key), "val": encode(v, ids, depth + 1)}
                   for key, v in es]}


def truth(b, style):
    return b if style == 0 else ([1] if b else "") if style == 1 else (1 if b else None)


def predicate(p, style):
    """(ref, match, base_pred) for the functions"""
    refs = [fresh(KEYS.get(t, LEAVES.get(t))) for t in p["ref"]]
    how, r = p["how"], refs[0] if refs else None
    T = lambda b: truth(bool(b), style)
    isin = lambda x: any(type(x) is type(y) and x == y for y in refs)
    fns = {
        "key-eq": lambda k, v: T(isin(k)), "key-ne": lambda k, v: T(not isin(k)),
        "key-in": lambda k, v: T(isin(k)),
        "val-eq": lambda k, v: T(isin(v)), "val-ne": lambda k, v: T(not isin(v)),
        "item-eq": lambda k, v: T(isin(k) and type(v) is type(LEAVES[p["val"]]) and v == LEAVES[p["val"]]),
        "is-map": lambda k, v: T(isinstance(v, Mapping)), "is-leaf": lambda k, v: T(not isinstance(v, Mapping)),
        "any": lambda k, v: T(True), "none": lambda k, v: T(False),
    }
    if p.get("const"):
        if how == "key-eq":
            return {"ref": r}
        if how == "key-ne":
            return {"ref": r, "base_pred": operator.ne, "match": "key"}
        if how == "key-in":
            return {"ref": tuple(refs), "base_pred": operator.contains}
        if how == "val-eq":
            return {"ref": r, "match": "value"}
        if how == "val-ne":
            return {"ref": r, "match": "value", "base_pred": operator.ne}
        if how == "item-eq":
            return {"ref": (r, LEAVES[p["val"]]), "match": "item"}
    return {"ref": fns[how], "match": p.get("match", "key")}


def setter(s):
    how = s["how"]
    return {
        "const": lambda k, v: LEAVES[s["v"]], "same": lambda k, v: v, "wrap": lambda k, v: {"w": v},
        "empty": lambda k, v: {}, "grow": lambda k, v: {"b": 1, "w": 2},
        "step": lambda k, v: {"b": 1} if k == "a" else 9, "key": lambda k, v: k,
        "first": lambda k, v: next(iter(v.values())) if isinstance(v, Mapping) and len(v) else v,
    }[how]


BLANK = {"pred": {"how": "none", "ref": [], "val": ""}, "setter": {"how": "same", "v": ""}, "mts": ["dict"],
         "form": "keys", "esc": "", "names": [], "other": 0, "ops": [], "exc": "", "same": True}


def same(a, b):
    return a == b


def do(e):
    from dustgoggles import structures as st

    e = {**BLANK, **e}
    ids = {}
    fn = e["fn"]
    e = dict(e)
    try:
        if fn == "nest":
            return nest(e)
        shared = {} if e.get("share") else None
        root = build(e["root"], ids, shared)
        e["root"] = before = encode(root, ids)
        other = build(e["other"], ids, shared) if e["other"] else None
        second = encode(other, ids) if e["other"] else None
        e["other"] = second or before
        mt = {} if e.get("default") else {"mtypes": types(e["mts"])}
        if fn in ("all", "one"):
            what = {"keys": "key", "values": "value", "items": "item"}[e["form"]]
            f = getattr(st, f"dig_for_{what}" + ("s" if fn == "all" else ""))
            got = f(root, **predicate(e["pred"], e.get("style", 0)), **mt)
            e["none"] = got is None
            if fn == "one":
                # a value found may be None itself
                e["none"], got = (True, None) if found_nothing(st, root, e, mt) else (False, [got])
            e["found"] = []
            for x in got or []:
                e["found"].append(canon(x) if e["form"] == "keys" else ref(x, ids) if e["form"] == "values"
                                  else canon(x[0]) + "=" + ref(x[1], ids))
        elif fn == "edit":
            p = predicate({**e["pred"], "const": False}, e.get("style", 0))["ref"]
            got = st.dig_and_edit(root, p, setter(e["setter"]), **mt)
            e["returned"] = got is root
            e["out"] = encode(root, ids)
            return e
        elif fn == "unnest":
            kw = {"escape": e["esc"]} if e["esc"] else {}
            got = st.unnest(root, **mt, **kw)
            e["pairs"] = [[k, ref(v, ids)] for k, v in got.items()]
        elif fn == "records":
            kw = {}
            if e["given"]:
                kw["level_names"] = [KEYS.get(n, n) for n in e["names"]]
                e["names"] = [canon(k) for k in kw["level_names"]]
                if e["given"] == "iter":
                    kw["level_names"] = iter(kw["level_names"])
            got = st.to_records(root, **kw)
            e["rows"] = [[[canon(k), rowval(k, v, ids)] for k, v in r.items()] for r in got]
        elif fn == "merge":
            got = st.rmerge(root, other, **mt)
            e["out"] = encode(got, ids)
        e["same"] = encode(root, ids) == before and (other is None or encode(other, ids) == second)
    except Hang:
        raise
    except BaseException as ex:
        e["exc"] = type(ex).__name__
    return e


def rowval(k, v, ids):
    return ref(v, ids)


def found_nothing(st, root, e, mt):
    """does the single form say that there is nothing? (None may be what was found)"""
    if e["form"] == "items":
        return st.dig_for_item(root, **predicate(e["pred"], e.get("style", 0)), **mt) is None
    got = getattr(st, {"keys": "dig_for_key", "values": "dig_for_value"}[e["form"]])(
        root, **predicate(e["pred"], e.get("style", 0)), **mt)
    if got is not None:
        return False
    # None: a key or value None, or nothing. the plural form (judged separately) knows
    return st.dig_for_items(root, **predicate(e["pred"], e.get("style", 0)), **mt) is None


def nest(e):
    from dustgoggles.structures import NestingDict

    d = NestingDict()
    for o in e["ops"]:
        try:
            at = d
            for k in o["path"][:-1]:
                at = at[KEYS[k]]
            if o["val"]:
                at[KEYS[o["path"][-1]]] = LEAVES[o["val"]]
            else:
                at[KEYS[o["path"][-1]]]
        except (TypeError, IndexError):
            pass  # a leaf in the way
    e["out"] = encode(d, {})
    e["plain"] = encode(d.todict(), {})
    e["root"] = e["other"] = e["out"]
    return e


def play(case):
    return {"ev": [do(e) for e in case["ops"]]}
