"""V02: table reshaping keeps every value under its own label."""
import numpy as np

from props import tables as T

KINDS = list(T.POOLS)
SMALL = {"int64": [0, 1, -7, 120], "int8": [0, 1, -7], "float64": [0.5, 1.0, -2.25, None], "str": ["a", "b", ""],
         "bool": [True, False], "object": [1, "a", "b"]}
HASHABLE = [k for k in KINDS if k != "lists"]
TEXT = ["a", "b", "c", "x_y", "col", "A1"]


def split(rng, t):
    n = len(t["idx"])
    return {"fn": "split", "df": t, "mask": [rng.random() < 0.5 for _ in range(n)], "series": rng.random() < 0.7 and len(set(map(str, t["idx"]))) == n}


def repeat(rng, t):
    return {"fn": "repeat", "df": t, "k": rng.choice([1, 1, 2, 3, 5])}


def listcells(rng, n):
    kind = rng.choice([[0, 1, 2], ["a", "b"], [0, "a", None], [0.5, None]])
    ms = rng.choice([[0, 1, 2], [2], [3, 1], [0, 4]])
    return [None if rng.random() < 0.25 else [rng.choice(kind) for _ in range(rng.choice(ms))] for _ in range(n)]


def unpack(rng, t):
    n = len(t["idx"])
    names = [rng.choice(["a", "l", "x_y", 5])]
    return {"fn": "unpack", "df": {"names": names, "idx": t["idx"], "cols": [["object", listcells(rng, n)]]}}


def unpackcol(rng, t):
    j = rng.randrange(len(t["cols"]))
    t["cols"][j] = ["object", listcells(rng, len(t["idx"]))]
    t["names"] = rng.sample(["a", "b", "l", "x_y", 5, 0], len(t["names"]))
    return {"fn": "unpackcol", "df": t, "k": j}


def smash(rng, t):
    w = len(t["cols"])
    js = sorted(rng.sample(range(w), min(w - 1, rng.choice([1, 1, 2]))))
    rng.shuffle(js)
    t["names"] = rng.sample(TEXT, w)
    for j in range(w):
        kind = rng.choice([k for k in SMALL if j not in js or k != "float64"])
        if j in js:
            t["cols"][j] = [kind, [rng.choice(SMALL[kind]) for _ in t["idx"]]]
        elif kind not in ("int8",):
            t["cols"][j] = [kind, [rng.choice(SMALL[kind]) for _ in t["idx"]]]
        else:
            t["cols"][j] = ["float64", [rng.choice(SMALL["float64"]) for _ in t["idx"]]]
    vals = None
    if rng.random() < 0.4:
        of = [x for j in js for x in t["cols"][j][1]]
        vals = rng.sample(of, rng.randrange(len(of) + 1))
        if len({type(x) for x in of}) > 1:
            vals = None
    return {"fn": "smash", "df": t, "js": js, "vals": vals, "bare": rng.random() < 0.5}


def squeeze(rng, t):
    n = len(t["idx"])
    name = rng.choice(["v", "v", None, 0, "index", "a"])
    kind = rng.choice(["int64", "float64", "bool", "str", "object", "int64"])
    vals = [rng.choice({"int64": [0, 1, -7, 50, 2], "float64": [0.0, 1.0, 7.0, -2.0, None], "bool": [True, False],
                        "str": ["a", "b", "c", None], "object": ["a", "b", None]}[kind]) for _ in range(n)]
    idx = rng.choice([[rng.choice(["a", "b", "c"]) for _ in range(n)], [rng.choice([1, 2, 3]) for _ in range(n)],
                      [rng.choice(["a", None, "b"]) for _ in range(n)], [rng.choice([1.5, None, 2.0]) for _ in range(n)],
                      [rng.choice([("a", "p"), ("a", "q"), ("b", "p"), ("a", None), ("b", None)]) for _ in range(n)]])
    agg = rng.choice({"int64": ["sum", "max", "min", "first", "last", "count", "", ""], "float64": ["sum", "max", "min", "first", "last", "count", ""],
                      "bool": ["", "", "any", "all", "first", "count"], "str": ["first", "last", "count", ""], "object": ["first", "last", "count", "", ""]}[kind])
    nums = [int(v) if kind != "str" and kind != "object" and v is not None else 0 for v in vals]
    return {"fn": "squeeze", "df": {"names": [name], "idx": idx, "cols": [[kind, vals]]}, "how": agg, "nums": nums}


SAME = {"int64": ["float64", "object", "Int64"], "int8": ["int64", "float64"], "uint8": ["int64", "object"], "float64": ["object", "Float64"],
        "float32": ["float64"], "bool": ["object", "boolean", "int64"], "str": ["object", "string"], "Int64": ["object"], "boolean": ["object"],
        "datetime64[ns]": ["object"]}


def dedupe(rng, t):
    for _ in range(rng.choice([0, 1, 1, 2, 2, 4, 5])):  # copies of columns, some not quite
        j = rng.randrange(len(t["cols"]))
        dt, vals = t["cols"][j]
        vals = list(vals)
        if rng.random() < 0.25:
            vals[rng.randrange(len(vals))] = rng.choice(T.POOLS[dt])
        if dt in SAME and rng.random() < 0.4 and T.BIG not in vals and all(abs(v) < 2**53 for v in vals if type(v) is int):
            dt = rng.choice(SAME[dt])  # equal values of another type
        at = rng.randrange(len(t["cols"]) + 1)
        t["cols"].insert(at, [dt, vals])
        t["names"].insert(at, t["names"][j if at > j else j])
    return {"fn": "dedupe", "df": t}


def unique(rng, t):
    w = len(t["cols"])
    js = rng.sample(range(w), rng.randrange(1, w + 1))
    # pandas makes floats of integers next to nulls
    t["cols"] = [[dt, [7 if v == T.BIG else v for v in vals]] for dt, vals in t["cols"]]
    return {"fn": "unique", "df": t, "js": js}


def junction(rng, t):
    h = rng.choice([1, 2, 4])
    other = {"names": t["names"], "idx": list(range(h)), "cols": [
        [dt, [rng.choice(vals + T.POOLS[dt] if rng.random() < 0.5 else vals) for _ in range(h)]] for dt, vals in t["cols"]]}
    w = len(t["cols"])
    cut = {"names": t["names"], "idx": t["idx"], "cols": t["cols"]}
    for x in (cut, other):
        x["cols"] = [[dt, [next(q for q in T.POOLS[dt] if q is not None and q == q) if v is None or v != v else v for v in vals]] for dt, vals in x["cols"]]
    return {"fn": "junction", "df": cut, "other": other, "js": rng.sample(range(w), rng.randrange(1, w + 1)),
            "how": rng.choice(["", "difference", "union", "intersection", "symmetric_difference"]), "as": rng.choice(["list", "tuple", "index"])}


def typed(rng, t):
    pats = rng.choice([["int", "float"], ["int", "float"], ["int"], ["float64"], ["object"], ["str"], ["bool"], ["INT"], ["int8", "bool"], ["64"], ["time"], ["t"], ["oat", "int"],
                       ["datetime"], ["category"], ["str", "object", "int64"]])
    return {"fn": "typed", "df": t, "pats": pats, "series": rng.random() < 0.5}


METHODS = [["upper", [], {}], ["lower", [], {}], ["strip", [], {}], ["strip", ["a"], {}], ["slice", [1, None], {}], ["slice", [0, -1], {}],
           ["slice", [None, None, 2], {}], ["replace", ["a", "bb"], {"regex": False}], ["replace", ["", "-"], {"regex": False}],
           ["zfill", [4], {}], ["len", [], {}], ["find", ["b"], {}], ["pad", [5], {}], ["pad", [3], {"side": "right", "fillchar": "*"}],
           ["repeat", [2], {}], ["repeat", [0], {}], ["split", [","], {}], ["removeprefix", ["a"], {}], ["pad", [6], {"fillchar": "0"}]]
WORDS = ["", "a", "b", "ab", "aAb", " a ", "1", "a,b", "\u00e9a", "abcabc", "-12", "A b"]


def text(rng, t):
    n = len(t["idx"])
    kind = rng.choice(["str", "str", "object", "category", "string"])
    words = rng.sample(WORDS, rng.choice([1, 3, 8]))
    vals = [rng.choice(words + [None] * (rng.random() < 0.4)) for _ in range(n)]
    vals[0] = vals[0] if vals[0] is not None else words[0]
    method = rng.choice(METHODS)
    return {"fn": "text", "df": {"names": [rng.choice(["a", 0, None, "x y"])], "idx": t["idx"], "cols": [[kind, vals]]}, "method": method, "again": rng.choice([0, 0, 1, 2])}


def scalars(rng, t):
    things = []
    for _ in range(rng.choice([1, 3, 6])):
        k = rng.randrange(12)
        if k < 4:
            d = rng.choice(["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"])
            i = np.iinfo(d)
            things.append((d, int(rng.choice([0, 1, i.min, i.max, i.max - 1, 100]))))
        elif k < 6:
            things.append((rng.choice(["f2", "f4", "f8"]), rng.choice([0.0, -0.0, 0.1, 1.5, 65504.0, float("inf"), float("nan"), 1e-7])))
        elif k < 7:
            things.append((rng.choice(["c8", "c16"]), rng.choice([1j, 2 - 1j, 0j])))
        elif k < 8:
            things.append(("?", rng.random() < 0.5))
        elif k < 9:
            things.append(rng.choice([("U5", "text"), ("U1", ""), ("S4", b"ab"), ("V3", b"abc"), ("V1", b"\0")]))
        else:
            things.append((None, rng.choice([0, 1.5, True, None, "text", b"x", [1], {"a": 1}, (1, 2), 2**70, float("inf"), 1j, np.array([1.5]), np.arange(3)])))
    return {"fn": "scalars", "things": things}


def made(rng, fn, t=None):
    two = fn in (split, repeat, typed, dedupe)
    kinds = {unique: HASHABLE, junction: ["int64", "str", "bool", "int8", "datetime64[ns]", "float64", "category"],
             dedupe: [k for k in HASHABLE if k != "category"]}.get(fn)
    w = rng.choice([2, 3, 4]) if fn is smash else None
    t = t or T.frame(rng, w=w, kinds=kinds, twice_cols=two and fn is not dedupe, of=T.PLAIN[:-1] if fn in (unique, junction) else T.PLAIN, k=rng.choice([None, 2, 3]),
                     wide=fn in (split, repeat, typed))
    return fn(rng, t)


def run(ctx):
    rng = ctx.rng()
    ops = []
    fns = [split, repeat, unpack, unpackcol, smash, squeeze, dedupe, unique, junction, typed, text, scalars]
    for t in T.models(ctx, ["tile", "forget", "byrow"]):
        for fn in (fns if ctx.thorough else rng.sample([split, repeat, dedupe, unique], 1)):
            if fn is smash and len(t["cols"]) < 2:
                continue
            if fn in (junction, text, scalars):
                continue
            c = T.concrete(rng, t)
            if fn in (unique,):
                c = T.concrete(rng, t)
                c["cols"] = [["object", [None if x is None else str(x) for x in v]] for _, v in c["cols"]]
            ops.append(fn(rng, c))
    for fn in fns:
        for _ in range(ctx.scale(320, 9000)):
            ops.append(made(rng, fn))
    T.check(ctx, ops)
    ctx.assumptions.append("smash: by-values without nulls, names other than variable/value, one type of value to select by; "
                           "junction: keys without nulls; typed_columns: plain type names; unique_to_records: no integers beyond 2**53 next to nulls")
