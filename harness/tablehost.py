"""call the functions on tables; tables as [names, idx, cols] of tokens."""
import warnings
from decimal import Decimal
from fractions import Fraction

import numpy as np
import pandas as pd

from canon import canon
from lib import Hang

NONE = {"names": [], "idx": [], "cols": [], "kinds": [], "iname": ""}
BLANK = {"T": NONE, "U": NONE, "how": "", "dropna": True, "todict": True, "drop": False, "mask": [], "k": 0,
         "name": "", "ls": [], "js": [], "texts": [], "labels": [], "all": True, "vals": [], "nums": [],
         "out": NONE, "out2": NONE, "pairs": [], "rows": [], "exc": "", "same": True}


def tok(v):
    if isinstance(v, (list, tuple, dict, set, np.ndarray)):
        return "o" + canon(v)
    if v is None or pd.isna(v):
        return "~"
    if isinstance(v, (np.datetime64, np.timedelta64)):
        v = pd.Timestamp(v) if isinstance(v, np.datetime64) else pd.Timedelta(v)
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, (Decimal, Fraction)) and float(v) == v:
        v = float(v)
    if isinstance(v, complex) and v.imag == 0:
        v = v.real
    if isinstance(v, (bool, int, float)):
        if isinstance(v, float) and not (np.isfinite(v) and v == int(v) and abs(v) < 2.0**63):
            return f"n{v!r}"
        return f"n{int(v)}"
    if isinstance(v, str) and v.isascii() and v.isprintable() and len(v) < 80:
        return "s" + v
    return "o" + canon(v)


def build(t):
    """{names, idx, cols: [[dtype, values], ..]} -> a table"""
    if not t["cols"]:
        return pd.DataFrame(index=t["idx"])
    cols = [pd.Series(list(v), dtype=dt) if dt != "object" else objects(v) for dt, v in t["cols"]]
    df = pd.concat(cols, axis=1)
    df.columns = pd.Index(list(t["names"]))
    df.index = pd.Index(list(t["idx"]))
    if t.get("iname"):
        df.index.names = [t["iname"]] * df.index.nlevels
    return df


def objects(vals):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return pd.Series(a, dtype=object)


def toks(xs):
    return [tok(x) for x in xs]


def shown(df):
    assert isinstance(df, pd.DataFrame), type(df)
    return {"names": toks(df.columns), "idx": toks(df.index),
            "cols": [toks(df.iloc[:, j].array) for j in range(df.shape[1])],
            "kinds": kinds(df), "iname": repr(list(df.index.names))}


def pairs(s):
    return [[tok(k), tok(v)] for k, v in zip(s.index, s.array)]


def kinds(df):
    return [str(df.iloc[:, j].dtype) for j in range(df.shape[1])]


def rows(df):
    return [toks(df.iloc[i, j] for j in range(df.shape[1])) for i in range(len(df))]


TEXT = {"upper": str.upper, "lower": str.lower, "strip": str.strip, "slice": lambda s, *a: s[slice(*a)],
        "replace": lambda s, a, b, regex: s.replace(a, b), "zfill": str.zfill, "len": len, "find": str.find,
        "pad": lambda s, width, side="left", fillchar=" ": {"left": s.rjust, "right": s.ljust}[side](width, fillchar),
        "repeat": lambda s, n: s * n, "split": str.split, "removeprefix": str.removeprefix}


def typed(v):
    """what a number or a text is called, and its value"""
    if isinstance(v, np.generic):
        kind = {"b": "bool", "i": "int", "u": "int", "f": "float", "c": "complex", "U": "str", "S": "bytes", "V": "void"}[v.dtype.kind]
        plain = {"void": lambda x: x.tobytes()}.get(kind) or {"bool": bool, "int": int, "float": float, "complex": complex,
                                                              "str": str, "bytes": bytes}[kind]
        return ["numpy " + kind, canon(plain(v))]
    return [type(v).__name__, canon(v)]


def scalars(e, c):
    from dustgoggles.pivot import itemize_numpy

    things = [np.dtype(t).type(v) if t else v for t, v in c["things"]]
    e["rows"] = [typed(v) for v in things]
    got = [itemize_numpy(v) for v in things]
    e["pairs"] = [typed(v) for v in got]
    e["same"] = all(g is v for g, v in zip(got, things) if not isinstance(v, np.generic))


def lists(cells):
    return [{"null": c is None, "els": toks(c or [])} for c in cells]


def call(e, c):
    from dustgoggles import pivot as pv

    fn = e["fn"]
    if fn == "scalars":
        return scalars(e, c)
    df = build(c["df"])
    e["T"], types = shown(df), kinds(df)
    arg = df
    if fn in ("squeeze", "unpack", "text"):
        arg = df.iloc[:, 0]
    was = shown(df), types, arg.name if arg is not df else None
    try:
        if fn == "extract":
            e.update({k: c[k] for k in ("how", "dropna", "todict", "drop")})
            kw = {k: v for k, v in dict(how=c["how"], dropna=c["dropna"], to_dict=c["todict"], drop_constants=c["drop"]).items()
                  if v != dict(how="rows", dropna=True, to_dict=True, drop_constants=False)[k] or c["explicit"]}
            k, v = pv.extract_constants(df, **kw)
            e["out"] = shown(v)
            if c["todict"]:
                assert isinstance(k, dict)
                e["pairs"] = [[tok(a), tok(b)] for a, b in k.items()]
            else:
                e["out2"] = shown(k)
        elif fn == "split":
            e["mask"] = c["mask"]
            a, b = pv.split_on(df, pd.Series(c["mask"], index=df.index, dtype=bool) if c["series"] else np.array(c["mask"], dtype=bool))
            e["out"], e["out2"] = shown(a), shown(b)
        elif fn == "repeat":
            e["k"] = c["k"]
            e["out"] = shown(pv.dupe_df_block(df, c["k"]))
        elif fn == "unpack":
            e.update(name=f"s{arg.name}", ls=lists(c["df"]["cols"][0][1]))
            e["out"] = shown(pv.unpack(arg))
        elif fn == "unpackcol":
            j = c["k"]
            e.update(name=f"s{df.columns[j]}", k=j + 1, ls=lists(c["df"]["cols"][j][1]))
            e["out"] = shown(pv.unpack_column(df, df.columns[j]))
        elif fn == "smash":
            by = [df.columns[j] for j in c["js"]]
            e.update(js=[j + 1 for j in c["js"]], texts=[[str(x) for x in df[b].tolist()] for b in by],
                     labels=[str(x) for x in df.columns], all=c["vals"] is None, vals=toks(c["vals"] or []))
            s = pv.smash(df, by[0] if len(by) == 1 and c["bare"] else by, *([] if c["vals"] is None else [c["vals"]]))
            e["pairs"] = pairs(s)
        elif fn == "squeeze":
            boolean = arg.dtype == bool
            e["how"] = c["how"] or ("any" if boolean else "")
            e["nums"] = c["nums"]
            e["pairs"] = pairs(pv.squeeze(arg, *([c["how"]] if c["how"] else [])))
        elif fn == "text":
            name, args, kw = c["method"]
            e["rows"] = [[tok(v), tok(TEXT[name](v, *args, **kw))] for v in dict.fromkeys(v for v in c["df"]["cols"][0][1] if v is not None)]
            over = pv.pdstr(name, *args, **kw)
            for _ in range(c["again"]):
                over(pd.Series(["other", "text"]))
            s = over(arg)
            e["pairs"], e["labels"] = pairs(s), toks([s.name])
        elif fn == "dedupe":
            e["out"] = shown(pv.check_and_drop_duplicate_columns(df))
        elif fn == "unique":
            cols = [df.columns[j] for j in c["js"]]
            e["js"] = [j + 1 for j in c["js"]]
            got = pv.unique_to_records(df, cols)
            e["rows"], e["labels"] = rows(got), toks(got.columns)
            e["T"] = was[0]
        elif fn == "junction":
            other = build(c["other"])
            e["U"] = shown(other)
            cols = [df.columns[j] for j in c["js"]]
            e.update(js=[j + 1 for j in c["js"]], how=c["how"] or "difference")
            got = pv.junction(df, other, {"list": list, "tuple": tuple, "index": pd.Index}[c["as"]](cols), *([c["how"]] if c["how"] else []))
            e["rows"] = [toks(k) for k in got]
            e["same"] = shown(other) == e["U"]
        elif fn == "typed":
            e.update(labels=[k.lower() for k in types], vals=[p.lower() for p in c["pats"]])
            if c["pats"] == ["int", "float"] and c["series"]:
                got = pv.numeric_columns(df)
            else:
                got = pv.typed_columns(df, c["pats"][0] if len(c["pats"]) == 1 and c["series"] else tuple(c["pats"]))
            e["out"] = shown(got)
    finally:
        e["same"] = e["same"] and was == (shown(df), kinds(df), arg.name if arg is not df else None)


def do(c):
    e = {**BLANK, "fn": c["fn"]}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            call(e, c)
    except Hang:
        raise
    except BaseException as ex:
        e["exc"] = type(ex).__name__
    return e


def play(case):
    return {"ev": [do(c) for c in case["ops"]]}
