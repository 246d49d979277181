"""downcast arrays and tables; numbers as [neg, limbs, exponent]."""
import warnings

import numpy as np
import pandas as pd

from lib import Hang
from tablehost import kinds, toks

LB = 12
ZERO = {"neg": False, "m": [], "e": 0}
COL = {"num": False, "own": "", "xs": [], "ys": [], "ty": "", "atol": ZERO, "rtol": ZERO, "slack": 20, "reports": False,
       "aerr": ZERO, "rerr": ZERO, "was": [], "is": [], "nil": False, "nullable": False}
BLANK = {"same": True, "refused": False, "exc": "", "names": [], "names2": [], "idx": [], "idx2": [], "cols": [], "msg": "",
         "ask": "", "yes": False}


def num(v):
    """an int or finite float as +-m * 2^e, m odd"""
    n, d = (v, 1) if isinstance(v, int) else v.as_integer_ratio()
    m, e = abs(int(n)), 1 - int(d).bit_length()
    if m:
        z = (m & -m).bit_length() - 1
        m, e = m >> z, e + z
    limbs = []
    while m:
        limbs.append(m % (1 << LB))
        m >>= LB
    return {"neg": bool(n < 0), "m": limbs, "e": e if limbs else 0}


def element(v):
    if not isinstance(v, np.longdouble):
        v = v.item()
    if isinstance(v, (float, np.longdouble)) and not np.isfinite(v):
        return {"t": "nan" if v != v else "inf" if v > 0 else "-inf", "x": ZERO}
    return {"t": "fin", "x": num(v)}


def elements(arr):
    return [element(v) for v in np.asarray(arr)]


def own(dt):
    return f"{ {'u': 'uint', 'i': 'int', 'f': 'float'}[dt.kind]}{dt.itemsize * 8}"


def once(xs, ys):
    """of very long arrays, what became of each value (each kind of change once)"""
    if len(xs) < 300 or len(xs) != len(ys):
        return xs, ys
    seen = {}
    for x, y in zip(xs, ys):
        seen.setdefault(repr((x, y)), (x, y))
    return [x for x, _ in seen.values()], [y for _, y in seen.values()]


def column(arr, got, atol, rtol, nil=False):
    arr = np.asarray(arr)
    nullable = isinstance(got, pd.Series) and isinstance(got.dtype, pd.api.extensions.ExtensionDtype)
    if nullable:
        ty = got.dtype.name
        assert ty[0] in "UI"
        ty, after = ty.lower(), [{"t": "nan", "x": ZERO} if v is pd.NA else element(np.array(int(v), dtype=object)) for v in got]
    else:
        ty, after = str(np.asarray(got).dtype.name), elements(got)
    xs, ys = once(elements(arr), after)
    return {**COL, "num": True, "own": own(arr.dtype), "xs": xs, "ys": ys, "ty": ty, "nil": nil, "nullable": nullable,
            "atol": num(atol), "rtol": num(rtol), "slack": 9 if arr.dtype == np.float16 else 20}


def build(c):
    """values are python numbers or, for integers, exact"""
    a = np.array(c["vals"], dtype=c["dtype"])
    how = c["how"]
    if how == "strided":
        b = np.empty(len(a) * 2, dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if how == "list":
        return a.tolist()
    if how == "tuple":
        return tuple(a.tolist())
    if how == "grid":
        return a.reshape(c["shape"])
    if how == "series":
        return pd.Series(a, index=range(5, 5 + len(a)), name=c["name"])
    return a


def how_is_grid(c):
    return c["how"] == "grid"


def array(e, c):
    from dustgoggles.pivot import downcast

    arr = build(c)
    if c["refused"]:
        e["refused"] = True
        downcast(arr, **c.get("kw", {}))
        return
    shot = np.asarray(arr).tobytes(), np.asarray(arr).dtype
    kw = {k: c[k] for k in ("atol", "rtol", "library", "use_nillable_int") if k in c}
    got = downcast(arr, **kw)
    assert set(got) == {"recast", "aerr", "rerr"}
    if kw.get("library") == "pandas":
        assert isinstance(got["recast"], pd.Series)
        e["names"], e["names2"] = [toks([c["name"]])[0] if c["how"] == "series" else "~"], toks([got["recast"].name])
    else:
        assert isinstance(got["recast"], np.ndarray)
    if how_is_grid(c):
        assert got["recast"].shape == np.shape(arr)
    recast = got["recast"]
    col = column(np.ravel(arr), recast if isinstance(recast, pd.Series) else np.ravel(recast), kw.get("atol", 5e-5), kw.get("rtol", 1e-6),
                 kw.get("use_nillable_int", False))
    for k in ("aerr", "rerr"):
        col[k] = num(got[k] if isinstance(got[k], (int, float)) else np.longdouble(got[k]))
    col["reports"] = True
    e["cols"] = [col]
    e["same"] = shot == (np.asarray(arr).tobytes(), np.asarray(arr).dtype)


def table(e, c):
    from dustgoggles.pivot import downcast_df

    df = pd.concat([pd.Series(np.array(v, dtype=d) if d != "str" else v, dtype=None if d != "str" else "str") for d, v in c["cols"]], axis=1)
    df.columns, df.index = pd.Index(c["names"]), pd.Index(c["idx"])
    if c.get("iname"):
        df.index.names = [c["iname"]] * df.index.nlevels
    kw = {k: c[k] for k in ("atol", "rtol", "reassemble", "copy_all", "use_nillable_int") if k in c}
    was = [toks(df.iloc[:, j].array) for j in range(df.shape[1])], kinds(df), toks(df.columns), toks(df.index)
    got = downcast_df(df, **kw)
    e["names"], e["idx"] = was[2], [repr(list(df.index.names))] + was[3]
    if kw.get("reassemble") is False:
        outs = got
        e["names2"] = [toks([s.name])[0] for s in got]
        idx = {tuple([repr(list(s.index.names))] + toks(s.index)) for s in got}
        e["idx2"] = list(idx.pop()) if len(idx) == 1 else ["differ"]
    else:
        outs = [got.iloc[:, j] for j in range(got.shape[1])]
        e["names2"], e["idx2"] = toks(got.columns), [repr(list(got.index.names))] + toks(got.index)
    e["same"] = was == ([toks(df.iloc[:, j].array) for j in range(df.shape[1])], kinds(df), toks(df.columns), toks(df.index))
    if len(outs) != df.shape[1]:
        e["names2"] = ["number of columns"]
        return
    for j, s in enumerate(outs):
        if c["cols"][j][0] in ("str", "M8[ns]", "object"):
            e["cols"].append({**COL, "was": was[0][j] + [was[1][j]], "is": toks(s.array) + [str(s.dtype)]})
        else:
            e["cols"].append(column(df.iloc[:, j], s, kw.get("atol", 1e-5), kw.get("rtol", 1e-7), kw.get("use_nillable_int", False)))


def bounds(e, c):
    from dustgoggles.pivot import check_in_dtype_bounds

    ends = [np.dtype(t).type(v) if t else v for t, v in c["ends"]]
    e["ask"] = c["dtype"]
    e["cols"] = [{**COL, "xs": [end(v) for v in ends]}]
    got = check_in_dtype_bounds(*ends, np.dtype(c["dtype"]))
    assert isinstance(got, (bool, np.bool_)), type(got)
    e["yes"] = bool(got)


def end(v):
    if isinstance(v, (int, float)):
        return element(np.array(v, dtype=object)) if isinstance(v, int) else element(np.float64(v))
    return element(v)


def do(c):
    import copy

    e = {**copy.deepcopy(BLANK), "fn": c["fn"]}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            {"table": table, "array": array, "bounds": bounds}[c["fn"]](e, c)
    except Hang:
        raise
    except BaseException as ex:
        e["exc"] = type(ex).__name__
        e["msg"] = str(ex)[:100]
    return e


def play(case):
    return {"ev": [do(c) for c in case["ops"]]}
