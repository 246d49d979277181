"""parquet files for M01 and M02."""
import copy
import datetime
import json
from decimal import Decimal as D, localcontext

from lib import SPEC, record
from mosaichost import play
from selftest import must_reject

BIG = 2**53
POOLS = {
    "int64": [[0, 1, 2], [-1, 0, 5], [BIG, BIG + 1, BIG + 2, BIG + 3], [2**63 - 1, 2**63 - 2, -2**63, 0], [2**60 + 100, 2**60 + 101, 2**60 + 200],
              list(range(-20, 20)), [7]],
    "int8": [[-128, 127, 0], list(range(9))], "uint16": [[0, 65535, 3], list(range(9))], "int32": [[-2**31, 2**31 - 1, 0, 1], list(range(50))],
    "uint64": [[2**64 - 1, 2**64 - 2, 0], [2**63, 2**63 - 1, 2**63 + 1]],
    "float64": [[0.0, 0.5, 1.0], [-0.0, 0.0, 1.0], [1e308, -1e308, 1.7e308, 0.0], [float("inf"), float("-inf"), 1.0, 2.0], [float("inf"), 1.0],
                [5e-324, 0.0, 1e-300], [0.1, 0.2, 0.30000000000000004, 0.3], [float(BIG), BIG + 2.0], [x / 7 for x in range(-30, 30)],
                [float("-inf"), 3.0], [float("inf")]],
    "float32": [[0.5, 0.25, 3.0], [3e38, -3e38, 0.0], [float(i) for i in range(20)]],
    # written with their decimals
    "decimal 9 2": [[D(f"{i}.{j}") for i in (0, 1, 2, 3, -1) for j in (0, 1, 2, 3)], [D(i).scaleb(-1) for i in range(0, 34, 11)], [D("0.01"), D("-9999999.99"), D("9999999.99")]],
    "decimal 38 20": [[D(10**16 + i).scaleb(-16) for i in range(-2, 3)], [D(i).scaleb(-1) for i in range(0, 34, 11)], [D(10**37 + i).scaleb(-20) for i in (0, 1, 2)]],
    "decimal 76 1": [[D(10**60 + i).scaleb(-1) for i in range(4)], [D(i).scaleb(-1) for i in range(0, 34, 11)], [D(-10**30), D(10**30), D(0)]],
}
TIME = datetime.datetime(2000, 2, 28)
# not numbers, but ordered
OTHERS = {
    "text": [["", "a", "b", "ab", "B"], ["\u00e9", "z", "\u65e5\u672c", "~"], ["long" * 30 + c for c in "abc"]],
    "bytes": [[b"", b"a", b"\0", b"\xff", b"b"]],
    "date": [[datetime.date(2000, 1, d) for d in range(1, 9)], [datetime.date(1, 1, 1), datetime.date(9999, 12, 31), datetime.date(1970, 1, 1)]],
    "days": [[datetime.date(2000, 1, d) for d in range(1, 5)]],
    "time": [[TIME + datetime.timedelta(0, 0, i) for i in range(4)], [TIME + datetime.timedelta(300 * i) for i in range(-9, 9)]],
    "ms": [[TIME + datetime.timedelta(0, 0, i * 1000) for i in range(4)]],
    "zoned": [[TIME.replace(tzinfo=datetime.timezone.utc) + datetime.timedelta(0, i) for i in range(4)]],
}


def fill(rng, dt, rows=None):
    pool = rng.choice((POOLS | OTHERS)[dt])
    pool = rng.sample(pool, min(len(pool), rng.choice([1, 2, 3, 60])))
    if dt == "float32":
        import numpy as np
        pool = [float(np.float32(x)) for x in pool]
    p = rng.choice([0, 0, 0.2, 0.5, 1 if rng.random() < 0.2 else 0])
    nulls = [None, float("nan")] if dt.startswith("float") else [None]
    n = rng.choice([1, 2, 3, 5, 9, 30] * 12 + [120, 250]) if rows is None else rows
    return [rng.choice(nulls) if rng.random() < p else rng.choice(pool) for _ in range(n)]


def cut(rng, vals):
    out, i = [], 0
    while i < len(vals):
        k = rng.choice([1, 1, 2, 3, 7, 30])
        out.append(vals[i:i + k])
        i += k
    if rng.random() < 0.1:
        out.insert(rng.randrange(len(out) + 1), [])
    return out


def layout(rng):
    cols = ["id", "key"] + [c for c in ("text", "more", "many", "keys", "ke", "in") if rng.random() < 0.3]
    cols += [c for c in ("a.b", "Key", "x y", "none") if rng.random() < 0.1]
    if rng.random() < 0.1:
        cols += [f"more{j}" for j in range(12)]
    rng.shuffle(cols)
    w = {}
    if rng.random() < 0.4:
        w["use_dictionary"] = rng.choice([True, False, ["key"]])
    if rng.random() < 0.15:
        w["write_statistics"] = False
    if rng.random() < 0.4:
        w["compression"] = rng.choice(["snappy", "gzip", "none"])
    return {"cols": cols, "write": w}


def afile(rng, dt=None):
    dt = dt or rng.choice(["int64", "int64", "float64", "float64", "float64"] + list(POOLS))
    return {"dtype": dt, "groups": cut(rng, fill(rng, dt)), **layout(rng)}


def sorting(rng, f, n=None, way=None):
    kw = {"verbose": rng.random() < 0.2}
    if rng.random() < 0.3:
        kw["row_group_size"] = rng.choice([1, 2, 5, 1000])
    if rng.random() < 0.3:
        kw["use_dictionary"] = rng.choice([True, False])
    if rng.random() < 0.2:
        kw["version"] = rng.choice(["1.0", "2.4", "2.6"]) if f["dtype"] in ("int64", "float64") else "2.6"
    return {"fn": "sort", **f, "n": n if n is not None else rng.choice([None, 2, 2, 3, 4, 7, 40]),
            "dir": way or rng.choice([None, "ascending", "descending", "descending"]), "proc": rng.choice([None, None, "same", "add"]),
            "schema": rng.random() < 0.2, "kw": kw}


def neighbours(kind, v):
    """bounds at and next to a value"""
    if kind in ("text", "bytes"):
        return [v, v, v + v[:1], v[:-1], v[:1], v[:0]]
    if kind.startswith("decimal"):
        least = D(1).scaleb(-int(kind.split()[2]))
        with localcontext(prec=90):
            return [v, v, v + least, v - least, float(v), v + least / 2, int(v), float("inf"), float("-inf"), D(10) ** 80]
    step = datetime.timedelta(1) if kind in ("date", "days") else datetime.timedelta(0, 0, 1000 if kind == "ms" else 1)
    return [v, v] + [v + s for s in (step, -step) if kind == "zoned" or type(v).min + 2 * abs(s) < v < type(v).max - 2 * abs(s)]


def reading(rng, f, bounds=None):
    vals = [v for g in f["groups"] for v in g if v is not None and v == v]
    if bounds is None and (f["dtype"] in OTHERS or f["dtype"].startswith("decimal")):
        bounds = [rng.choice(neighbours(f["dtype"], rng.choice(vals))) if vals and rng.random() < 0.9 else None for _ in range(2)]
        if None not in bounds and rng.random() < 0.85:
            bounds.sort()
    if bounds is None:
        of = [v for v in vals if abs(v) != float("inf")] or [0]

        def bound():
            v = rng.choice(of)
            k = rng.randrange(7)
            if f["dtype"].startswith("float"):
                return [v, v, v + 0.5, v - 0.5, v * 2, 0.0, float("inf") * rng.choice([1, -1])][k]
            return [v, v, v + 1, v - 1, float(v) if abs(v) < BIG else v, v + 0.5 if abs(v) < BIG else v, rng.choice([float("inf"), float("-inf"), 2**70])][k]

        bounds = [bound(), bound()]
        if rng.random() < 0.85:
            bounds.sort()
        if rng.random() < 0.2:
            bounds[rng.randrange(2)] = None
            if rng.random() < 0.2:
                bounds = [None, None]
    some, n = None, len(f["groups"])
    if rng.random() < 0.2:
        some = sorted(rng.sample(range(n), rng.randrange(n + 1)))
    return {"fn": "read", "some": some, **f, "bounds": bounds, "np": rng.choice(["py", "np"]), "kw": rng.choice([{}, {"verbose": False}, {"verbose": True}])}


def describe(rng, f):
    return {"fn": rng.choice(["records", "columns"]), **f, "kw": rng.choice([{}, {"extended": False}, {"extended": True}])}


def models(ctx, bugs, **kw):
    text = (SPEC / "MCMosaic.cfg").read_text()
    if not ctx.thorough:
        text = text.replace("MaxRows = 4", "MaxRows = 3").replace("{0, 1, 2, 99}", "{0, 1, 3, 99}")
    res = ctx.model("MCMosaic", cfg_text=text)
    for b in bugs:
        ctx.model_fails("MCMosaic", b, cfg_text=text.replace('"none"', f'"{b}"'))
    found = res.json_printed("CALL")
    ctx.note("model_files", len(found))
    return found


def concrete(rng, gs):
    """a file of the model with actual values"""
    dt, vals = rng.choice([("int64", [0, 1, 2, 3]), ("int64", [-3, -2, -1, 0]), ("float64", [0.0, 0.5, 1.0, 1.5]), ("int64", [BIG, BIG + 1, BIG + 2, BIG + 3]),
                           ("float64", [float("-inf"), 0.0, 1.0, float("inf")]), ("int8", [-128, -1, 0, 127]), ("decimal 9 2", [D("0.0"), D("1.1"), D("2.2"), D("3.3")]),
                           ("decimal 38 20", [D("-2.2"), D("-1.1"), D(0), D("1.1")])])
    none = [None, float("nan")] if dt == "float64" else [None]
    return {"dtype": dt, "groups": [[rng.choice(none) if v == 99 else vals[v] for v in g] for g in gs], **layout(rng)}


def spoil(r, e):
    e = copy.deepcopy(e)
    if e["exc"]:
        return None
    if e["fn"] in ("sort", "read"):
        if not e["out"]:
            return None
        k = r.randrange(len(e["out"]))
        if r.random() < 0.5:
            del e["out"][k]
        else:
            e["out"][k] = {"id": -1, "key": 0, "null": True}
    elif e["recs"]:
        k = r.choice(e["recs"])
        k[r.choice(["comp", "uncomp"])] += 1
    return e


def check(ctx, ops):
    cases = [{"ops": ops[i:i + 10]} for i in range(0, len(ops), 10)]
    hist = record(ctx, play, cases, "TraceMosaic", "files", limit=60, batch=1500, heap="6g")
    if not ctx.violations:
        r = ctx.rng("corrupt")
        bad = [spoil(r, r.choice(h["ev"])) for h in hist[-60:]]
        must_reject(ctx, "TraceMosaic", [{"ev": [e]} for e in bad if e][:30])
