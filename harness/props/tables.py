"""tables for V01 and V02."""
import copy
from decimal import Decimal
from fractions import Fraction

import pandas as pd

from lib import SPEC, record
from selftest import must_reject
from tablehost import play

BIG = 2**53 + 1
POOLS = {
    "int64": [0, 1, -1, 2, BIG, -2**63, 2**63 - 1], "int8": [0, 1, -128, 127], "uint8": [0, 1, 255],
    "uint64": [0, 1, 2**64 - 1], "float64": [0.0, -0.0, 1.0, 0.1, 1e300, float("inf"), None, None], "float32": [0.5, 1.0, None],
    "bool": [True, False], "str": ["", "a", "b", "A", None], "Int64": [0, 1, BIG, None], "boolean": [True, False, None],
    "datetime64[ns]": [pd.Timestamp(2000, 1, 1), pd.Timestamp(2001, 1, 1), None], "category": ["a", "b", None],
    "timedelta64[ns]": [pd.Timedelta(1, "s"), None],
    "datetime64[ns, UTC]": [pd.Timestamp(2000, 1, 1, tz="UTC"), pd.Timestamp(2001, 1, 1, tz="UTC"), None],
    "complex128": [1j, 2j, 0j, None], "Float64": [0.5, 1.0, None], "string": ["", "a", "b", None], "period[D]": [pd.Period("2000-01-01"), pd.Period("2001-01-01"), None],
    "decimal": [Decimal(1), Decimal("1.5"), Fraction(1, 3), None],
    "NA": [pd.NaT, 1, "a", None],
    "object": [0, 1, 1.0, True, BIG, "a", "", None, None, b"x", float("nan"), 0.5],
    "lists": [[1, 2], [1], [], [2, 1], (1, 2), None, ["a", None], "a"],
}
LABELS = ["a", "b", "c", "ab", "", "x_y", 0, 1, "0", 2.5, None, ("p", 1)]
PLAIN = LABELS[:-1]  # without tuples
OBJECT = ["n1", "n2", "~"]


def column(rng, h, kinds=None, k=None):
    """few different values, so that columns are often constant"""
    kind = rng.choice(kinds or list(POOLS))
    pool = POOLS[kind]
    pool = rng.sample(pool, min(len(pool), k or rng.choice([1, 1, 2, 2, 3, 9])))
    if rng.random() < 0.3 and None in POOLS[kind]:
        pool.append(None)
    return ["object" if kind in ("lists", "decimal", "NA") else kind, [rng.choice(pool) for _ in range(h)]]


def labels(rng, n, twice=True, of=None):
    of = of or LABELS
    if rng.random() < 0.3:
        return list(range(n))
    if rng.random() < 0.1:  # two levels
        pool = [("p", "q"), ("p", "r"), ("q", "q"), ("", "q"), ("q", "r"), ("r", "p"), ("r", "")]
        return [rng.choice(pool) for _ in range(n)] if twice or n > len(pool) else rng.sample(pool, n)
    return again(rng, n, of) if twice and rng.random() < 0.6 else rng.sample(of, n)


def again(rng, n, of):
    """labels with repetitions, but not of null, which is not equal to itself"""
    of = [x for x in of if x is not None]
    return [rng.choice(of) for _ in range(n)]


def frame(rng, *args, **kw):
    t = frame_(rng, *args, **kw)
    n = len(t["idx"])
    if n > 12 and rng.random() < 0.5:  # nothing in most rows of a column
        dt, vals = rng.choice(t["cols"])
        if None in POOLS.get(dt, []):
            k = rng.randrange(n // 2, n)
            vals[:k] = [None] * k
            if rng.random() < 0.7:
                vals[k:] = [next((x for x in vals[k:] if x is not None), None)] * (n - k)
    if rng.random() < 0.15:
        t["iname"] = "rows"
    return t


def frame_(rng, h=None, w=None, kinds=None, twice=True, twice_cols=None, of=None, k=None, wide=False):
    if h is None and rng.random() < 0.015:  # many rows
        h, w = rng.randrange(20, 90), w if w is not None else rng.choice([1, 2, 3])
        names = rng.sample(of or LABELS, w)
        idx = rng.choice([list(range(h)), rng.sample(range(h), h), [f"r{i}" for i in range(h)]])
        if twice and rng.random() < 0.3:
            idx = again(rng, h, of or LABELS)
        return {"names": names, "idx": idx, "cols": [column(rng, h, kinds, k) for _ in range(w)]}
    if wide and rng.random() < 0.02:
        h, w = rng.choice([1, 2, 3]), rng.randrange(12, 40)
        of = [f"c{i}" for i in range(60)] + [i for i in range(10)]
    h = rng.choice([1, 2, 2, 3, 4, 6]) if h is None else h
    w = rng.choice([1, 2, 3, 4, 5]) if w is None else w
    names = again(rng, w, of or LABELS) if (twice if twice_cols is None else twice_cols) and rng.random() < 0.5 else rng.sample(of or LABELS, w)
    return {"names": names, "idx": labels(rng, h, twice), "cols": [column(rng, h, kinds, k) for _ in range(w)]}


FLAVOURS = [["int64", [1, 2]], ["float64", [0.5, 1.0]], ["str", ["a", "b"]], ["object", [True, "x"]], ["object", [[1], [1, 2]]],
            ["datetime64[ns]", [pd.Timestamp(2000, 1, 1), pd.Timestamp(2001, 1, 1)]], ["Int64", [BIG, 0]], ["object", [[1, 2], (1, 2)]],
            ["object", [BIG, float(BIG)]]]


def concrete(rng, t, each=True):
    """a table of the model with actual values"""
    cols, one = [], rng.choice(FLAVOURS)
    for c in t["cols"]:
        dt, vals = rng.choice(FLAVOURS) if each else one
        if dt == "int64" and "~" in c:
            dt = rng.choice(["object", "float64", "Int64"])
        cols.append([dt, [{"n1": vals[0], "n2": vals[1], "~": None}[x] for x in c]])
    return {"names": [n[1:] for n in t["names"]], "idx": [int(i[1:]) for i in t["idx"]], "cols": cols}


def models(ctx, bugs):
    found = []
    for cfg in ("MCTables", "MCTables2"):
        res = ctx.model("MCTables", cfg=cfg)
        found += res.json_printed("TABLE")
    text = (SPEC / "MCTables2.cfg").read_text()
    for b in bugs:
        ctx.model_fails("MCTables", b, cfg_text=text.replace('"none"', f'"{b}"'))
    ctx.note("model_tables", len(found))
    return found


def spoil(r, e):
    """a small change of what came back that the specification must notice"""
    e = copy.deepcopy(e)
    if e["exc"]:
        return None
    if e["fn"] == "extract" and not e["dropna"]:
        return None
    for f in ("out", "out2"):
        cells = [(j, i) for j, c in enumerate(e[f]["cols"]) for i in range(len(c))]
        if cells:
            j, i = r.choice(cells)
            e[f]["cols"][j][i] = "nobody"
            return e
    for f in ("pairs", "rows"):
        if e[f]:
            e[f] = e[f][1:]
            return e


def check(ctx, ops):
    cases = [{"ops": ops[i:i + 25]} for i in range(0, len(ops), 25)]
    hist = record(ctx, play, cases, "TraceTables", "tables", limit=60, batch=1500, heap="6g")
    if not ctx.violations:
        r = ctx.rng("corrupt")
        bad = [spoil(r, r.choice(h["ev"])) for h in hist[-80:]]
        must_reject(ctx, "TraceTables", [{"ev": [e]} for e in bad if e][:30])
