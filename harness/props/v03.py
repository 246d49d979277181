"""V03: downcasting stays within tolerance in the smallest type that fits."""
import copy
import math

import numpy as np

from casthost import ZERO, play
from lib import SPEC, record
from selftest import must_reject

INTS = [f"{s}int{n}" for s in ("", "u") for n in (8, 16, 32, 64)]
EDGES = [s * (2**k + d) for k in (7, 8, 15, 16, 31, 32, 53, 63, 64) for d in (-2, -1, 0, 1, 2) for s in (1, -1)]
TOP = {"float16": [65504.0, 65503.0, 65505.0, 65520.0, 65519.0, 65472.0],
       "float32": [float(np.finfo("f4").max), float(np.finfo("f4").max) * (1 + 2**-26), 3.5e38, 2.0**127, 2.0**128]}
TINY = [2.0**-24, 2.0**-25, 2.0**-14, 2.0**-15 + 2.0**-24, 6e-8, 1e-40, 2.0**-149, 2.0**-150, 5e-324, 1e-300]
TOLS = [0.0, 2.0**-20, 1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.25, 0.5, 1.0, 10.0]


def fits(dt, v):
    if dt in INTS:
        i = np.iinfo(dt)
        return isinstance(v, int) and i.min <= v <= i.max
    with np.errstate(all="ignore"):
        return math.isinf(v) or v != v or np.isfinite(np.dtype(dt).type(v))


def near(rng, x):
    """x or something close to it"""
    k = rng.randrange(6)
    if k == 0:
        return x
    if k == 1:
        return math.nextafter(x, rng.choice([math.inf, -math.inf]))
    if k == 2:
        return x + rng.choice(TOLS) * rng.choice([0.5, 0.99, 1.01, 2]) * rng.choice([1, -1])
    if k == 3:
        return x * (1 + rng.choice(TOLS) * rng.choice([0.5, 0.99, 1.01, 2]) * rng.choice([1, -1]))
    if k == 4:
        return float(np.float16(x)) if abs(x) < 65504 else float(np.float32(x)) if abs(x) < 3e38 else x
    return x + rng.choice([0.5, 0.25, 2.0**-10, 2.0**-11, 2.0**-12, 2.0**-23, 2.0**-24, 2.0**-25])


def real(rng):
    k = rng.randrange(8)
    if k <= 1:
        x = float(rng.choice(EDGES))
    elif k == 2:
        x = rng.choice(TOP[rng.choice(list(TOP))]) * rng.choice([1, -1])
    elif k == 3:
        x = rng.choice(TINY) * rng.choice([1, -1, 3])
    elif k == 4:
        x = float(rng.randrange(-300, 300))
    elif k == 5:
        x = rng.uniform(-3, 3) * 10.0 ** rng.randrange(-8, 12)
    elif k == 6:
        x = float(np.float16(rng.uniform(-100, 100)))
    else:
        x = float(np.float32(rng.uniform(-1e6, 1e6)))
    return near(rng, x) if rng.random() < 0.5 else x


def floats(rng, n):
    style = rng.randrange(5)
    if style == 0:
        xs = [real(rng) for _ in range(n)]
    elif style == 1:  # mostly small whole numbers, one exception
        top = rng.choice([1, 2, 250, 300, 70000])
        xs = [float(rng.randrange(-top if rng.random() < 0.5 else 0, top)) for _ in range(n)]
        if n and rng.random() < 0.7:
            xs[rng.randrange(n)] = real(rng)
    elif style == 2:
        xs = [float(np.float16(rng.uniform(-9, 9))) for _ in range(n)]
        if n and rng.random() < 0.5:
            xs[-1] = near(rng, xs[-1])
    elif style == 3:
        xs = [rng.choice([0.0, -0.0, 1.0]) for _ in range(n)]
    else:
        c = real(rng)
        xs = [near(rng, c) for _ in range(n)]
    if rng.random() < 0.3:
        xs = [rng.choice([math.nan, math.inf, -math.inf]) if rng.random() < 0.4 else x for x in xs]
    return xs


def values(rng, dt, n):
    if dt in INTS:
        top = rng.choice(EDGES + [0, 5])
        pool = [v for v in EDGES + [0, 1, -1, 5] if fits(dt, v) and abs(v) <= abs(top) + 3]
        if rng.random() < 0.5:
            pool = [v for v in pool if v >= 0]
        return [rng.choice(pool) for _ in range(n)]
    return [x for x in (v if fits(dt, v) else 1.0 for v in floats(rng, n))]


def array(rng):
    dt = rng.choice(INTS + ["float64"] * 8 + ["float32"] * 5 + ["float16"] * 2 + ["longdouble"])
    n = rng.choice([1, 1, 2, 3, 4, 5, 6]) if dt in INTS else rng.choice([0, 1, 1, 2, 3, 4, 6])
    if rng.random() < 0.01:
        n = rng.choice([rng.randrange(60, 200), 1025, 4097, 10001, 20011])
        if dt not in INTS and rng.random() < 0.6:  # one exception somewhere
            vals = [float(rng.randrange(rng.choice([2, 250]))) for _ in range(n)]
            x = real(rng)
            vals[rng.choice([rng.randrange(n), n - 1])] = x if fits(dt, x) else 0.5
            return numbers(rng, dt, vals)
        if n > 200:
            few = values(rng, dt, 5)
            return numbers(rng, dt, [rng.choice(few) for _ in range(n)])
    return numbers(rng, dt, values(rng, dt, n))


def numbers(rng, dt, vals, tols=None, nil=None):
    how = rng.choice(["array", "array", "strided", "series", "list", "tuple"])
    if how in ("list", "tuple") and (dt not in ("float64", "int64") or not vals):
        how = "array"
    c = {"fn": "array", "dtype": dt, "vals": vals, "how": how, "name": rng.choice(["v", 3, None]), "refused": False}
    if how == "array" and len(vals) in (4, 6) and rng.random() < 0.5:
        c["how"], c["shape"] = "grid", rng.choice([[2, len(vals) // 2], [len(vals) // 2, 2], [1, len(vals)], [2, 1, len(vals) // 2]])
    if tols is not None:
        c["atol"], c["rtol"] = tols
    elif rng.random() < 0.6:
        # half-precision comparisons are too coarse for small tolerances
        of = [t for t in TOLS if dt != "float16" or t == 0 or t >= 1e-3]
        c["atol"], c["rtol"] = rng.choice(of), rng.choice(of)
        if rng.random() < 0.3:
            del c[rng.choice(["atol", "rtol"])]
    if rng.random() < 0.4 and c["how"] != "grid":
        c["library"] = rng.choice(["numpy", "pandas", "pandas"])
    if nil is not None:
        c.pop("library", None)
        if nil:
            c["library"], c["use_nillable_int"] = "pandas", True
            c["how"] = "series" if c["how"] == "grid" else c["how"]
            c.pop("shape", None)
    elif c.get("library") == "pandas" and rng.random() < 0.6:
        c["use_nillable_int"] = rng.random() < 0.8
        if c["use_nillable_int"] and dt not in INTS and 0 < len(vals) < 50 and rng.random() < 0.6:
            c["vals"] = vals = [math.nan if math.isinf(v) and rng.random() < 0.9 else v for v in vals]
            vals[rng.randrange(len(vals))] = math.nan
    if dt in INTS + ["float64", "float32"] and rng.random() < 0.1 and how in ("array", "strided"):
        c["dtype"] = np.dtype(dt).newbyteorder(">")
    return c


def odd(rng):
    dt, vals = rng.choice([("complex128", [1, 2]), ("object", [1, "a"]), ("object", [1, None]), ("M8[ns]", [1, 2]), ("complex64", [])])
    c = {"fn": "array", "dtype": dt, "vals": vals, "how": rng.choice(["array", "series"]), "name": "x", "refused": True}
    if rng.random() < 0.2:  # nullable integers are not numpy's
        c |= {"dtype": rng.choice(["float64", "int8"]), "vals": [1, 2], "kw": {"use_nillable_int": True, "library": "numpy"}}
    return c


def table(rng):
    h = rng.choice([1, 1, 2, 3, 5])
    w = rng.choice([1, 2, 3, 4])
    if rng.random() < 0.01:
        h = rng.randrange(30, 60)
    elif rng.random() < 0.01:
        w = rng.randrange(12, 25)
    cols = []
    for _ in range(w):
        dt = rng.choice(INTS + ["float64"] * 6 + ["float32"] * 3 + ["float16", "str", "object", "M8[ns]"])
        cols.append([dt, [rng.choice(["a", "", None]) for _ in range(h)] if dt in ("str", "object") else
                     [rng.choice([0, 10**9]) for _ in range(h)] if dt == "M8[ns]" else values(rng, dt, h)])
    c = {"fn": "table", "cols": cols, "names": [rng.choice(["a", "b", "c", 0, 1]) for _ in range(w)] if rng.random() < 0.3 else
         rng.sample(["a", "b", "c", 0, 1], w) if w < 6 else [f"c{i}" for i in range(w)], "idx": rng.choice([list(range(h)), list(range(h, 0, -1)), [rng.choice("pqr") for _ in range(h)],
                                                                              [(rng.choice("pq"), i) for i in range(h)]])}
    if rng.random() < 0.3:
        c["iname"] = "rows"
    if rng.random() < 0.4 and not any(d == "float16" for d, _ in cols):
        c["atol"], c["rtol"] = rng.choice(TOLS), rng.choice(TOLS)
    for k in ("reassemble", "copy_all", "use_nillable_int"):
        if rng.random() < 0.4:
            c[k] = rng.random() < 0.5
    return c


def bounds(rng):
    """two extremes: python's or numpy's numbers, of any size"""
    dt = rng.choice(INTS + ["float16", "float32", "float64"])
    if dt in INTS:
        i = np.iinfo(dt)
        own = [k + d for k in (int(i.min), int(i.max)) for d in (-1, 0, 0, 1)]
    else:
        top = float(np.finfo(dt).max)
        own = [s * x for s in (1, -1) for x in (top, top, math.nextafter(top, 0.0), math.nextafter(top, math.inf))]
        own += [s * (int(top) + d) for s in (1, -1) for d in (-1, 0, 1)] + [10**400, -10**400]

    def one():
        k = rng.randrange(10)
        if k < 5:
            return None, rng.choice(own)
        if k < 7:
            t = rng.choice(INTS)
            return t, rng.choice([v for v in EDGES + [0, 1, -1] if fits(t, v)])
        if k < 9:
            t = rng.choice(["float64", "float64", "float32", "float16"])
            v = rng.choice([real(rng), float(rng.choice(EDGES)), math.inf, -math.inf, math.nan])
            return t, v if fits(t, v) else 1.0
        return None, rng.choice([rng.choice(EDGES), real(rng), 0, 10**30, math.inf])

    ends = [one(), one()]
    if rng.random() < 0.3:
        ends[rng.randrange(2)] = (None, 0)
    if not any(v != v for _, v in ends):
        ends.sort(key=lambda tv: tv[1])
    return {"fn": "bounds", "dtype": dt, "ends": ends}


def spoil(r, e):
    e = copy.deepcopy(e)
    if e["exc"] or e["refused"]:
        return None
    if e["ask"]:
        e["yes"] = not e["yes"]
        return e
    c = r.choice(e["cols"])
    if not c["num"]:
        c["is"] = ["x"]
        return e
    k = r.randrange(4)
    if k == 0:
        c["ys"] = c["ys"] + [{"t": "nan", "x": ZERO}]
    elif k == 1 and any(v["t"] == "fin" for v in c["ys"]):
        v = r.choice([v for v in c["ys"] if v["t"] == "fin"])
        v["x"] = {"neg": True, "m": [77], "e": 9}
    elif k == 2 and c["reports"] and c["xs"]:
        c["aerr"] = {"neg": False, "m": [5], "e": 0}
    else:
        # a type that has no room for all, or is larger than the array's own
        # (of types that come close, more than one may do: tolerances that are
        # just met, within rounding)
        neg = any(v["t"] == "fin" and v["x"]["neg"] and v["x"]["m"] for v in c["xs"])
        ty = "uint8" if neg else "float128"
        if ty in (c["ty"], c["own"]):
            return None
        c["ty"] = ty
    return e


def run(ctx):
    rng = ctx.rng()
    text = (SPEC / "MCDowncast.cfg").read_text()
    if ctx.thorough:
        text = text.replace("Ms = {0, 1, 3, 5, 7}", "Ms = {0, 1, 2, 3, 5, 7, 13}").replace("N = 70", "N = 300")
    res = ctx.model("MCDowncast", cfg_text=text)
    for b in ("wrap", "absolute", "last", "nan", "inf"):
        ctx.model_fails("MCDowncast", b, cfg_text=text.replace('"none"', f'"{b}"'))
    found = res.json_printed("CALL")
    ctx.note("model_inputs", len(found))
    ops = []
    tol = lambda e: 0.0 if e == 0 else 2.0**e
    for f in rng.sample(found, min(len(found), ctx.scale(900, 20000))):
        vals = [float(v["t"]) if v["t"] != "fin" else (-1) ** v["neg"] * v["m"] * 2.0 ** v["e"] for v in f["a"]]
        ops.append(numbers(rng, rng.choice(["float64", "float32", "float16"]), vals, (tol(f["at"]), tol(f["rt"])), f["nil"]))
    ops += [array(rng) for _ in range(ctx.scale(1800, 50000))]
    ops += [table(rng) for _ in range(ctx.scale(400, 9000))]
    ops += [odd(rng) for _ in range(20)]
    ops += [bounds(rng) for _ in range(ctx.scale(600, 15000))]
    cases = [{"ops": ops[i:i + 15]} for i in range(0, len(ops), 15)]
    hist = record(ctx, play, cases, "TraceDowncast", "downcasts", limit=60, batch=1500, heap="6g")
    if not ctx.violations:
        r = ctx.rng("corrupt")
        bad = [spoil(r, r.choice(h["ev"])) for h in hist[-80:]]
        must_reject(ctx, "TraceDowncast", [{"ev": [e]} for e in bad if e][:30])
    ctx.assumptions.append("no booleans, nullable integers (as input) or empty integer arrays; tolerances are compared up to the rounding of the "
                           "array's own precision")
