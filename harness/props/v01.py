"""V01: constant extraction."""
import itertools

from props import tables as T


def op(t, how, dropna, todict, drop, explicit):
    lines = [v for _, v in t["cols"]] if how == "rows" else list(zip(*(v for _, v in t["cols"])))
    if sum(all(x is None or x != x for x in line) for line in lines) > 6:
        dropna = True  # too many lines that are open otherwise
    return {"fn": "extract", "df": t, "how": how, "dropna": dropna, "todict": todict, "drop": drop, "explicit": explicit}


def run(ctx):
    rng = ctx.rng()
    every = list(itertools.product(["rows", "columns"], [True, False], [True, False], [True, False]))
    ops = []
    for t in T.models(ctx, ["nullfirst", "nullscount"]):
        for o in (every if ctx.thorough else rng.sample(every, 3)):
            ops.append(op(T.concrete(rng, t, o[0] == "rows"), *o, rng.random() < 0.5))
    for _ in range(ctx.scale(2500, 60000)):
        o = rng.choice(every)
        same = rng.random() < (0.2 if o[0] == "rows" else 0.7)
        kinds = [rng.choice(list(T.POOLS))] if same else None
        ops.append(op(T.frame(rng, kinds=kinds, wide=True), *o, rng.random() < 0.5))
    near = {"int64": [T.BIG, T.BIG - 1, T.BIG + 1], "float64": [float(T.BIG), float(T.BIG)], "uint64": [T.BIG, 1]}
    for _ in range(ctx.scale(150, 3000)):  # numbers that only rounding makes equal
        o, t = rng.choice(every), T.frame(rng, w=rng.choice([2, 3]))
        t["cols"] = [[k, [rng.choice(near[k][:rng.choice([1, 2, 3])]) for _ in t["idx"]]]
                     for k in (rng.choice(list(near)) for _ in t["cols"])]
        ops.append(op(t, *o, rng.random() < 0.5))
    T.check(ctx, ops)
    ctx.assumptions.append("tables with at least one row and column; lines of nothing but nulls are open if nulls count")
