"""S04: recursive merge prefers the second mapping, leaf by leaf."""
from props import trees as T


def run(ctx):
    rng = ctx.rng()
    T.models(ctx, [("shallow", "two"), ("lastwins", "two")], two=True)
    found = T.models(ctx, [("depthfirst", "one")])
    both = [(rng.choice(found), rng.choice(found)) for _ in range(ctx.scale(2500, 30000))]
    both += [(T.rtree(rng), T.rtree(rng)) for _ in range(ctx.scale(2000, 40000))]
    for _ in range(ctx.scale(300, 3000)):
        t = T.rtree(rng)
        both += [(t, t), (t, T.rtree(rng, 0)), ({**t, "es": []}, t), (t, {**t, "es": t["es"][1:]})]
    calls = [T.merge(rng, T.number(t), T.number(u, "m")) for t, u in both]
    T.check(ctx, calls)
    ctx.assumptions.append("order of keys in the result is not specified")
