"""S03: flattening nested mappings loses and invents nothing."""
from props import trees as T


def run(ctx):
    rng = ctx.rng()
    found = T.models(ctx, [("noprefix", "long")])
    calls = []
    for t in found:
        for _ in range(ctx.scale(1, 3)):
            calls.append(rng.choice([T.unnest, T.records])(rng, T.number(t)))
    for _ in range(ctx.scale(1200, 25000)):
        calls.append(T.unnest(rng, T.number(T.rtree(rng))))
        calls.append(T.records(rng, T.number(T.rtree(rng, kinds=rng.choice([["dict"], ["dict", "dict", "od", "ud", "mp", "nd"]]),
                                                     p=rng.choice([.5, .8, .95])))))
        calls.append(T.nest(rng))
    T.check(ctx, calls)
    ctx.assumptions.append("records: at least as many level names as levels; a mapping without entries has no row")
