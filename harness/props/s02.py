"""S02: deep editing changes exactly the matching entries."""
from props import trees as T


def run(ctx):
    rng = ctx.rng()
    found = T.models(ctx, [("stale", "one")])
    calls = [T.edit(rng, T.number(t)) for t in found for _ in range(ctx.scale(1, 4))]
    calls += [T.edit(rng, T.number(T.rtree(rng, kinds=rng.choice([["dict"], ["dict", "dict", "od", "nd", "ud"]]))))
              for _ in range(ctx.scale(3000, 60000))]
    T.check(ctx, calls)
    ctx.assumptions.append("setters that introduce endless nesting are excluded")
