"""S01: digging finds exactly the matching items, in level-first order."""
from props import trees as T


def run(ctx):
    rng = ctx.rng()
    found = T.models(ctx, [("depthfirst", "one"), ("firstnest", "one")])
    calls = [T.dig(rng, T.number(t)) for t in found for _ in range(ctx.scale(1, 4))]
    calls += [T.dig(rng, T.number(T.rtree(rng))) for _ in range(ctx.scale(4000, 80000))]
    T.check(ctx, calls)
    ctx.assumptions.append("keys and values compare equal only to themselves (not 1 and True)")
