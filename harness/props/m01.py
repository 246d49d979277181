"""M01: chunked sorting writes a sorted permutation of the rows."""
from props import files as F


def run(ctx):
    rng = ctx.rng()
    found = F.models(ctx, ["open", "closed", "nulls", "forward", "prune", "unsorted"])
    ops = [F.sorting(rng, F.concrete(rng, c["gs"]), c["n"], c["dir"]) for c in rng.sample(found, min(len(found), ctx.scale(700, 30000)))]
    ops += [F.sorting(rng, F.afile(rng)) for _ in range(ctx.scale(900, 30000))]
    F.check(ctx, ops)
    ctx.assumptions.append("numeric sort columns; nan counts as null")
