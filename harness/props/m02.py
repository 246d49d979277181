"""M02: bounded reads and metadata describe exactly the file's contents."""
from props import files as F


def run(ctx):
    rng = ctx.rng()
    found = F.models(ctx, ["closed", "prune"])
    ops = []
    for c in rng.sample(found, min(len(found), ctx.scale(600, 20000))):
        f = F.concrete(rng, c["gs"])
        ops.append(F.reading(rng, f))
    for _ in range(ctx.scale(700, 25000)):
        ops.append(F.reading(rng, F.afile(rng, rng.choice(list(F.OTHERS)) if rng.random() < 0.2 else None)))
        if rng.random() < 0.6:
            ops.append(F.describe(rng, F.afile(rng, rng.choice(list(F.OTHERS)) if rng.random() < 0.2 else None)))
    F.check(ctx, ops)
    ctx.assumptions.append("num_values may count or not count nulls; fields of numbers, texts, bytes, dates and times")
