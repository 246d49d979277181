"""C02: a free lock can be taken; waiting can be abandoned cleanly."""
import copy

from lib import record, pick_names
from lockhost import play
from props.c01 import (
    NAMES, SHAPES, WARM, any_policy, cfg, from_schedule, lock_op, long_holds, many_locks, model_schedules,
    some_throws, stretch,
)
from selftest import must_reject


def faulty(ix, rng):
    """contention with limits, interrupts and raising blocks"""
    shape = rng.choice(SHAPES)
    n = sum(shape)
    names = pick_names(rng, NAMES, rng.choice([1, 1, 1, 2]))
    faults = rng.choice([0, 0.2, 0.6])
    jobs = [{"fresh": rng.random() < 0.6,
             "do": [lock_op(rng, rng.choice(names), faults) for _ in range(rng.choice([1, 2, 2, 4]))]}
            for _ in range(n)]
    return {"ix": ix, "shape": shape, "jobs": jobs, "locks": names, "solo": True,
            "policy": any_policy(rng, 60 * n, some_throws(rng, rng.choice([0, 0.1, 0.3, 0.7]))),
            "warm": rng.choice(WARM)}


def from_model(ix, rng, n, rounds, seq, gave):
    case = from_schedule(ix, rng, n, rounds, seq)
    case["solo"] = True
    case["policy"]["throws"] = {
        str(k): rng.choice(["KeyboardInterrupt", "TimeoutError"]) for k in gave}
    return case


def every_wait(rng, ix0, limit):
    """exactly one waiter gives up, at its k-th wait, the others carry on"""
    cases = []
    for shape in ((1, 1), (1, 1, 1), (1, 2)):
        n = sum(shape)
        for point in range(2, 46, 2):
            for w in range(n):
                for k in (1, 2):
                    cases.append({
                        "ix": 0, "shape": shape, "locks": ["L"], "warm": rng.choice([0, 2]),
                        "solo": True,
                        "jobs": [{"fresh": True, "do": [{"l": "L", "cs": 1}] * rng.choice([1, 2])}
                                 for _ in range(n)],
                        "policy": {"kind": "preempt", "preempt": {str(point): w},
                                   "throws": {str(k): rng.choice(["KeyboardInterrupt", "TimeoutError"])}},
                    })
    if len(cases) > limit:
        cases = rng.sample(cases, limit)
    for i, c in enumerate(cases):
        c["ix"] = ix0 + i
    return cases


def patience(ix, rng):
    """somebody keeps the lock until everybody else, with limits, has given up"""
    shape = rng.choice([(1, 1), (1, 1, 1), (1, 2), (2,)])
    n = sum(shape)
    name = rng.choice(NAMES)
    jobs = [{"fresh": rng.random() < 0.6,
             "do": [dict(lock_op(rng, name, faults=0), spins=rng.choice([0, 0, 1, 2, 3, 9]))
                    for _ in range(rng.choice([1, 2, 3]))]} for _ in range(n)]
    keeper = rng.randrange(n)
    jobs[keeper]["do"] = [lock_op(rng, name, faults=0, hold=True)]
    pol = any_policy(rng, 60)
    if rng.random() < 0.6:
        pol = {"kind": "preempt", "preempt": {"0": keeper}}
    pol["hold"] = True
    return {"ix": ix, "shape": shape, "jobs": jobs, "locks": [name], "policy": pol,
            "warm": rng.choice(WARM), "solo": True}


def run(ctx):
    rng = ctx.rng()
    ctx.model("MCLock", cfg_text=cfg(2, 2, 1, live=True))
    ctx.model("MCLock", cfg_text=cfg(3, 1, 2))
    if ctx.thorough:
        ctx.model("MCLock", cfg_text=cfg(3, 1, 2, live=True), timeout=900)
        ctx.model("MCLock", cfg_text=cfg(3, 2, 2), timeout=900)
    ctx.model_fails("MCLock", "keeplock", cfg_text=cfg(2, 2, 1, "keeplock"))
    ctx.model_fails("MCLock", "keepheld", cfg_text=cfg(2, 1, 1, "keepheld", live=True))
    cases = []
    k = ctx.scale(1, 12)
    for n, rounds, quits, num in ((2, 2, 2, 60), (3, 1, 2, 60), (3, 2, 3, 60)):
        for seq, gave in model_schedules(ctx, n, rounds, quits, "none", num * k, ctx.seed):
            cases.append(from_model(len(cases), rng, n, rounds, seq, gave))
    ctx.note("schedules_from_model", len(cases))
    enum = every_wait(rng, len(cases), 150 * k)
    ctx.note("schedules_enumerated", len(enum))
    cases += enum
    base = len(cases)
    cases += [faulty(base + i, rng) for i in range(500 * k)]
    base = len(cases)
    for i in range(40 * k):
        c = many_locks(base + i, rng)
        c["solo"] = True
        cases.append(c)
    base = len(cases)
    cases += [patience(base + i, rng) for i in range(80 * k)]
    rng.shuffle(cases)
    cases = long_holds(rng, len(cases), ctx.scale(100_000, 2_000_000)) + cases
    hist = record(ctx, play, cases, "TraceLock", "schedule", limit=60, cfg="TraceLockProgress")
    ctx.note("scheduled_steps", sum(h["steps"] for h in hist))
    ctx.note("abandoned_or_raising", sum(h["kinds"] for h in hist))
    if not ctx.violations:
        bad = []
        for h in hist[3:13]:
            h = copy.deepcopy(h)
            what = rng.randrange(3)
            if what == 0:
                h["ev"][-1]["n"] = 1
            elif what == 1:
                outs = [e for e in h["ev"] if e["op"] == "out"]
                rng.choice(outs)["exc"] = "ValueError"
            else:
                h["ev"][-1].update(op="hang", exc="budget")
            bad.append(h)
        must_reject(ctx, "TraceLock", bad, cfg="TraceLockProgress")
    ctx.assumptions += [
        "waiters are interrupted while they wait (not between two instructions of taking a slot)",
        "progress is judged under fair schedules with a step budget",
    ]
