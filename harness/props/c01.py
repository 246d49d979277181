"""C01: at most one process holds a shared lock."""
import copy
import random

from lib import at_once, record, pick_names
from lockhost import KINDS, play
from selftest import must_reject

# what breaks exclusion, and how many processes and acquisitions that takes
WEAK = {"noheld": (3, 1), "stealheld": (3, 1), "sharedslot": (2, 1), "heldgap": (3, 1),
        "heldlate": (3, 1), "heldlow": (2, 1), "heldover": (3, 1)}
SHAPES = [(1, 1), (1, 1), (1, 1, 1), (1, 2), (2,), (3,), (1, 1, 2), (1, 1, 1, 1)]
NAMES = ["L", "L_1", "L_", "Lx", "M", "1", "é", "L_count", "L_held", "L_1_lock"]

# how often the lock has been used before
WARM = [0, 0, 0, 1, 3, 11, 100, 254, 300]


def cfg(n, rounds, quits, bug="none", live=False, sym=True, extra="", sched=False):
    spec = "SchedSpec" if sched else ("FairSpec" if live else "Spec")
    lines = [f"SPECIFICATION {spec}", "CONSTANTS"]
    lines += [f" p{i} = p{i}" for i in range(1, 4)]
    lines += [" Procs = {" + ", ".join(f"p{i}" for i in range(1, n + 1)) + "}",
              f" Rounds = {rounds}", f" GiveUps = {quits}", f' Bug = "{bug}"',
              "CHECK_DEADLOCK FALSE"]
    if sched:
        lines += ["INVARIANT Report"] + ["VIEW OneWay"] * (sched == "all")
    elif live:
        lines += ["PROPERTIES Progress AllServed"]
    else:
        lines += (["SYMMETRY Sym"] if sym else []) + [
            "INVARIANTS Mutex Clean OwnSlot", "PROPERTY ImplementsLock"]
    return "\n".join(lines) + "\n" + extra


def model_schedules(ctx, n, rounds, quits, bug, num, seed, broken=False):
    """
    interleavings of the fine-grained model: complete behaviours of the lock,
    or ones that break a weakened lock. each is a list of workers to move.
    """
    from lib import tlc

    # the ways a weakened lock breaks are few; of a sound one's behaviours, some
    some = ["-simulate", f"num={num}", "-depth", "250", "-seed", str(seed)]
    res = tlc("SimLock", cfg_text=cfg(n, rounds, quits, bug, sched="all" if broken else "some"),
              workers=1, extra=[] if broken else some, timeout=300)
    out, seen = [], set()
    for v in res.printed("SCHED"):
        seq = [int(x[1:]) - 1 for x in v[1]]
        quits_at = v[2]
        if str(seq) not in seen and v[3] is not broken:
            seen.add(str(seq))
            out.append((seq, quits_at))
    return out


def lock_op(rng, name, faults=0.15, **kw):
    op = {"l": name, "cs": rng.choice([0, 1, 1, 2]), "new": rng.random() < 0.3, **kw}
    if rng.random() < faults:
        op["spins"] = rng.choice([0, 0, 1, 2, 5])
    if rng.random() < faults / 2:
        op["raises"] = rng.randrange(len(KINDS)) + 1
    return op


def some_throws(rng, p):
    return {str(k): rng.choice(["KeyboardInterrupt", "TimeoutError"])
            for k in range(1, 30) if rng.random() < p}


def one_lock(ix, rng, policy=None, shape=None, rounds=None):
    shape = shape or rng.choice(SHAPES)
    n = sum(shape)
    name = rng.choice(NAMES)
    fresh = rng.random() < 0.6
    jobs = [{"fresh": fresh, "do": [lock_op(rng, name) for _ in range(
        rounds or rng.choice([1, 1, 2, 3]))]} for _ in range(n)]
    if policy is None:
        policy = any_policy(rng, 60 * n, some_throws(rng, rng.choice([0, 0.1, 0.3])))
    return {"ix": ix, "shape": shape, "jobs": jobs, "locks": [name], "policy": policy,
            "warm": rng.choice(WARM)}


def any_policy(rng, length, throws=None):
    kind = rng.choice(["random", "random", "pct", "pct", "preempt"])
    p = {"kind": kind, "seed": rng.randrange(10**9), "throws": throws or {}}
    if kind == "random":
        p["q"] = rng.choice([0.05, 0.15, 0.3, 0.6, 1.0])
    elif kind == "pct":
        p.update(length=length, d=rng.choice([1, 2, 3, 5]))
    else:
        p["preempt"] = {str(rng.randrange(length)): rng.randrange(4)
                        for _ in range(rng.choice([1, 2, 3]))}
    return p


def many_locks(ix, rng):
    """some workers sit inside their locks until the others, on other locks,
    are done"""
    names = pick_names(rng, NAMES, 3)
    shape = rng.choice([(1, 1, 1), (1, 2), (3,)])
    jobs = [{"fresh": rng.random() < 0.5,
             "do": [lock_op(rng, names[w]) for _ in range(rng.choice([1, 2]))]}
            for w in range(3)]
    for w in rng.sample(range(3), 2):
        jobs[w]["do"] = [lock_op(rng, names[w], faults=0, hold=True)]
    pol = any_policy(rng, 60)
    pol["hold"] = True
    return {"ix": ix, "shape": shape, "jobs": jobs, "locks": names, "policy": pol, "warm": 0}


def enumerated(rng, ix0, shape, preemptions, length, limit, warm=0):
    """every single preemption (and a sample of the double ones)"""
    n = sum(shape)
    cases = []
    points = [(s, w) for s in range(length) for w in range(n)]
    combos = [[p] for p in points]
    if preemptions > 1:
        combos += [sorted(rng.sample(points, 2)) for _ in range(limit)]
    if preemptions > 2:
        combos += [sorted(rng.sample(points, 3)) for _ in range(limit)]
    if len(combos) > limit:
        combos = rng.sample(combos, limit)
    for combo in combos:
        case = {"ix": ix0 + len(cases), "shape": shape, "locks": ["L"], "warm": warm,
                "jobs": [{"fresh": True, "do": [{"l": "L", "cs": 1}]} for _ in range(n)],
                "policy": {"kind": "preempt", "preempt": {str(s): w for s, w in combo}}}
        cases.append(case)
    return cases


def long_holds(rng, ix0, spins, limits=((None,), (None, None), (None, 5000))):
    """the lock is held while others wait and wait"""
    return [{"ix": ix0 + i, "long": True, "locks": ["L"], "spins": spins, "limits": list(lim),
             "patience": 30} for i, lim in enumerate(limits)]


def from_schedule(ix, rng, n, rounds, seq, exact=None, linger=0):
    """
    exact: one step of the model is one of the code (but every worker has a
    first one before all others); linger: whoever gets inside stays for a while
    """
    exact = rng.random() < 0.5 if exact is None else exact
    op = {"l": "L", "cs": 0, "hold": True} if linger else {"l": "L", "cs": 1}
    pol = {"kind": "list", "seq": list(range(n)) + seq if exact else stretch(seq, rng),
           "glue": exact, "linger": linger}
    return {"ix": ix, "shape": (1,) * n, "locks": ["L"], "warm": 0, "budget": 6000 + 3 * linger,
            "jobs": [{"fresh": False, "do": [op] * rounds} for _ in range(n)], "policy": pol}


def stretch(seq, rng):
    """a model step is one to three gated operations of the code"""
    mode = rng.choice([1, 2, 0])
    out = []
    for w in seq:
        out += [w] * (mode or rng.choice([1, 2, 2, 3]))
    return out


def run(ctx):
    rng = ctx.rng()
    ctx.model("MCLock", cfg_text=cfg(2, 2, 1))
    ctx.model("MCLock", cfg_text=cfg(3, 1, 1))
    if ctx.thorough:
        ctx.model("MCLock", cfg_text=cfg(3, 2, 2), timeout=900)
    at_once(lambda bug, n, rounds: ctx.model_fails("MCLock", bug, cfg_text=cfg(n, rounds, 1, bug)),
            [(bug, *size) for bug, size in WEAK.items()])
    cases = []
    for n, rounds, num in ((2, 2, 40), (3, 1, 40), (3, 2, 20)):
        for seq, _ in model_schedules(ctx, n, rounds, 0, "none", num * ctx.scale(1, 8), ctx.seed):
            cases.append(from_schedule(len(cases), rng, n, rounds, seq))
    ways = [(ctx, n, rounds, 1, bug, 0, 0, True)
            for bug, size in WEAK.items() if bug != "sharedslot" for n, rounds in sorted({size, (2, 2)})]
    for (_, n, rounds, _, bug, *_), found in zip(ways, at_once(model_schedules, ways)):
        ctx.note(f"schedules_of_{bug}_{n}x{rounds}", len(found))
        rng.shuffle(found)
        for i, (seq, _) in enumerate(found[:30 * ctx.scale(1, 20)]):
            cases.append(from_schedule(
                len(cases), rng, n, rounds, seq, i % 4 > 0,
                ctx.scale(5000, 50_000) if i < ctx.scale(1, 4) else rng.choice([0, 40, 200])))
    ctx.note("schedules_from_model", len(cases))
    k = ctx.scale(1, 12)
    enum = enumerated(rng, len(cases), (1, 1), 2, 70, 260 * k)
    enum += enumerated(rng, len(cases) + len(enum), (1, 1, 1), 2, 100, 260 * k, warm=1)
    ctx.note("schedules_enumerated", len(enum))
    cases += enum
    base = len(cases)
    cases += [one_lock(base + i, rng) for i in range(420 * k)]
    cases += [many_locks(len(cases) + i, rng) for i in range(60 * k)]
    rng.shuffle(cases)
    # first, since they take long
    cases = long_holds(rng, len(cases), ctx.scale(150_000, 3_000_000)) + cases
    hist = record(ctx, play, cases, "TraceLock", "schedule", limit=60)
    ctx.note("scheduled_steps", sum(h["steps"] for h in hist))
    if not ctx.violations:
        bad = []
        for h in hist[3:13]:
            # a worker stays inside, another enters
            h = copy.deepcopy(h)
            lv = [i for i, e in enumerate(h["ev"]) if e["op"] == "leave"]
            en = [i for i, e in enumerate(h["ev"]) if e["op"] == "enter"]
            pairs = [(a, b) for a in lv for b in en if b > a and h["ev"][a]["l"] == h["ev"][b]["l"]]
            if pairs:
                a, b = rng.choice(pairs)
                e = h["ev"].pop(b)
                h["ev"].insert(a, e)
                bad.append(h)
        for h in hist:
            # one does not get into its lock while another lock is held
            if len(set(e["l"] for e in h["ev"] if e["op"] == "enter")) < 2 or len(bad) > 20:
                continue
            inside, wants = set(), {}
            for i, e in enumerate(h["ev"]):
                if e["op"] == "try":
                    wants[e["w"]] = e["l"]
                elif e["op"] == "enter":
                    rivals = [v for v, k in wants.items() if v != e["w"] and k == e["l"]]
                    if not rivals and any(k != e["l"] for _, k in inside):
                        cut = copy.deepcopy(h)
                        cut["ev"] = cut["ev"][:i] + [{"op": "hang", "w": 0, "l": e["l"], "exc": "", "n": 0}]
                        bad.append(cut)
                        break
                    inside.add((e["w"], e["l"]))
                elif e["op"] in ("leave", "out"):
                    inside.discard((e["w"], e["l"]))
                    if e["op"] == "out":
                        wants.pop(e["w"], None)
        must_reject(ctx, "TraceLock", bad)
    ctx.assumptions += [
        "single shared memory operations are atomic; locks are used as context managers, "
        "not reentrantly",
    ]
