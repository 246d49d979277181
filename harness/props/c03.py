"""C03: a shared index stays consistent under concurrent writers."""
import copy

from conchost import play
from lib import SPEC, record, pick_names
from props.c01 import any_policy
from selftest import must_reject

KEYS = ["a", "b", "c", "d", "ab", "ünï", "e" * 60, "a b", "1"]

# pairs of calls on prepared indexes, each run under every single preemption
PUT = lambda k, v=None, x=True: {"op": "put", "k": k, "v": v, "x": x}  # noqa: E731
DEL = lambda k: {"op": "del", "k": k, "v": None, "x": False}  # noqa: E731
PAIRS = [
    ("", PUT("a"), PUT("a")), ("", PUT("a"), PUT("b")), ("", PUT("a", x=False), PUT("a", x=False)),
    ("a", PUT("a", x=False), DEL("a")), ("a", DEL("a"), DEL("a")), ("a", DEL("a"), PUT("a")),
    ("ab", DEL("a"), DEL("b")), ("ab", DEL("b"), DEL("a")), ("ab", DEL("a"), PUT("c")),
    ("ab", DEL("b"), PUT("c")), ("ab", DEL("a"), PUT("b")), ("abc", DEL("a"), DEL("c")),
    ("abc", DEL("b"), DEL("a")), ("abc", DEL("c"), PUT("d")),
]
META = [
    ("", PUT("a", 1), PUT("a", 2)), ("", PUT("a", 1), PUT("b", 2)), ("", PUT("a", 1), PUT("a")),
    ("a", PUT("a", 1), DEL("a")), ("ab", DEL("a"), PUT("b", 3)), ("abc", DEL("a"), DEL("c")),
    ("abc", DEL("a"), PUT("c", 5)), ("abc", DEL("b"), PUT("d", 1)), ("abc", DEL("c"), PUT("d")),
    ("abc", DEL("a"), PUT("a", 7)),
]


def enumerated(rng, ix0, limit, deep):
    cases = []
    for cls, pairs in (("TagIndex", PAIRS), ("MetaTagIndex", META)):
        for start, one, two in pairs:
            st = [[k, i + 10 if cls == "MetaTagIndex" and k != "b" else None]
                  for i, k in enumerate(start)]
            for flip in (0, 1):
                for point in range(2, 90, 1 if deep else 3):
                    jobs = [[two], [one]] if flip else [[one], [two]]
                    pre = {str(point + rng.randrange(1 if deep else 3)): 1}
                    if rng.random() < 0.5:
                        pre[str(point + rng.randrange(1, 60))] = 0
                    cases.append({
                        "ix": 0, "shape": rng.choice([(1, 1), (1, 1), (2,)]), "cls": cls, "kw": {},
                        "start": st, "jobs": jobs, "keys": list("abcd"),
                        "late": rng.random() < 0.2,
                        "policy": {"kind": "preempt", "preempt": pre}})
    if len(cases) > limit:
        cases = rng.sample(cases, limit)
    for i, c in enumerate(cases):
        c["ix"] = ix0 + i
    return cases


def random_case(ix, rng):
    shape = rng.choice([(1, 1), (1, 1), (1, 1, 1), (1, 2), (2,), (1, 1, 1, 1)])
    cls = rng.choice(["TagIndex", "MetaTagIndex"])
    keys = pick_names(rng, KEYS, rng.choice([1, 2, 3, 5]))
    vals = iter(range(20, 200))

    def v():
        return next(vals) if cls == "MetaTagIndex" and rng.random() < 0.6 else None

    start = [[k, v()] for k in keys if rng.random() < 0.5]
    if rng.random() < 0.2:
        start = start[:0]
    jobs = [[PUT(rng.choice(keys), v(), rng.random() < 0.75) if rng.random() < 0.55
             else DEL(rng.choice(keys)) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
            for _ in range(sum(shape))]
    return {"ix": ix, "shape": shape, "cls": cls, "kw": {}, "start": start, "jobs": jobs,
            "keys": keys, "late": rng.random() < 0.3, "policy": any_policy(rng, 70 * sum(shape))}


def corrupt(hist, rng):
    bad = []
    for h in hist[:10]:
        h = copy.deepcopy(h)
        h.pop("case")
        ks = [e for e in h["ev"] if e["op"] == "keys"]
        if not ks:
            continue
        ks[0]["lst"] = ks[0]["lst"] + ["s'zz'"] if rng.random() < 0.5 or not ks[0]["lst"] else ks[0]["lst"][:-1]
        bad.append(h)
    return bad


def go(ctx, cases):
    hist = record(ctx, play, cases, "TraceConc", "schedule", limit=60, deterministic=False,
                  heap="6g")
    ctx.note("scheduled_steps", sum(h["steps"] for h in hist))
    if not ctx.violations:
        must_reject(ctx, "TraceConc", corrupt(hist, ctx.rng("corrupt")))


def run(ctx):
    rng = ctx.rng()
    ctx.model("ConcIndex")
    text = (SPEC / "ConcIndex.cfg").read_text()
    if ctx.thorough:
        ctx.model("ConcIndex", cfg_text=text.replace("Calls = 2", "Calls = 3"), timeout=900)
        ctx.model("ConcIndex", timeout=900, cfg_text=text.replace('"w2"', '"w2", "w3"').replace(
            "Calls = 2", "Calls = 1").replace('"a", "b"', '"a", "b", "c"'))
    for bug in ("nolock", "early", "lookfirst"):
        ctx.model_fails("ConcIndex", bug, cfg_text=text.replace('"none"', f'"{bug}"'))
    k = ctx.scale(1, 10)
    cases = enumerated(rng, 0, ctx.scale(420, 10000), ctx.thorough)
    ctx.note("schedules_enumerated", len(cases))
    cases += [random_case(len(cases) + i, rng) for i in range(420 * k)]
    rng.shuffle(cases)
    go(ctx, cases)
    ctx.assumptions += [
        "single shared memory operations are atomic; calls that only read are made when "
        "nobody writes (the code does not lock them)",
    ]
