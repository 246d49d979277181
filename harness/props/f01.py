"""F01: function combinators behave as their definitions."""
import copy
import itertools

from funchost import COMMON as TH, EXC, MANY, TYPES, play
from lib import SPEC, record
from selftest import must_reject


def atom(v):
    return {"s": False, "v": str(v), "es": []}


def val(rng, depth=2):
    if depth and rng.random() < 0.45:
        return {"s": True, "v": "", "es": [val(rng, depth - 1) for _ in range(rng.randrange(4))]}
    return atom(rng.randrange(9))


def wrap(rng):
    w = rng.choice(["argstop", "argstop", "splat", "splat", "optional", "optional", "trigger", "pass", "catch", "constant", "zero"])
    return {"w": w, "n": rng.choice([0, 1, 2, 3] * 6 + [5, 10]) if w == "argstop" else 0, "b": rng.random() < 0.5,
            "v": {"catch": "dflt", "constant": "cst"}.get(w, "")}


def rcall(rng):
    return {"fn": "call", "stack": [wrap(rng) for _ in range(rng.choice([1, 2, 3, 4] * 5 + [6, 7]))],
            "base": rng.choice(["", "", ""] + list(EXC)), "args": [val(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 4] * 5 + [9, 12]))],
            "kw": rng.choice([[], [], [["k", "7"]], [["a", "1"], ["k", "2"]]])}


def some(rng, n=5, distinct=False):
    if rng.random() < 0.015:
        of = TH + MANY
        return rng.sample(of, rng.randrange(20, 60)) if distinct else rng.choices(of, k=rng.randrange(20, 120))
    return rng.sample(TH, rng.randrange(n + 1)) if distinct else [rng.choice(TH) for _ in range(rng.randrange(n + 1))]


HOWS = ["list", "tuple", "gen", "iter", "deque"]


def other(rng):
    fn = rng.choice(["naturals", "are_in", "is_it", "gmap", "gmap", "filtern", "intersection", "disjoint", "disjoint"])
    e = {"fn": fn, "n": rng.randrange(40) if rng.random() < 0.95 else 300 + rng.randrange(100)}
    if fn == "are_in":
        how = rng.choice(["", "or", "xor"])
        e.update(els=some(rng, 3, True) or [TH[0]], yes=some(rng, 7, True), how=how,
                 kind=rng.choice(["list", "tuple", "dict"] if how != "xor" else ["list", "tuple"]), cont=rng.choice(["list", "set", "dict", "tuple", "deque"]))
    elif fn == "is_it":
        e.update(els=[rng.choice(TH)], yes=rng.sample(list(TYPES), rng.randrange(4)))
    elif fn == "gmap":
        ms = [some(rng) for _ in range(rng.choice([1, 2, 3]))]
        e.update(ms=ms, hows=[rng.choice(HOWS) for _ in ms], how=rng.choice(["", "", "list", "starmap"]))
    elif fn == "filtern":
        e.update(els=some(rng, 6), yes=some(rng, 3, True), how=rng.choice(HOWS))
    else:
        ms = [some(rng, 6) for _ in range(rng.choice([1, 2, 2, 3]))]
        if rng.random() < 0.7:
            for m in ms:
                m += rng.sample(TH[:4], 2)
        e.update(ms=ms, hows=[rng.choice(HOWS) for _ in ms])
    return e


def small():
    seqs = [list(s) for n in range(4) for s in itertools.product(["0", "s'a'"], repeat=n)]
    for a in seqs:
        for yes in ([], ["0"], ["s'a'"], ["0", "s'a'"]):
            yield {"fn": "filtern", "els": a, "yes": yes, "how": "list"}
            if a:
                for how in ("", "or", "xor"):
                    yield {"fn": "are_in", "els": a, "yes": yes, "how": how, "kind": "list", "cont": "list"}
        for b in seqs:
            yield {"fn": "disjoint", "ms": [a, b], "hows": ["list", "gen"]}
            yield {"fn": "intersection", "ms": [a, b], "hows": ["gen", "list"]}
            yield {"fn": "gmap", "ms": [a, b], "hows": ["gen", "list"], "how": ""}


def run(ctx):
    rng = ctx.rng()
    text = (SPEC / "MCFunc.cfg").read_text()
    res = ctx.model("MCFunc")
    calls = [{"fn": "call", **c} for c in res.json_printed("CALL")]
    if ctx.thorough:
        # laws only: too many to replay
        ctx.model("MCFunc", cfg_text=text.replace("Depth = 2", "Depth = 3"), timeout=2000)
    ctx.note("calls_enumerated", len(calls))
    for b in ("twice", "swallow", "nostop", "eager"):
        ctx.model_fails("MCFunc", b, cfg_text=text.replace('"none"', f'"{b}"'))
    calls += list(small()) + [rcall(rng) for _ in range(ctx.scale(2000, 50000))]
    calls += [other(rng) for _ in range(ctx.scale(3000, 60000))]
    cases = [{"ops": calls[i:i + 60]} for i in range(0, len(calls), 60)]
    hist = record(ctx, play, cases, "TraceFunc", "combinators", limit=60, batch=3000, heap="6g")
    if not ctx.violations:
        r = ctx.rng("corrupt")
        bad = []
        for h in hist[:30]:
            e = copy.deepcopy(r.choice(h["ev"]))
            if e["fn"] == "call":
                k = r.choice(["calls", "told", "exc"])
                if k == "exc":
                    e[k] = "Odd"
                else:
                    e[k] = e[k] + ["x"]
                bad.append({"ev": [e]})
        must_reject(ctx, "TraceFunc", bad)
    ctx.assumptions.append("argument counts are not negative; containers tested for membership are not one-shot iterators")
