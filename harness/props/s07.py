"""S07: pooled execution returns every record's own result."""
import copy
import json

from lib import SPEC, edges_of, record, tours
from poolhost import EXC, GIVES, NULL, play
from selftest import must_reject

KEYS = [None, 0, 1, 2, 7, "a", "b", "chunk_0", "chunk_1", "", (1, "x"), ("k",), 2.5, b"k", frozenset({1}), NULL]
VALUES = [0, 1, None, "x", [1, {"a": 2}], {"k": (1, 2)}, 2.5, "é\n", b"\0"]

HOW = ["list", "list", "tuple", "iter", "gen"]


def a_record(rng, key, fails):
    return {"key": key, "fail": rng.choice(list(EXC)) if rng.random() < fails else "",
            "gives": rng.choice([""] * 8 + list(GIVES)), "args": [rng.choice(VALUES) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
            "kw": {k: rng.choice(VALUES) for k in rng.sample(["a", "b", "func", "args", "key"], rng.choice([0, 0, 1, 2]))}}


def records(rng, n):
    fails = rng.choice([0, 0.2, 0.5, 1])
    if rng.random() < 0.4 or n > len(KEYS) - 4:
        keys = [None] * n
    else:
        # a record without a key goes by its position: don't name another one like it
        named = rng.sample([k for k in KEYS if k is not None and type(k) is not int], n)
        keys = [None if rng.random() < 0.2 else k for k in named]
        if None not in keys and n:
            keys[0] = rng.choice([0, 7, keys[0]])
    return [a_record(rng, k, fails) for k in keys]


def from_walk(ix, walk, rng):
    ops = []
    for _, e, _ in walk:
        if e["op"] == "map":
            rs = [{**a_record(rng, None, 0), "fail": r["fail"] and rng.choice(list(EXC))} for r in e["recs"]]
            names = rng.sample(["a", "b", "chunk_0", (1, 2), 5], len(rs))
            for r, k in zip(rs, names):
                r["key"] = k if rng.random() < 0.5 else None
            ops.append({"op": "map", "recs": rs, "x": e["x"]})
        elif e["op"] == "get":
            ops.append({"op": "get", "raises": rng.random() < 0.3})
        else:
            ops.append({"op": e["op"], "n": e["n"]})
        if e["op"] in ("map", "fin", "get", "stop"):
            ops.append({"op": "poll"})
    return {"ix": ix, "ops": ops}


def order(rng, n):
    o = list(range(1, n + 1))
    return rng.choice([o, o[::-1], rng.sample(o, n), rng.sample(o, n)])


def random_case(ix, rng):
    n = rng.choice([0, 1, 1, 2, 3, 4])
    ops = [{"op": "new", "n": n}]
    for _ in range(rng.choice([1, 2, 3])):
        rs = records(rng, rng.choice([0, 1, 2, 3, 5, 8, 13] * 4 + [24, 40]))
        ops.append({"op": "map", "recs": rs, "x": rng.random() < 0.5, "how": rng.choice(HOW)})
        ops.append({"op": "poll"})
        ops.append({"op": "get", "raises": rng.random() < 0.3, "order": order(rng, len(rs))})
        ops += [{"op": "poll"}, {"op": "get", "raises": rng.random() < 0.3}]
        while rng.random() < 0.3:
            ops.append({"op": "apply", "recs": [a_record(rng, None, 0.4)], "key": 0})
            ops.append({"op": rng.choice(["poll", "get"]), "raises": False})
    if rng.random() < 0.2:
        ops += [{"op": "twins", "n": rng.choice([2, 3, 5]), "x": rng.random() < 0.5}, {"op": "poll"}]
    if rng.random() < 0.3:
        ops += [{"op": "stop"}, {"op": "poll"}, {"op": "get", "raises": rng.random() < 0.3}]
    rs = records(rng, rng.choice([0, 1, 2, 3, 5, 8, 13] * 4 + [24, 40]))
    ops.append({"op": "into", "n": rng.choice([0, 1, 2, 3, 4, 5]), "recs": rs, "x": rng.random() < 0.6, "how": rng.choice(HOW),
                "filter": rng.random() < 0.5 and not any(r["gives"] == "error" for r in rs), "order": order(rng, len(rs))})
    return {"ix": ix, "ops": ops}


def corrupt(hist, rng):
    bad = []
    for h in hist:
        h = copy.deepcopy(h)
        gets = [e for e in h["ev"] if e["op"] in ("get", "into") and len(e["res"]) > 1]
        if not gets:
            continue
        e = rng.choice(gets)
        kind = rng.choice(["lost", "moved", "renamed", "twice"])
        r = e["res"]
        if kind == "lost":
            r.pop()
        elif kind == "moved":
            if r[0][1] == r[1][1]:
                continue
            r[0][1], r[1][1] = r[1][1], r[0][1]
        elif kind == "renamed":
            r[0][0] = "chunk_0?"
        else:
            r.append(r[0])
        bad.append(h)
        if len(bad) == 20:
            break
    return bad


def run(ctx):
    rng = ctx.rng()
    text = (SPEC / "MCPool.cfg").read_text()
    res = ctx.model("MCPool")
    two = text.replace("Rounds = 1", "Rounds = 2").replace("Most = 3", "Most = 2")
    ctx.model("MCPool", cfg_text=two)
    big = text.replace("Most = 3", "Most = 5").replace("{0, 1, 2}", "{0, 1, 2, 3}")
    ctx.model("MCPool", cfg_text=big + "VIEW View\n")
    for b in ("byorder", "chunkfails", "keepold"):
        ctx.model_fails("MCPool", b, cfg_text=two.replace('"none"', f'"{b}"'))
    edges = edges_of(res)
    walks = list(tours(edges, json.dumps(res.json_printed("INIT")[0], sort_keys=True), maxlen=8, rng=rng))
    ctx.note("model_transitions_replayed", len(edges))
    if ctx.thorough:
        e2 = edges_of(ctx.model("MCPool", cfg_text=two))
        walks += list(tours(e2, json.dumps(res.json_printed("INIT")[0], sort_keys=True), maxlen=14, rng=rng))
    cases = [from_walk(i, w, rng) for i, w in enumerate(walks)]
    cases += [random_case(len(cases) + i, rng) for i in range(ctx.scale(120, 2500))]
    hist = record(ctx, play, cases, "TracePool", "pool", limit=60)
    if not ctx.violations:
        must_reject(ctx, "TracePool", corrupt(hist, ctx.rng("corrupt")))
    ctx.assumptions += [
        "the mapped function and its results can be sent to another process; no function kills its process",
        "keys within a call are distinct",
    ]
