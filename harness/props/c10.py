"""C10: raw shared memory blocks."""
import copy
import json
import os

from codexhost import BlockHost
from lib import finished, pick_names, edges_of, tours, validate
from procs import Crew, sweep
from selftest import must_reject

NAMES = ["a", "b", "a_b", "ünï", "1", "x y", "_", "A", "é" * 30, "11", "a.b"]
SIZES = [1, 1, 2, 3, 7, 8, 9, 31, 64, 0]
_crew = None


def crew():
    global _crew
    if _crew is None:
        _crew = Crew(3, BlockHost)
    return _crew


def play(case):
    prefix = f"vb{os.getpid()}x{case['ix']}_"
    c = crew()
    for i in range(3):
        c.call(i, "reset")
    ev, size = [], {}
    try:
        for op in case["ops"]:
            h = op.get("h", "")
            if op["op"] in ("write", "look") and h not in size:
                continue
            if op["op"] == "write":
                # keep random writes inside the view
                op = dict(op)
                op["b"] = op["b"][:size[h]]
                op["n"] = min(op["n"], size[h] - len(op["b"]))
            i = case["handles"][h] if h else op.get("at", 0)
            msg = dict(op)
            if op.get("a"):
                msg["address"] = prefix + op["a"]
            res = c.call(i, "do", msg)
            if isinstance(res, str):
                res = {"out": res, "lst": []}
            sz = len(res["lst"]) if op["op"] == "open" else 0
            e = {"op": op["op"], "h": h, "a": op.get("a", ""), "n": op.get("n", 0),
                 # what the system gave, if that is enough
                 "sz": max(sz, op.get("n", 0)),
                 "x": op.get("x", False), "y": op.get("y", False), "b": op.get("b", []),
                 "out": res["out"], "lst": res["lst"], "exc": res["out"].startswith("EXC:")}
            ev.append(e)
            if e["out"] in ("HANG", "DIED"):
                break
            if op["op"] == "open" and e["out"] == "ok":
                size[h] = sz
    finally:
        sweep(prefix)
    return {"handles": sorted(case["handles"]), "addresses": case["addresses"], "ev": ev}


def how(op, rng):
    if op == "fetch":
        return rng.choice(["", "remember", "block"])
    return rng.choice(["", "plain"])


def from_walk(ix, walk, rng):
    names = pick_names(rng, NAMES, 2)
    amap = dict(zip("ab", names))
    ops = []
    for _, e, _ in walk:
        op = {k: e[k] for k in ("op", "h", "n", "x", "y", "b")}
        op.update(how=how(e["op"], rng), at=rng.randrange(3))
        if e["a"]:
            op["a"] = amap[e["a"]]
        ops.append(op)
    return {"ix": ix, "handles": {"h1": 0, "h2": rng.choice([0, 1])},
            "addresses": names, "ops": ops}


def random_case(ix, rng, length, large=False):
    names = pick_names(rng, NAMES, rng.choice([1, 2, 4]))
    handles = {f"h{i}": rng.randrange(3) for i in range(rng.randint(1, 5))}
    sizes = rng.choice([SIZES, SIZES, [1, 4096, 4097, 10000]])
    if large:
        sizes = [1, 66000, 33000, 65536]
    ops = []
    for _ in range(length):
        name = rng.choices(["open", "write", "look", "fetch", "exists", "delete", "memorize"],
                           [6, 5, 3, 4, 2, 2, 3])[0]
        op = {"op": name, "how": how(name, rng), "at": rng.randrange(3),
              "x": rng.random() < 0.6, "y": False}
        if name in ("open", "write", "look"):
            op["h"] = rng.choice(list(handles))
        if name not in ("write", "look"):
            op["a"] = rng.choice(names)
        if name == "open":
            op["n"] = rng.choice(sizes)
            op["x"] = rng.random() < 0.75
            op["y"] = op["x"] and rng.random() < 0.5
            if not op["x"]:
                op["n"] = max(op["n"], 1)
        if name == "write":
            op["n"] = rng.choice([0, 0, 1, 5])
            op["b"] = [rng.randrange(256) for _ in range(rng.choice(SIZES))]
        if name == "memorize":
            op["y"] = rng.random() < 0.1
            op["b"] = [rng.randrange(256) for _ in range(rng.choice(sizes))]
        ops.append(op)
    ops += [{"op": "fetch", "a": a, "at": rng.randrange(3)} for a in names]
    ops += [{"op": "look", "h": h} for h in handles]
    return {"ix": ix, "handles": handles, "addresses": names, "ops": ops}


def collect(ctx, cases, label):
    histories = finished(ctx, play, cases, label, limit=120)
    ctx.note("events", sum(len(h["ev"]) for h in histories))
    if histories:
        ctx.sample({label: histories[-1]["ev"][:4]})
        validate(ctx, "TraceBlocks", histories, label=label)
    return histories


def run(ctx):
    rng = ctx.rng()
    cases = []
    for cfg in ("MCBlocks", "MCBlocks2"):
        res = ctx.model("MCBlocks", cfg=cfg)
        edges = edges_of(res)
        init = json.dumps(res.json_printed("INIT")[0], sort_keys=True)
        ctx.note("model_transitions_replayed", len(edges))
        for _ in range(ctx.scale(1, 4)):
            for walk in tours(edges, init, maxlen=200, rng=rng):
                cases.append(from_walk(len(cases), walk, rng))
    collect(ctx, cases, "model tour")
    hist = collect(ctx, [random_case(i, rng, rng.choice([15, 50]))
                         for i in range(ctx.scale(150, 4000))]
                   + [random_case(i, rng, 12, True) for i in range(5000, 5000 + ctx.scale(3, 40))],
                   "recorded history")
    if not ctx.violations:
        bad = []
        for h in hist[:8]:
            h = copy.deepcopy(h)
            for e in reversed(h["ev"]):
                if e["op"] == "fetch" and e["out"] == "ok":
                    e["lst"][-1] ^= 1
                    bad.append(h)
                    break
        must_reject(ctx, "TraceBlocks", bad)
    ctx.assumptions += [
        "calls of one history are made one at a time",
        "blocks freshly made by the operating system are zero",
    ]
