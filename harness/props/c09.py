"""C09: a sticky shows the latest note at its address."""
import copy
import json
import os

from canon import canon
from codexhost import StickyHost
from lib import finished, pick_names, edges_of, tours, validate
from procs import Crew, sweep
from props.c05 import VALUES
from selftest import must_reject

NAMES = ["a", "b", "a_b", "ünï", "1", "x y", "_", "A", "é" * 30, "index", "a.b"]
_crew = None


def crew():
    global _crew
    if _crew is None:
        _crew = Crew(3, StickyHost)
    return _crew


def play(case):
    prefix = f"vs{os.getpid()}x{case['ix']}_"
    c = crew()
    for i in range(3):
        c.call(i, "reset")
    ev = []
    made, seen, anon = set(), set(), {}
    zero = case["ix"] == 0 and not os.path.exists("/dev/shm/0")
    try:
        for op in case["ops"]:
            h = op.get("h", "")
            if op["op"] in ("stick", "read", "pull") and h not in made:
                continue
            i = case["handles"].get(h, case["peeker"])
            msg = dict(op)
            if op.get("a"):
                msg["address"] = anon.get(op["a"], prefix + op["a"])
                if zero and op["a"] == case["addresses"][0]:
                    msg["address"] = 0
                elif case.get("anon") and op["op"] == "note" and op["a"] not in seen:
                    msg["address"] = None  # it makes up its own
                seen.add(op["a"])
            res = c.call(i, "do", msg)
            out = res if isinstance(res, str) else res["out"]
            val = op.get("value", "")
            ev.append({"op": op["op"], "h": h, "a": op.get("a", ""), "v": canon(val),
                       "x": op.get("x", False), "bad": isinstance(val, str) and val == "UNSERIALIZABLE",
                       "out": out, "exc": out.startswith("EXC:")})
            if out in ("HANG", "DIED"):
                break
            if op["op"] in ("new", "note") and out == "ok":
                made.add(h)
                if msg["address"] is None:
                    anon[op["a"]] = c.call(i, "address_of", h)
    finally:
        sweep(prefix)
        if zero and os.path.exists("/dev/shm/0"):
            os.unlink("/dev/shm/0")
        for a in anon.values():
            sweep(str(a))
    return {"handles": sorted(case["handles"]), "addresses": case["addresses"], "ev": ev}


def from_walk(ix, walk, rng):
    names = pick_names(rng, NAMES, 2)
    amap = dict(zip("ab", names))
    v0 = rng.choice([v for v in VALUES if v is not None])
    vmap = {"v0": v0, "None": None, "bad": "UNSERIALIZABLE"}
    ops = []
    for _, e, _ in walk:
        op = {"op": e["op"], "h": e["h"], "x": e["x"], "how": rng.choice(["", "close"])}
        if e["a"]:
            op["a"] = amap[e["a"]]
        if e["v"]:
            op["value"] = vmap[e["v"]]
        ops.append(op)
    return {"ix": ix, "handles": {"h1": 0, "h2": rng.choice([0, 1])}, "addresses": names,
            "ops": ops, "peeker": 2}


def random_case(ix, rng, length):
    names = pick_names(rng, NAMES, rng.choice([1, 2, 4]))
    handles = {f"h{i}": rng.randrange(3) for i in range(rng.randint(1, 5))}
    ops = []
    for _ in range(length):
        name = rng.choices(["new", "note", "stick", "read", "pull", "peek"], [2, 2, 5, 7, 1, 2])[0]
        op = {"op": name, "h": rng.choice(list(handles)), "x": rng.random() < 0.6,
              "how": rng.choice(["", "close"])}
        if name in ("new", "note", "peek"):
            op["a"] = rng.choice(names)
        if name == "peek":
            op["h"] = ""
        if name in ("note", "stick"):
            op["value"] = "UNSERIALIZABLE" if rng.random() < 0.05 else rng.choice(VALUES)
        ops.append(op)
    ops += [{"op": "peek", "h": "", "a": a} for a in names]
    ops += [{"op": "read", "h": h, "x": True} for h in handles]
    return {"ix": ix, "handles": handles, "addresses": names, "ops": ops, "anon": rng.random() < 0.2,
            "peeker": rng.randrange(3)}


def collect(ctx, cases, label):
    histories = finished(ctx, play, cases, label, limit=120)
    ctx.note("events", sum(len(h["ev"]) for h in histories))
    if histories:
        ctx.sample({label: histories[-1]["ev"][:4]})
        validate(ctx, "TraceSticky", histories, label=label)
    return histories


def run(ctx):
    rng = ctx.rng()
    res = ctx.model("MCSticky")
    edges = edges_of(res)
    init = json.dumps(res.json_printed("INIT")[0], sort_keys=True)
    ctx.note("model_transitions_replayed", len(edges))
    cases = []
    for _ in range(ctx.scale(1, 6)):
        for walk in tours(edges, init, maxlen=100, rng=rng):
            cases.append(from_walk(len(cases), walk, rng))
    collect(ctx, cases, "model tour")
    hist = collect(ctx, [random_case(i, rng, rng.choice([15, 50]))
                         for i in range(ctx.scale(150, 4000))], "recorded history")
    if not ctx.violations:
        bad = []
        for h in hist[:8]:
            h = copy.deepcopy(h)
            for e in reversed(h["ev"]):
                if e["op"] == "read":
                    e["out"] = "corrupted"
                    bad.append(h)
                    break
        must_reject(ctx, "TraceSticky", bad)
    ctx.assumptions += ["calls of one history are made one at a time"]
