"""C07: an index is an exact set of keys with gapless positions, and a map."""
import copy
import json
import os

import lib
from canon import canon
from codexhost import IndexHost
from lib import finished, pick_names, edges_of, tours, validate
from procs import Crew, sweep
from props.c05 import JSONABLE, KEYS, OTHERKEYS, RESERVED, wild_key
from selftest import must_reject

METAS = [v for v in JSONABLE if v is not None]
_crew = None


def crew():
    global _crew
    if _crew is None:
        _crew = Crew(3, IndexHost)
    return _crew


def play(case):
    name = given = f"vi{os.getpid()}x{case['ix']}_index"
    if case.get("anon") and not case["o"].get("via"):
        name = None  # the index makes up a name
    c = crew()
    for i in range(3):
        c.call(i, "reset")
    ev = []
    universe = sorted({o["key"] for o in case["ops"] if "key" in o}, key=str)
    try:
        for n, (h, i) in enumerate(case["handles"].items()):
            r = c.call(i, "do", {"op": "open", "h": h, "prefix": name, "x": n == 0, "o": case["o"]})
            if r != {"out": "ok", "lst": []}:
                return {"ev": [dict(op="keys", k="", v="", x=False, bad=False, out=str(r),
                                    n=0, exc=True, lst=[], np=[])], "o": json.dumps(case["o"])}
            if name is None:
                name = c.call(i, "name_of", h)
        for op in case["ops"]:
            i = case["handles"][op["h"]]
            res = c.call(i, "do", op)
            if isinstance(res, str):
                res = {"out": res, "lst": []}
            np = []
            if op["op"] == "remove" and res["out"] not in ("HANG", "DIED"):
                other = case["look"][len(ev) % len(case["look"])]
                r = c.call(case["handles"][other], "do",
                           {"op": "positions", "h": other, "keys": universe})
                np = r["lst"] if isinstance(r, dict) else []
            val = op.get("value")
            ev.append({
                "op": op["op"], "k": canon(str(op.get("key", ""))),
                "v": "none" if val is None else canon(val), "x": op.get("x", False),
                "bad": val == "UNSERIALIZABLE", "out": res["out"], "n": res.get("n", 0),
                "exc": res["out"].startswith("EXC:"), "lst": res["lst"], "np": np,
                "h": op["h"], "how": op.get("how", ""),
            })
            if res["out"] in ("HANG", "DIED"):
                break
    finally:
        sweep(given[:-5])
        if name not in (None, given):
            sweep(str(name))
    return {"ev": ev, "o": json.dumps(case["o"])}


def reads(h, keys, meta, rng):
    ops = [{"op": "keys", "h": h, "how": rng.choice(["", "keys"]) if meta else ""}]
    ops += [{"op": "check", "h": h, "key": k} for k in keys]
    if meta:
        ops += [{"op": "items", "h": h}, {"op": "values", "h": h}]
        ops += [{"op": "lookup", "h": h, "key": k} for k in keys]
    return ops


OPTS = [{"cls": "MetaTagIndex"}, {"cls": "MetaTagIndex"}, {"cls": "TagIndex"},
        {"cls": "MetaTagIndex", "no_lockout": True}, {"cls": "TagIndex", "no_lockout": True},
        {"cls": "MetaTagIndex", "via": "Notepad"}]


def names_for(o):
    return KEYS if o.get("via") else KEYS + RESERVED + ["a\0", "\0", "a\0b"]


def from_walk(ix, walk, rng, o):
    meta = o["cls"] == "MetaTagIndex"
    names = pick_names(rng, names_for(o), 3)
    kmap = dict(zip("abc", names))
    v = rng.sample(METAS, 2)
    vmap = {"none": None, "v0": v[0], "v1": v[1]}
    ops = []
    for n, (_, e, _) in enumerate(walk):
        h = rng.choice(["h1", "h2"])
        op = {"op": e["op"], "h": h, "key": kmap[e["k"]], "x": e["x"], "how": rng.choice(["plain", "del"])}
        if e["op"] == "add" and meta:
            op["value"] = vmap[e["v"]]
        ops.append(op)
        r = reads(rng.choice(["h1", "h2"]), names, meta, rng)
        ops += r if n % 5 == 4 else rng.sample(r, 1)
    return {"ix": ix, "handles": {"h1": 0, "h2": rng.choice([0, 1])}, "look": ["h1", "h2"],
            "ops": ops, "o": o}


def random_case(ix, rng, length, nkeys=None):
    o = rng.choice(OPTS)
    meta = o["cls"] == "MetaTagIndex"
    handles = {f"h{i}": rng.randrange(3) for i in range(rng.randint(1, 3))}
    if nkeys:
        keys = [f"key{i}" for i in range(nkeys)]
    else:
        keys = pick_names(rng, names_for(o), rng.choice([1, 2, 4, 10]))
        keys += sorted({wild_key(rng) for _ in range(rng.choice([0, 1, 3]))} - set(keys))
        keys += [k for k in rng.sample(OTHERKEYS, 1) if str(k) not in keys]
    ops = []
    if nkeys:
        for k in keys:
            ops.append({"op": "add", "h": "h0", "key": k, "x": True,
                        "value": rng.choice(METAS) if meta and rng.random() < 0.6 else None})
    for _ in range(length):
        h = rng.choice(list(handles))
        name = rng.choices(["add", "remove", "read"], [6, 4, 3])[0]
        if name == "read":
            ops.append(rng.choice(reads(h, [rng.choice(keys)], meta, rng)))
            continue
        op = {"op": name, "h": h, "key": rng.choice(keys), "x": rng.random() < 0.8,
              "how": rng.choice(["plain", "del"])}
        if name == "add":
            if meta and rng.random() < 0.6:
                op["value"] = rng.choice(METAS)
            if rng.random() < 0.05:
                op["value"] = "UNSERIALIZABLE"
        ops.append(op)
    for h in handles:
        ops += reads(h, keys, meta, rng)
    return {"ix": ix, "handles": handles, "look": list(handles), "ops": ops, "o": o,
            "anon": rng.random() < 0.15}


def collect(ctx, cases, label):
    histories = finished(ctx, play, cases, label, limit=120)
    ctx.note("events", sum(len(h["ev"]) for h in histories))
    if histories:
        ctx.sample({label: histories[-1]["ev"][-4:]})
        validate(ctx, "TraceIndex", histories, label=label)
    return histories


def run(ctx):
    rng = ctx.rng()
    cfg = (lib.SPEC / "IndexSlots.cfg").read_text()
    res = ctx.model("IndexSlots")
    small = cfg.replace(', "v1"', "")
    for bug in ("keepkey", "keepname", "stale", "forget"):
        ctx.model_fails("IndexSlots", f"index with mistake '{bug}'",
                        cfg_text=cfg.replace('"none"', f'"{bug}"'))
    if ctx.thorough:
        ctx.model("IndexSlots", cfg_text=small.replace('"c"}', '"c", "d", "e"}'))
    edges = edges_of(res)
    init = json.dumps(res.json_printed("INIT")[0], sort_keys=True)
    ctx.note("model_transitions_replayed", len(edges))
    cases = []
    for walk in tours(edges, init, maxlen=150, rng=rng):
        cases.append(from_walk(len(cases), walk, rng, rng.choice(OPTS[:2] + OPTS[3:4] + OPTS[5:])))
    if ctx.thorough:
        for o in OPTS:
            for walk in tours(edges, init, maxlen=150, rng=rng):
                cases.append(from_walk(len(cases), walk, rng, o))
    collect(ctx, cases, "model tour")
    n = ctx.scale(80, 2000)
    cases = [random_case(i, rng, rng.choice([20, 60])) for i in range(n)]
    cases += [random_case(n + i, rng, 80, nkeys=rng.choice([30, 60]))
              for i in range(ctx.scale(4, 30))]
    # more keys than a byte counts
    cases = [random_case(len(cases) + i, rng, 40, nkeys=270 + 40 * i)
             for i in range(ctx.scale(2, 12))] + cases
    hist = collect(ctx, cases, "recorded history")
    if not ctx.violations:
        bad = []
        for h in hist[-8:]:
            h = copy.deepcopy(h)
            for e in reversed(h["ev"]):
                if e["op"] == "check" and e["out"] == "position":
                    e["n"] += 1
                    bad.append(h)
                    break
        must_reject(ctx, "TraceIndex", bad)
    ctx.assumptions += ["calls of one history are made one at a time (C03 covers overlap)",
                        "keys have distinct nonempty str() forms"]
