"""C06: arrays come back exactly as stored."""
import json
import os

from arrays import DTYPES, LAYOUTS, SHAPES, make_array, random_recipe
from canon import canon
from codexhost import GridHost
from lib import finished, pick_names, edges_of, pmap, tours, validate
from procs import Crew, sweep
from props.c05 import KEYS, OTHERKEYS, RESERVED, wild_key
from selftest import must_reject

BAD = [
    {"dtype": "O", "shape": (2,), "seed": 1, "layout": "C"},
    {"dtype": "O", "shape": (), "seed": 1, "layout": "C"},
    {"dtype": "OS", "shape": (3,), "seed": 1, "layout": "C"},
]
_crew = None


def crew(n=3):
    global _crew
    if _crew is None:
        _crew = Crew(n, GridHost)
    return _crew


def play(case):
    prefix = f"vg{os.getpid()}x{case['ix']}_"
    c = crew()
    for i in range(3):
        c.call(i, "reset")
    where, slots, ev = {}, {}, []
    of = {}  # slot -> (pad, key) it is a view of, "copy", or None if it can't be written to
    try:
        for op in case["ops"]:
            h = op["h"]
            if op["op"] == "poke" and of.get(op["s"]) is None:
                continue
            if op["op"] in ("inspect", "poke"):
                i = slots.get(op["s"], 0)
            else:
                if op["op"] != "open" and where.get(h) is None:
                    continue
                i = case["handles"][h]
            msg = dict(op)
            if op["op"] == "open":
                msg["prefix"] = prefix + op["p"]
            s = op.get("s", "")
            if op["op"] == "hold" and slots.get(s, i) != i:
                continue  # a slot belongs to one process
            res = c.call(i, "do", msg)
            if isinstance(res, str):
                res = {"out": res, "lst": []}
            key, val = op.get("key", ""), op.get("value")
            if op["op"] == "hold":
                slots[s] = i
                if not res["out"].startswith("EXC:"):
                    of[s] = (where[h], str(key)) if op["x"] else "copy"
            elif op["op"] in ("set", "del", "clear", "close") and res["out"] == "ok":
                for t, at in of.items():
                    if at in ((where[h], str(key)), None) or op["op"] in ("clear", "close") and at != "copy" and at[0] == where[h]:
                        of[t] = None
            ev.append({
                "op": op["op"], "h": h, "p": op.get("p", ""), "s": s,
                "k": canon(str(key)),
                "v": canon(make_array(val)) if val else res["out"] if op["op"] == "poke" else "",
                "x": op.get("x", False),
                "res": isinstance(key, str) and key.startswith("index"),
                "bad": val in BAD,
                "out": res["out"], "exc": res["out"].startswith("EXC:"),
                "lst": res["lst"], "how": op.get("how") or "",
                "note": json.dumps(val) if val else "",
            })
            if res["out"] in ("HANG", "DIED"):
                break
            if op["op"] == "open" and res["out"] == "ok":
                where[h] = op["p"]
            if op["op"] == "close" and res["out"] == "ok":
                gone = [g for g, p in where.items() if p == where[h]]
                for g in gone:
                    where[g] = None
                for j in range(3):
                    c.call(j, "drop", [g for g in gone if case["handles"][g] == j])
    finally:
        sweep(prefix)
    return {"pads": case["pads"], "handles": sorted(case["handles"]) + [""],
            "slots": ["s", "t", "u"], "ev": ev, "o": json.dumps(case.get("o", {}))}


def how(op, rng):
    return {
        "set": lambda: rng.choice(["item", "item", "set", "keep_open"]),
        "item": lambda: rng.choice(["", "view", "nofetch", "dump"]),
        "get": lambda: rng.choice(["", "copy"]),
        "keys": lambda: rng.choice(["", "iter", "str", "index"]),
        "items": lambda: rng.choice(["", "values"]),
    }.get(op, lambda: "")()


OPTS = [{}, {}, {"no_lockout": True}, {"update_on_init": True}]


def from_walk(ix, walk, rng):
    o = rng.choice(OPTS)
    keys = pick_names(rng, KEYS, 2)
    kmap = {"a": keys[0], "b": keys[1], "index": rng.choice(RESERVED)}
    vmap = {"v0": random_recipe(rng), "v1": random_recipe(rng), "bad": rng.choice(BAD)}
    while canon(make_array(vmap["v0"])) == canon(make_array(vmap["v1"])):
        vmap["v1"] = random_recipe(rng)
    ops = []
    for _, e, _ in walk:
        op = {"op": e["op"], "h": e["h"], "x": e["x"], "how": how(e["op"], rng)}
        if e["p"]:
            op["p"], op["o"] = e["p"], o
        if e["k"]:
            op["key"] = kmap[e["k"]]
        if e["v"] and e["op"] != "poke":
            op["value"] = vmap[e["v"]]
        if e["s"]:
            op["s"] = "s"
        ops.append(op)
    # one slot: both handles must live in the process that fills it
    handles = {"h1": 0, "h2": 0}
    return {"ix": ix, "handles": handles, "pads": ["p", "q"], "ops": ops, "o": o}


def random_case(ix, rng, length):
    pads = ["p", "q"][: rng.choice([1, 1, 2])]
    conf = {p: rng.choice(OPTS) for p in pads}
    handles = {f"h{i}": rng.randrange(3) for i in range(rng.randint(len(pads), 4))}
    home = {h: pads[i % len(pads)] for i, h in enumerate(handles)}
    keys = pick_names(rng, KEYS, rng.choice([1, 2, 5, 12]))
    keys += sorted({wild_key(rng) for _ in range(rng.choice([0, 1, 2]))} - set(keys))
    for k in rng.sample(OTHERKEYS, 1):
        if str(k) not in keys:
            keys.append(k)
    ops = []
    for p in pads:
        first = next(h for h in handles if home[h] == p)
        ops.append({"op": "open", "h": first, "p": p, "x": True, "o": conf[p]})
    for h in handles:
        ops.append({"op": "open", "h": h, "p": home[h], "x": False, "o": conf[home[h]]})
    weights = {"set": 10, "del": 2, "item": 4, "get": 2, "keys": 1, "items": 1.5,
               "hold": 3, "inspect": 2, "poke": 1.5, "clear": rng.choice([0, 0.3]),
               "close": rng.choice([0, 0.2]), "open": 0.4}
    for _ in range(length):
        name = rng.choices(list(weights), list(weights.values()))[0]
        h = rng.choice(list(handles))
        op = {"op": name, "h": h, "how": how(name, rng), "x": False}
        if name == "open":
            op.update(p=home[h], o=conf[home[h]], x=rng.random() < 0.5)
        if name in ("set", "del", "item", "get", "hold"):
            op["key"] = rng.choice(keys)
            if name in ("set", "del") and rng.random() < 0.03:
                op["key"] = rng.choice(RESERVED)
        if name == "set":
            op["x"] = rng.random() < 0.85
            op["value"] = rng.choice(BAD) if rng.random() < 0.05 else random_recipe(rng)
        if name in ("hold", "inspect", "poke"):
            op["s"] = ["s", "t", "u"][handles[h]]
            op["x"] = name == "hold" and rng.random() < 0.6
            if name != "hold":
                op["h"] = ""
        ops.append(op)
    for h in handles:
        ops.append({"op": "items", "h": h, "how": "", "x": False})
        ops += [{"op": "get", "h": h, "key": k, "how": "", "x": False} for k in keys]
    ops += [{"op": "inspect", "h": "", "s": s} for s in "stu"]
    return {"ix": ix, "handles": handles, "pads": pads, "ops": ops, "o": conf}


def sweep_cases(start, rng, every):
    """every dtype x shape x layout, one after another under one or two keys."""
    combos = [
        {"dtype": d, "shape": s, "seed": i, "layout": lay}
        for i, (d, s, lay) in enumerate(
            (d, s, lay) for d in DTYPES for s in SHAPES for lay in LAYOUTS
        )
    ]
    rng.shuffle(combos)
    combos = combos[::every]
    out = []
    for lo in range(0, len(combos), 60):
        ops = [{"op": "open", "h": "h0", "p": "p", "x": True},
               {"op": "open", "h": "h1", "p": "p", "x": False}]
        for i, r in enumerate(combos[lo:lo + 60]):
            k = "a" if i % 3 else "b"
            ops.append({"op": "set", "h": f"h{i % 2}", "key": k, "value": r, "x": True,
                        "how": how("set", rng)})
            ops.append({"op": "item", "h": f"h{(i + 1) % 2}", "key": k,
                        "how": how("item", rng)})
        out.append({"ix": start + len(out), "handles": {"h0": 0, "h1": 1},
                    "pads": ["p"], "ops": ops})
    return out


def run_cases(ctx, cases, label):
    histories = finished(ctx, play, cases, label, limit=120)
    ctx.note("events", sum(len(h["ev"]) for h in histories))
    ctx.sample({"history": histories[-1]["ev"][:5]})
    validate(ctx, "TraceGrid", histories, label=label)
    return histories


def self_overwrite(_):
    """known finding: storing a live view of an entry into that entry."""
    import numpy as np
    from dustgoggles.codex.implements import GridPaper
    from procs import quiet_shm

    quiet_shm()
    prefix = f"vgself{os.getpid()}_"
    try:
        pad = GridPaper(prefix + "p", create=True)
        pad["a"] = np.arange(50)
        pad["a"] = pad.get("a")[::-1]
        return canon(pad["a"]) == canon(np.arange(50)[::-1])
    finally:
        sweep(prefix)


def run(ctx):
    rng = ctx.rng()
    res = ctx.model("MCGrid")
    edges = edges_of(res)
    init = json.dumps(res.json_printed("INIT")[0], sort_keys=True)
    ctx.note("model_transitions_replayed", len(edges))
    cases = []
    for _ in range(ctx.scale(1, 5)):
        for walk in tours(edges, init, maxlen=150, rng=rng):
            cases.append(from_walk(len(cases), walk, rng))
    run_cases(ctx, cases, "model tour")
    n = ctx.scale(70, 1500)
    cases = [random_case(i, rng, rng.choice([20, 50])) for i in range(n)]
    cases += sweep_cases(n, rng, ctx.scale(4, 1))
    hist = run_cases(ctx, cases, "recorded history")
    if not ctx.violations:
        import copy

        bad = []
        for h in hist[:5]:
            h = copy.deepcopy(h)
            for e in reversed(h["ev"]):
                if e["op"] in ("item", "get"):
                    e["out"] = "array:corrupted"
                    bad.append(h)
                    break
        must_reject(ctx, "TraceGrid", bad)
    if pmap(self_overwrite, [0])[0] != ("ok", True):
        ctx.violation(
            "an entry overwritten with a live view of itself does not hold "
            "the value assigned", {"probe": "pad[k] = pad.get(k)[::-1]"},
            signature="gridpaper-self-overwrite",
        )
    ctx.assumptions += ["calls of one history are made one at a time"]
