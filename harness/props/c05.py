"""C05: a Notepad is one dict, seen by every process attached to it."""
import datetime
import decimal
import fractions
import json
import os
import pickle
import random

from canon import canon
from codexhost import CodexHost
from lib import finished, pick_names, edges_of, tours, validate
from procs import Crew, sweep

VALUES = [
    None, True, False, 0, 1, -1, 2**70, 1.5, float("inf"), "", "x", "None",
    "\x00", "ünï\n\"'", b"", b"\x00\x01\xff", [], {}, (), [None], {"a": None},
    {"a": {"b": [1, 2, (3,)]}}, {1: "int key", "1": "str key"}, {1, 2},
    "y" * 5000, list(range(300)), {"k" + str(i): i for i in range(50)},
    [[[]]], {"": ""}, 1 + 2j,
]
JSONABLE = [
    None, True, False, 0, 1, -1, 2**70, 1.5, "", "x", "None", "\x00",
    "ünï\n\"'", [], {}, [None], {"a": None}, {"a": {"b": [1, 2, [3]]}},
    "y" * 5000, list(range(300)), [[[]]], {"": ""},
]
# everything ast.literal_eval(str(x)) can bring back; not strings, whose str()
# is not a literal
LITERAL = [
    None, True, False, 0, 1, -1, 2**70, 1.5, b"", b"\x00\x01\xff", [], {}, (),
    [None], {"a": None}, {"a": {"b": [1, 2, (3,)]}},
    {1: "int key", "1": "str key"}, {1, 2}, list(range(300)), [[[]]],
    {"": ""}, ["ünï\n\"'"],
]
ORDERED = [{"z": 1, "a": {"d": 0, "c": [3, 1, 2]}, "m": None}]
for pool in (VALUES, JSONABLE, LITERAL):
    pool += ORDERED
VALUES += [float("nan"), -0.0, float("-inf"), range(3), slice(1, None), datetime.datetime(2000, 1, 2, 3, 4, 5, 6, datetime.timezone.utc),
           decimal.Decimal("1.10"), fractions.Fraction(1, 3), bytearray(b"ab"), frozenset({1}), Ellipsis, int, KeyError("x"), "\ud800"]
JSONABLE += [-0.0, 1e-320, 123456789.123456789, "\ud800", "\u2028</"]
LITERAL += [-0.0, 1e-320, 1 + 2j, ["\ud800"], [b"\n'", '"'], (1,), [set()]]
POOL = {"pickle": VALUES, "json": JSONABLE, "ast": LITERAL, None: VALUES}

# encodings longer than a page, of whole pages, and longer than a megabyte
def pickled(n):
    return b"\x07" * (n - len(pickle.dumps(b"\x07" * (n - 100))) + n - 100)


LARGE = [b"\x07" * (2**20 + 3), "é" * 40000, pickled(4096), pickled(65536), list(range(20000))]
VALUES += LARGE
JSONABLE += ["z" * 70001, "y" * 4094, list(range(20000))]
KEYS = [
    "a", "b", "ab", "A", " ", "a b", "ünï", "日本", "k" * 120, "0", "x.y",
    "inde", "Index", "name", "key_0", "val_0", "count", "lock", "-", "a\nb",
    "None", "{}", "é" * 40, "z_1", "_", "__", "%s", "~", "a'b", 'a"b', "\\n",
    "my_index", "_index", " index", "INDEX_key_0", "tagindexes", "key_index_0",
]
WORDS = ["index", "_", "key", "name", "count", "a", "B", "0", "-1", " ", ".", "é", "held", "lock", "p", "q", "'", "tmp", "%", "None"]


def wild_key(rng):
    """any key that is not reserved"""
    k = "".join(rng.choice(WORDS) for _ in range(rng.choice([1, 2, 3, 5, 12])))
    return "x" + k if k.startswith("index") else k


OTHERKEYS = [7, -3, 10**20, 2.5, True, None, (1, 2)]
RESERVED = ["index", "index_key_0", "index_count", "indexer"]

CONFIGS = [
    {}, {}, {}, {"codec": "json"}, {"codec": "ast"}, {"codec": "pickle"},
    {"index": "MetaTagIndex"}, {"no_lockout": True},
    {"index": "MetaTagIndex", "codec": "json", "no_lockout": True},
    {"update_on_init": True},
]
_crew = None


def crew(n=3):
    global _crew
    if _crew is None or len(_crew.members) < n:
        _crew = Crew(n, CodexHost)
    return _crew


def play(case):
    """
    run one history against real processes. case: {tag, handles: {h: process},
    pads: [p], ops: [...]}. an op names pads and handles and carries concrete
    python keys and values. returns the recorded history.
    """
    # long ones as well: names of pads that differ only far from their beginning
    prefix = f"vf{os.getpid()}x{case['ix']}_" + "w" * (0, 0, 40, 70)[case["ix"] % 4]
    c = crew()
    for i in range(len(c.members)):
        c.call(i, "reset")
    where = {}  # handle -> pad
    anon, used = {}, []
    ev = []
    try:
        for op in case["ops"]:
            h = op["h"]
            if op["op"] != "open" and where.get(h) is None:
                continue
            i = case["handles"][h]
            msg = dict(op)
            if op["op"] == "open":
                msg["prefix"] = anon.get(op["p"], prefix + op["p"])
                if case.get("anon") and op["x"] and op["p"] not in anon:
                    msg["prefix"] = None  # it makes up its own
            res = c.call(i, "do", msg)
            if isinstance(res, str):
                res = {"out": res, "lst": []}
            key, val = op.get("key", ""), op.get("value", "")
            ev.append({
                "op": op["op"], "h": h, "p": op.get("p", ""),
                "k": canon(str(key)), "v": canon(val), "x": op.get("x", False),
                "res": isinstance(key, str) and key.startswith("index"),
                "bad": isinstance(val, str) and val == "UNSERIALIZABLE",
                "out": res["out"], "exc": res["out"].startswith("EXC:"),
                "lst": res["lst"], "how": op.get("how") or "",
            })
            if res["out"] in ("HANG", "DIED"):
                break
            if op["op"] == "open" and res["out"] == "ok":
                where[h] = op["p"]
                if msg["prefix"] is None:
                    anon[op["p"]] = c.call(i, "prefix_of", h)
                    used.append(anon[op["p"]])
            if op["op"] == "close" and res["out"] == "ok":
                anon.pop(where[h], None)
                gone = [g for g, p in where.items() if p == where[h]]
                for g in gone:
                    where[g] = None
                for j in range(len(c.members)):
                    c.call(j, "drop", [g for g in gone if case["handles"][g] == j])
    finally:
        for p in [prefix] + [f"{u}_" for u in used]:
            sweep(p)
    return {
        "pads": case["pads"], "handles": sorted(case["handles"]), "ev": ev,
        "o": json.dumps(case.get("o", {})),
    }


def from_walk(ix, walk, rng):
    """a tour of the model's graph, made concrete."""
    o = rng.choice(CONFIGS)
    pool = POOL[o.get("codec")]
    keys = pick_names(rng, KEYS + OTHERKEYS, 2)
    while str(keys[0]) == str(keys[1]):
        keys = rng.sample(KEYS + OTHERKEYS, 2)
    kmap = {"a": keys[0], "b": keys[1], "index": rng.choice(RESERVED)}
    vals = rng.sample(pool, 2)
    vmap = {"v0": vals[0], "v1": vals[1], "bad": "UNSERIALIZABLE"}
    ops = []
    for _, e, _ in walk:
        if e["v"] == "bad" and o.get("codec") == "ast":
            continue  # str() of anything is something; and nothing changes
        op = {"op": e["op"], "h": e["h"], "x": e["x"]}
        if e["p"]:
            op["p"], op["o"] = e["p"], o
        if e["k"]:
            op["key"] = kmap[e["k"]]
        if e["v"]:
            op["value"] = vmap[e["v"]]
        op["how"] = how(op["op"], rng)
        ops.append(op)
    handles = {h: i for i, h in enumerate(("h1", "h2"))}
    if rng.random() < 0.25:
        handles = {"h1": 0, "h2": 0}  # two handles in one process
    return {"ix": ix, "handles": handles, "pads": ["p", "q"], "ops": ops, "o": o}


def how(op, rng):
    return {
        "set": lambda: rng.choice(["item", "set"]),
        "item": lambda: rng.choice(["", "", "raw", "nofetch", "dump"]),
        "get": lambda: rng.choice(["", "none"]),
        "keys": lambda: rng.choice(["", "iter", "str", "index"]),
        "items": lambda: rng.choice(["", "values"]),
    }.get(op, lambda: "")()


def random_case(ix, rng, length):
    npads = rng.choice([1, 1, 2, 3])
    pads = ["p", "pq", "q"][:npads] if rng.random() < 0.7 else ["1", "12", "2"][:npads]
    conf = {p: rng.choice(CONFIGS) for p in pads}
    nh = rng.randint(npads, npads + 3)
    handles = {f"h{i}": rng.randrange(3) for i in range(nh)}
    home = {h: pads[i % npads] for i, h in enumerate(handles)}
    nkeys = rng.choice([1, 2, 4, 8, 20])
    keys = pick_names(rng, KEYS, min(nkeys, len(KEYS)))
    keys += sorted({wild_key(rng) for _ in range(rng.choice([0, 1, 3]))} - set(keys))
    for k in rng.sample(OTHERKEYS, 2):
        if str(k) not in keys and rng.random() < 0.5:
            keys.append(k)
    ops = []
    for p in pads:
        first = next(h for h in handles if home[h] == p)
        ops.append({"op": "open", "h": first, "p": p, "x": True, "o": conf[p]})
    for h in handles:
        ops.append({"op": "open", "h": h, "p": home[h], "x": False, "o": conf[home[h]]})
    weights = {
        "set": 10, "del": rng.choice([2, 5]), "item": 4, "get": 3, "keys": 2,
        "items": 2, "clear": rng.choice([0, 0.4]), "close": rng.choice([0, 0.3]),
        "open": 0.6,
    }
    hot = rng.random() < 0.3
    for _ in range(length):
        name = rng.choices(list(weights), list(weights.values()))[0]
        h = rng.choice(list(handles))
        p = home[h]
        op = {"op": name, "h": h, "how": how(name, rng), "x": False}
        if name == "open":
            op.update(p=p, o=conf[p], x=rng.random() < 0.5)
        if name in ("set", "del", "item", "get"):
            op["key"] = keys[0] if hot and rng.random() < 0.5 else rng.choice(keys)
            if name in ("set", "del") and rng.random() < 0.04:
                op["key"] = rng.choice(RESERVED)
        if name == "set":
            pool = POOL[conf[p].get("codec")]
            op["x"] = rng.random() < 0.8
            op["value"] = (
                "UNSERIALIZABLE"
                if rng.random() < 0.05 and conf[p].get("codec") != "ast"
                else rng.choice(pool)
            )
        ops.append(op)
    for h in handles:
        ops.append({"op": "items", "h": h, "how": "", "x": False})
        for k in keys:
            ops.append({"op": "get", "h": h, "key": k, "how": "", "x": False})
    return {"ix": ix, "handles": handles, "pads": pads, "ops": ops, "o": conf,
            "anon": rng.random() < 0.2}


def big_case(ix, rng, nkeys):
    """hundreds of keys, deleted from every position."""
    handles = {"h0": 0, "h1": 1}
    o = rng.choice([{}, {"index": "MetaTagIndex"}])
    ops = [{"op": "open", "h": "h0", "p": "p", "x": True, "o": o},
           {"op": "open", "h": "h1", "p": "p", "x": False, "o": o}]
    keys = [f"key{i}" for i in range(nkeys)]
    for i, k in enumerate(keys):
        ops.append({"op": "set", "h": f"h{i % 2}", "key": k, "value": i, "x": True})
    gone = rng.sample(keys, nkeys // 3)
    for k in gone:
        ops.append({"op": "del", "h": rng.choice(["h0", "h1"]), "key": k})
    ops.append({"op": "items", "h": "h1"})
    for k in gone[::2] + keys[::7]:
        ops.append({"op": "set", "h": rng.choice(["h0", "h1"]), "key": k, "value": [k], "x": True})
    ops.append({"op": "items", "h": "h0"})
    ops += [{"op": "del", "h": "h0", "key": k} for k in rng.sample(keys, nkeys // 4)]
    ops += [{"op": "items", "h": "h1"}, {"op": "clear", "h": "h1"}, {"op": "keys", "h": "h0"},
            {"op": "set", "h": "h0", "key": "key1", "value": 1, "x": True},
            {"op": "items", "h": "h1"}]
    ops += [{"op": "set", "h": f"h{i % 2}", "key": k, "value": i, "x": False}
            for i, k in enumerate(keys[2:])]
    ops += [{"op": "keys", "h": "h1"}, {"op": "close", "h": "h1"},
            {"op": "open", "h": "h0", "p": "p", "x": True, "o": o},
            {"op": "open", "h": "h1", "p": "p", "x": False, "o": o}]
    ops += [{"op": "get", "h": rng.choice(["h0", "h1"]), "key": k, "how": "", "x": False}
            for k in keys]
    ops += [{"op": "items", "h": "h1"}]
    return {"ix": ix, "handles": handles, "pads": ["p"], "ops": ops, "o": o}


def run_cases(ctx, cases, label):
    histories = finished(ctx, play, cases, label, limit=120)
    ctx.note("events", sum(len(h["ev"]) for h in histories))
    if histories:
        ctx.sample({"history": histories[len(histories) // 2]["ev"][:6]})
    validate(ctx, "TraceNotepad", histories, label=label)
    return histories


def corrupt(histories, rng):
    """a recorded history with one outcome changed must be rejected."""
    import copy

    out = []
    for h in rng.sample(histories, min(6, len(histories))):
        h = copy.deepcopy(h)
        cand = [e for e in h["ev"] if e["op"] in ("item", "get", "items", "keys")]
        if not cand:
            continue
        e = rng.choice(cand)
        if e["op"] in ("item", "get"):
            e["out"] = "s'corrupted'"
        else:
            e["lst"] = e["lst"] + [["s'corrupted'"] * (1 if e["op"] == "keys" else 2)]
        out.append(h)
    return out


def run(ctx):
    rng = ctx.rng()
    cases = []
    for cfg in ("MCNotepad", "MCNotepad2"):
        res = ctx.model("MCNotepad", cfg=cfg)
        edges = edges_of(res)
        init = json.dumps(res.json_printed("INIT")[0], sort_keys=True)
        ctx.note("model_transitions_replayed", len(edges))
        for rep in range(ctx.scale(1, 6)):
            for walk in tours(edges, init, maxlen=120, rng=rng):
                cases.append(from_walk(len(cases), walk, rng))
    ctx.note("tours", len(cases))
    run_cases(ctx, cases, "model tour")
    n = ctx.scale(110, 2500)
    cases = [random_case(i, rng, rng.choice([20, 50, 80])) for i in range(n)]
    cases += [big_case(n + i, rng, ctx.scale(120, 300)) for i in range(ctx.scale(4, 16))]
    hist = run_cases(ctx, cases, "recorded history")
    if not ctx.violations:
        from selftest import must_reject

        must_reject(ctx, "TraceNotepad", corrupt(hist, rng))
    ctx.assumptions += [
        "calls of one history are made one at a time (C04 covers overlap)",
        "keys are nonempty and have distinct str() forms; a handle is not "
        "used after its pad was closed",
    ]
