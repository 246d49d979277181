"""C08: closing leaves nothing behind; failed calls change nothing."""
import copy
import json
import os
import subprocess
import sys

import lib
from arrays import make_array, random_recipe
from canon import canon
from codexhost import AnyHost
from lib import finished, pick_names, edges_of, tours, validate
from procs import Crew, shm_names, sweep
from props.c05 import JSONABLE, KEYS, RESERVED, VALUES, wild_key
from props.c06 import BAD
from selftest import must_reject

KINDS = [
    {"cls": "Notepad"}, {"cls": "Notepad"}, {"cls": "Notepad", "index": "MetaTagIndex"},
    {"cls": "Notepad", "codec": "json"}, {"cls": "Notepad", "no_lockout": True},
    {"cls": "GridPaper"}, {"cls": "GridPaper"}, {"cls": "GridPaper", "no_lockout": True},
    {"cls": "TagIndex"}, {"cls": "MetaTagIndex"},
]
_crew = None


def crew():
    global _crew
    if _crew is None:
        _crew = Crew(3, AnyHost)
    return _crew


def value_token(o, v):
    if o["cls"].endswith("Index"):
        return "in"
    return canon(make_array(v)) if o["cls"] == "GridPaper" and isinstance(v, dict) else canon(v)


def play(case):
    prefix = f"vc{os.getpid()}x{case['ix']}_"
    c = crew()
    for i in range(3):
        c.call(i, "reset")
    where, ev = {}, []
    pad = {p: prefix + p for p in case["pads"]}
    warmup = {}
    try:
        for op in case["ops"]:
            name, h = op["op"], op.get("h", "")
            if name == "residue":
                ev.append({"op": name, "h": "", "p": "", "k": "", "v": "", "x": False,
                           "res": False, "bad": False, "out": "list", "exc": False, "blk": 0,
                           "pads": [], "lst": [[p] for p in case["pads"] if shm_names(pad[p])]})
                continue
            if name != "open" and where.get(h) is None:
                continue
            i = case["handles"][h]
            p = op["p"] if name == "open" else where[h]
            o = case["o"][p]
            if name == "set" and op.get("meta") and o.get("index") != "MetaTagIndex":
                op = {k: v for k, v in op.items() if k != "meta"}
            msg = dict(op)
            if name == "open":
                msg["prefix"], msg["o"] = pad[p], o
            before = len(shm_names(pad[p]))
            res = c.call(i, "do", msg)
            if isinstance(res, str):
                res = {"out": res, "lst": []}
            after = len(shm_names(pad[p]))
            key, val = op.get("key", ""), op.get("value")
            index = o["cls"].endswith("Index")
            ev.append({
                "op": name, "h": h, "p": op.get("p", ""), "k": canon(str(key)),
                "v": value_token(o, val) if name == "set" else "", "x": op.get("x", False),
                "res": not index and isinstance(key, str) and key.startswith("index"),
                "bad": val == "UNSERIALIZABLE" or val in BAD or op.get("meta") == "BAD",
                "out": res["out"], "exc": res["out"].startswith("EXC:"),
                "lst": res["lst"], "blk": after - before, "pads": [],
            })
            if res["out"] in ("HANG", "DIED"):
                break
            if name == "open" and res["out"] == "ok":
                where[h] = p
                if op["x"]:
                    # use the lock once, so that its counter is there
                    v = random_value(o, warmup.setdefault("rng", __import__("random").Random(1)))
                    c.call(i, "do", {"op": "set", "h": h, "key": "warmup", "value": v, "x": True})
                    c.call(i, "do", {"op": "del", "h": h, "key": "warmup"})
            if name == "close" and res["out"] == "ok":
                gone = [g for g, q in where.items() if q == p]
                for g in gone:
                    where[g] = None
                for j in range(3):
                    c.call(j, "drop", [g for g in gone if case["handles"][g] == j])
    finally:
        sweep(prefix)
    return {"pads": case["pads"], "handles": sorted(case["handles"]) + [""], "ev": ev,
            "o": json.dumps(case["o"])}


def random_value(o, rng):
    if o["cls"] == "GridPaper":
        return random_recipe(rng)
    if o["cls"].endswith("Index"):
        return "in"
    return rng.choice(JSONABLE if o.get("codec") == "json" else VALUES)


def bad_value(o, rng):
    return rng.choice(BAD) if o["cls"] == "GridPaper" else "UNSERIALIZABLE"


def from_walk(ix, walk, rng):
    o = {p: rng.choice(KINDS) for p in ("p", "q")}
    if any(e["k"] == "index" for _, e, _ in walk):
        o = {p: rng.choice([k for k in KINDS if not k["cls"].endswith("Index")]) for p in o}
    keys = pick_names(rng, KEYS, 2)
    kmap = {"a": keys[0], "b": keys[1], "index": rng.choice(RESERVED)}
    at, ops, known = {}, [], {}
    for n, (f, e, _) in enumerate(walk):
        op = {"op": e["op"], "h": e["h"], "x": e["x"], "how": ""}
        if e["p"]:
            op["p"] = e["p"]
            pad = e["p"]
        else:
            pad = json.loads(f)["at"][e["h"]]
        if e["k"]:
            op["key"] = kmap[e["k"]]
        if e["v"]:
            op["value"] = (
                bad_value(o[pad], rng) if e["v"] == "bad" else random_value(o[pad], rng)
            )
        ops.append(op)
        if e["op"] in ("close", "clear") or n % 10 == 9:
            ops.append({"op": "residue"})
    ops.append({"op": "residue"})
    return {"ix": ix, "handles": {"h1": 0, "h2": rng.choice([0, 1])}, "pads": ["p", "q"],
            "ops": ops, "o": o}


def random_case(ix, rng, length):
    pads = ["p", "q", "r"][: rng.choice([1, 2, 3])]
    o = {p: rng.choice(KINDS) for p in pads}
    handles = {f"h{i}": rng.randrange(3) for i in range(len(pads) + rng.randint(0, 2))}
    home = {h: pads[i % len(pads)] for i, h in enumerate(handles)}
    keys = pick_names(rng, KEYS, rng.choice([1, 3, 8, 20]))
    keys += sorted({wild_key(rng) for _ in range(rng.choice([0, 1, 2]))} - set(keys))
    ops = [{"op": "residue"}]
    for h in handles:
        ops.append({"op": "open", "h": h, "p": home[h],
                    "x": h == next(g for g in handles if home[g] == home[h])})
    for _ in range(length):
        name = rng.choices(
            ["set", "del", "get", "items", "clear", "close", "open", "residue"],
            [10, 4, 1, 1, 0.6, 0.6, 1, 1])[0]
        h = rng.choice(list(handles))
        p = home[h]
        op = {"op": name, "h": h, "x": False, "how": ""}
        if name == "open":
            op.update(p=p, x=rng.random() < 0.7)
        if name in ("set", "del", "get"):
            op["key"] = rng.choice(keys)
            if name != "get" and not o[p]["cls"].endswith("Index") and rng.random() < 0.08:
                op["key"] = rng.choice(RESERVED)
        if name == "set":
            op["x"] = rng.random() < 0.75
            op["value"] = bad_value(o[p], rng) if rng.random() < 0.2 else random_value(o[p], rng)
            if op["value"] != "UNSERIALIZABLE" and o[p].get("index") == "MetaTagIndex":
                op["meta"] = rng.choice([None, {"m": 1}, [1]])
        ops.append(op)
        if name in ("close", "clear"):
            ops.append({"op": "residue"})
    for h in handles:
        ops.append({"op": "items", "h": h, "how": ""})
    for h in rng.sample(list(handles), len(handles)):
        ops.append({"op": "close", "h": h, "o": {"dump": rng.random() < 0.2
                    and o[home[h]]["cls"] in ("Notepad", "GridPaper")}})
        ops.append({"op": "residue"})
    return {"ix": ix, "handles": handles, "pads": pads, "ops": ops, "o": o}


def big_case(ix, rng, nkeys, cls):
    """many entries to close or clear away, some deleted before."""
    o = {"p": {"cls": cls}}
    keys = [f"key{i}" for i in range(nkeys)]
    ops = [{"op": "open", "h": "h0", "p": "p", "x": True},
           {"op": "open", "h": "h1", "p": "p", "x": False}]
    def fill():
        return [{"op": "set", "h": f"h{i % 2}", "key": k, "value": random_value(o["p"], rng) if i % 9 == 0
                 else {"dtype": "<i2", "shape": (3,), "seed": i, "layout": "C"} if cls == "GridPaper"
                 else "in" if cls.endswith("Index") else i, "x": False} for i, k in enumerate(keys)]
    ops += fill()
    ops += [{"op": "del", "h": f"h{i % 2}", "key": k}
            for i, k in enumerate(rng.sample(keys, nkeys // 5))]
    ops += [{"op": "residue"}, {"op": "items", "h": "h1"}, {"op": "clear", "h": "h1"}, {"op": "residue"}]
    ops += fill()
    ops += [{"op": "close", "h": "h1"}, {"op": "residue"},
            {"op": "open", "h": "h0", "p": "p", "x": True}, {"op": "items", "h": "h0"},
            {"op": "close", "h": "h0"}, {"op": "residue"}]
    return {"ix": ix, "handles": {"h0": 0, "h1": 1}, "pads": ["p"], "ops": ops, "o": o}


def play_exit(case):
    """one pad used by one or two separate interpreters that end."""
    name = f"ve{os.getpid()}x{case['ix']}_p"
    ev = []

    def event(op, **kw):
        e = {"op": op, "h": "", "p": "", "k": "", "v": "", "x": False, "res": False,
             "bad": False, "out": "ok", "exc": False, "lst": [], "blk": 0, "pads": []}
        e.update(kw)
        ev.append(e)

    try:
        for n, proc in enumerate(case["procs"]):
            spec = dict(proc, name=name, repo=os.environ.get("VERIF_REPO", "/repo"),
                        create=n == 0)
            r = subprocess.run([sys.executable, "-W", "ignore", "-c",
                                f"exec(open({os.path.join(str(lib.VERIF), 'harness', 'exitscript.py')!r}).read())",
                                json.dumps(spec)],
                               capture_output=True, text=True, timeout=60)
            want = {"raise": 1, "exit": 3, "kill": 9, "normal": 0}[proc["end"]]
            event("open", h="h", p="p", x=n == 0)
            ends = []
            if proc["cleanup"] and proc["end"] != "kill":
                ends = ["p"]
            if proc.get("close"):
                event("close", h="h")
                ends = []
            event("exit", pads=ends,
                  out="ok" if r.returncode == want else f"exit code {r.returncode}: {r.stderr[-200:]}")
            event("residue", out="list", lst=[["p"]] if shm_names(name) else [])
            if not shm_names(name):
                break
    finally:
        sweep(name)
    return {"pads": ["p"], "handles": ["h", ""], "ev": ev, "o": json.dumps(case["procs"])}


def exit_cases(ctx, rng):
    cases = []
    for cls in ("Notepad", "GridPaper", "TagIndex", "MetaTagIndex"):
        for end in ("normal", "raise", "exit", "kill"):
            for cleanup in (True, False):
                procs = []
                for _ in range(1 if cleanup else 2):
                    ks = [f"k{i}" for i in range(rng.randint(0, 4))]
                    procs.append({"cls": cls, "end": end, "cleanup": cleanup, "set": ks,
                                  "del": ks[:1], "no_lockout": rng.random() < 0.2,
                                  "close": cleanup and rng.random() < 0.2})
                if not cleanup:
                    procs[-1].update(cleanup=True, end="normal")
                cases.append({"procs": procs})
    rng.shuffle(cases)
    cases = cases[: ctx.scale(14, 64)]
    for i, c in enumerate(cases):
        c["ix"] = i
    return cases


def collect(ctx, cases, func, label):
    histories = finished(ctx, func, cases, label, limit=120)
    ctx.note("events", sum(len(h["ev"]) for h in histories))
    if histories:
        ctx.sample({label: histories[-1]["ev"][-4:]})
        validate(ctx, "TraceClean", histories, label=label)
    return histories


def run(ctx):
    rng = ctx.rng()
    big = (lib.SPEC / "PadBlocks.cfg").read_text()
    if ctx.thorough:
        ctx.model("PadBlocks", cfg_text=big.replace('"c"}', '"c", "d"}'))
    else:
        ctx.model("PadBlocks", cfg_text=big.replace(', "c"}', '}'))
    for bug in ("leak", "count", "dangling"):
        ctx.model_fails("PadBlocks", f"pad with mistake '{bug}'",
                        cfg_text=big.replace('"none"', f'"{bug}"').replace(', "c"}', '}'))
    res = ctx.model("MCNotepad")
    edges = edges_of(res)
    init = json.dumps(res.json_printed("INIT")[0], sort_keys=True)
    cases = []
    for _ in range(ctx.scale(1, 8)):
        for walk in tours(edges, init, maxlen=100, rng=rng):
            cases.append(from_walk(len(cases), walk, rng))
    collect(ctx, cases, play, "model tour")
    n = ctx.scale(90, 2500)
    cases = [random_case(i, rng, rng.choice([15, 40])) for i in range(n)]
    crowds = [big_case(n + i, rng, rng.choice([80, 150, 280]), cls)
              for i, cls in enumerate(["Notepad", "GridPaper", "MetaTagIndex", "TagIndex"]
                                      * ctx.scale(1, 6))]
    hist = collect(ctx, crowds + cases, play, "recorded history")
    collect(ctx, exit_cases(ctx, rng), play_exit, "process exit")
    if not ctx.violations:
        bad = []
        for h in hist[-6:]:
            h = copy.deepcopy(h)
            for e in reversed(h["ev"]):
                if e["op"] == "residue":
                    e["lst"] = [["p"]] if not e["lst"] else []
                    bad.append(h)
                    break
        must_reject(ctx, "TraceClean", bad)
    ctx.assumptions += [
        "blocks are the files with the pad's prefix in /dev/shm",
        "the lock's counter block exists from the first use of the lock on",
    ]
