"""S05: nested lookup returns what is there, else the default."""
import copy

from lib import SPEC, record
from lookhost import COMMON, KEYS, VALUES, play
from selftest import must_reject

NAMES = ["s'a'", "s'b'", "s'x'", "s'left'"]


def number(n):
    c = [0]

    def go(n):
        c[0] += 1
        r = {**n, "id": f"n{c[0]}"}
        r["items"] = [{**e, "val": go(e["val"])} for e in n["items"]]
        r["seq"] = [go(x) for x in n["seq"]]
        if n["k"] == "nt":
            # the same thing by name and by position
            r["attrs"] = [{**e, "val": r["seq"][i]} for i, e in enumerate(n["attrs"])]
        else:
            r["attrs"] = [{**e, "val": go(e["val"])} for e in n["attrs"]]
        if n["k"] == "tuple" and not n["seq"]:
            return {**r, "k": "leaf", "v": "()"}
        return r

    return go(n)


def node(k, **kw):
    return {"k": k, "v": "", "id": "", "items": [], "seq": [], "attrs": [], **kw}


def rnode(rng, depth):
    if depth == 0 or rng.random() < 0.15:
        if rng.random() < 0.15:
            s = rng.choice(["a", "ab", "xyz"])
            one = lambda c: node("str", v=f"s'{c}'")
            # what a character holds is itself: two levels are enough
            chars = [node("str", v=f"s'{c}'", seq=[one(c)]) for c in s]
            return node("str", v=f"s'{s}'", seq=chars)
        return node("leaf", v=rng.choice(list(VALUES)))
    k = rng.choice(["dict", "dict", "ud", "mp", "list", "list", "tuple", "ul", "nt", "obj", "slots", "ns", "both", "prop"])
    sub = lambda: rnode(rng, depth - 1)
    ents = lambda keys: [{"key": key, "val": sub()} for key in rng.sample(keys, rng.randrange(min(4, len(keys)) + 1))]
    if k in ("dict", "ud", "mp"):
        return node(k, items=ents(COMMON))
    if k in ("list", "tuple", "ul"):
        return node(k, seq=[sub() for _ in range(rng.randrange(4))])
    if k == "nt":
        names = rng.sample(NAMES, rng.randrange(1, 4))
        seq = [sub() for _ in names]
        return node(k, seq=seq, attrs=[{"key": a, "val": x} for a, x in zip(names, seq)])
    if k == "both":
        return node(k, items=ents(COMMON), attrs=ents(NAMES))
    return node(k, attrs=ents(NAMES))


def rpath(rng, n, p=0.85, most=6):
    """mostly along what is there"""
    path = []
    while len(path) < most:
        if n is None or rng.random() > p:
            if rng.random() < 0.6:
                break
            path.append(rng.choice(COMMON + ["[1]"]))
            n = None
            continue
        nexts = [(e["key"], e["val"]) for e in n["items"] + n["attrs"]]
        nexts += [(str(i), x) for i, x in enumerate(n["seq"]) if str(i) in KEYS]
        nexts += [(str(i - len(n["seq"])), x) for i, x in enumerate(n["seq"]) if str(i - len(n["seq"])) in KEYS]
        if not nexts:
            n = None
            if rng.random() < 0.5:
                break
            continue
        key, n = rng.choice(nexts)
        path.append(key)
    return path


def deep_string(n, path):
    """does the path lead further into a string than the structure says?"""
    run = 1 if n["k"] == "str" else 0
    for key in path:
        nxt = [e["val"] for e in n["items"] + n["attrs"] if e["key"] == key]
        size = len(n["seq"])
        nxt = nxt[:1] if n["items"] or n["attrs"] else nxt
        pos = [i for i in range(size) if key in (str(i), str(i - size))]
        if nxt and n["k"] != "nt":
            n = nxt[0]
        elif pos:
            n = n["seq"][pos[0]]
        elif nxt:
            n = nxt[0]
        else:
            return False
        run = run + 1 if n["k"] == "str" else 0
        if run >= 3:
            return True
    return False


def large(rng):
    """long sequences, or long ways"""
    if rng.random() < 0.5:
        seq = [rnode(rng, 1 if rng.random() < 0.2 else 0) for _ in range(rng.randrange(9, 40))]
        n = node(rng.choice(["list", "tuple", "ul"]), seq=seq)
        return n if rng.random() < 0.5 else node("dict", items=[{"key": "s'a'", "val": n}])
    n = rnode(rng, 1)
    for _ in range(rng.randrange(7, 14)):
        k = rng.choice(["dict", "mp", "list", "tuple", "obj", "ns", "both"])
        if k in ("list", "tuple"):
            seq = [rnode(rng, 0) for _ in range(rng.randrange(2))] + [n]
            n = node(k, seq=seq)
        else:
            ents = [{"key": rng.choice(NAMES), "val": n}]
            n = node(k, **{"attrs" if k in ("obj", "ns") or rng.random() < 0.3 and k == "both" else "items": ents})
    return n


def call(rng, n, p=0.85, most=6):
    path = rpath(rng, n, p, most)
    while deep_string(n, path):
        path = rpath(rng, n, p, most)
    if path and rng.random() < 0.25:
        return {"fn": "one", "root": n, "path": path[:1], "default": ""}
    return {"fn": "get", "root": n, "path": path, "default": rng.choice(["None", "None", "D", "0", "1"]),
            "bare": rng.random() < 0.5, "iter": rng.choice([0, 0, 1, 2, 3])}


def run(ctx):
    rng = ctx.rng()
    text = (SPEC / "MCLookup.cfg").read_text()
    res = ctx.model("MCLookup", cfg_text=text.replace("Depth = 1", f"Depth = {ctx.scale(1, 2)}"))
    nodes = [number(n) for n in res.json_printed("NODE")]
    ctx.note("structures_enumerated", len(nodes))
    for b in ("attrfirst", "falsy", "nonegative"):
        ctx.model_fails("MCLookup", b, cfg_text=text.replace('"none"', f'"{b}"'))
    calls = [call(rng, n) for n in nodes for _ in range(ctx.scale(8, 8))]
    calls += [call(rng, number(rnode(rng, rng.choice([1, 2, 3, 4])))) for _ in range(ctx.scale(4000, 100000))]
    calls += [call(rng, number(large(rng)), 0.98, 16) for _ in range(ctx.scale(150, 3000))]
    cases = [{"ops": calls[i:i + 40]} for i in range(0, len(calls), 40)]
    hist = record(ctx, play, cases, "TraceLookup", "lookups", limit=60, batch=2000, heap="6g")
    if not ctx.violations:
        r = ctx.rng("corrupt")
        bad = []
        for h in hist[:25]:
            e = copy.deepcopy(r.choice(h["ev"]))
            e["out"] += "?"
            bad.append({"ev": [e]})
        must_reject(ctx, "TraceLookup", bad)
    ctx.assumptions.append("keys are not names that every object has (such as methods of dict)")
