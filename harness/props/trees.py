"""what S01 to S04 have in common."""
import copy
import json

from lib import SPEC, MachineryError, record
from selftest import must_reject
from treehost import COMMON, KEYS, LEAVES, WIDE, play
from canon import canon

A, B, W = "s'a'", "s'b'", "s'w'"


def leaf(v):
    return {"k": "leaf", "v": v, "id": "", "es": []}


def number(n, start="n"):
    """give each mapping its own name"""
    c = [0]

    def go(n):
        if n["k"] == "leaf":
            return n
        c[0] += 1
        me = f"{start}{c[0]}"
        return {**n, "id": me, "es": [{**e, "val": go(e["val"])} for e in n["es"]]}

    return go(n)


def tree(rng, depth, kinds, keys, leaves, width=4, p=0.5):
    n = rng.randrange(width + 1)
    es = []
    for k in rng.sample(keys, min(n, len(keys))):
        if depth and rng.random() < p:
            v = tree(rng, depth - 1, kinds, keys, leaves, width, p)
        else:
            v = leaf(rng.choice(leaves))
        es.append({"key": k, "ks": str(KEYS[k]), "val": v})
    return {"k": rng.choice(kinds), "v": "", "id": "", "es": es}


def has(n, kind):
    return n["k"] == kind or any(has(e["val"], kind) for e in n["es"])


ALLKINDS = ["dict"] * 6 + ["od", "nd", "ud", "mp"]


def rtree(rng, depth=3, kinds=None, root="dict", p=0.5):
    keys = list(COMMON)
    if p == 0.5 and rng.random() < 0.025:
        kinds = kinds or rng.choice([["dict"], ALLKINDS])
        t = large(rng, kinds)
        if rng.random() < 0.5:
            # the large one further down
            t = {"k": "dict", "v": "", "id": "", "es": [
                {"key": k, "ks": str(KEYS[k]), "val": t if k == B else tree(rng, 1, kinds, [A, B], list(LEAVES), 2)}
                for k in rng.choice([[A, B], [B, A], [B]])]}
        return {**t, "k": root}
    if rng.random() < 0.5:
        keys = [A, B, "s'c'", "1"]
    t = tree(rng, depth, kinds or rng.choice([["dict"], ALLKINDS]), keys, list(LEAVES), rng.choice([2, 3, 4]), p)
    if rng.random() < 0.1:
        twice(rng, t, keys)
    return {**t, "k": root}


def twice(rng, t, keys):
    """put one of the mappings under another key as well (perhaps as the same object)"""
    nodes, todo = [], [t]
    while todo:
        n = todo.pop()
        nodes.append(n)
        todo += [e["val"] for e in n["es"]]
    maps = [n for n in nodes if n["k"] != "leaf" and n is not t]
    free = [k for k in keys if k not in [e["key"] for e in t["es"]]]
    if maps and free:
        k = rng.choice(free)
        t["es"].append({"key": k, "ks": str(KEYS[k]), "val": copy.deepcopy(rng.choice(maps))})


def large(rng, kinds):
    """a very wide mapping, or a chain of very many"""
    leaves = list(LEAVES)
    if rng.random() < 0.5:
        keys = COMMON + [canon(k) for k in WIDE]
        es = []
        for k in rng.sample(keys, rng.randrange(25, 50)):
            v = tree(rng, 1, kinds, [A, B, "1"], leaves, 2) if rng.random() < 0.4 else leaf(rng.choice(leaves))
            es.append({"key": k, "ks": str(KEYS[k]), "val": v})
        return {"k": "dict", "v": "", "id": "", "es": es}
    t = tree(rng, 0, kinds, [A, B], leaves, 2)
    for _ in range(rng.randrange(8, 14)):
        es = [{"key": k, "ks": str(KEYS[k]), "val": leaf(rng.choice(leaves))}
              for k in rng.sample([A, B, "1", "s'c'"], 2)]
        es[rng.randrange(2)]["val"] = t
        t = {"k": rng.choice(kinds), "v": "", "id": "", "es": es[: 2 if rng.random() < 0.5 else 1]
             if es[0]["val"] is t else es}
    return t


def mts(rng, mutable=False):
    c = [["dict"], ["dict"], ["od"], ["dict", "ud"], ["ud"], ["nd"]]
    return rng.choice(c + ([] if mutable else [["Mapping"]] * 2))


def pred(rng, hows=None):
    how = rng.choice(hows or ["key-eq"] * 3 + ["key-ne", "key-in", "val-eq", "val-eq", "val-ne", "item-eq",
                                               "is-map", "is-leaf", "any", "none"])
    p = {"how": how, "ref": [], "val": "", "const": rng.random() < 0.6, "match": rng.choice(["key", "value", "item"])}
    keys, leaves = [A, A, B, "1", "None"], ["1", "1", "2", "s'x'", "None", "s''", "[]", "[1]"]
    if how.startswith("key") or how == "item-eq":
        p["ref"] = [rng.choice(keys)] if how != "key-in" else rng.sample(list(set(keys)), 2)
    if how.startswith("val"):
        p["ref"] = [rng.choice(leaves)]
    if how == "item-eq":
        p["val"] = rng.choice(leaves)
    return p


def dig(rng, t):
    m = mts(rng)
    return {"share": rng.random() < 0.3, "fn": rng.choice(["all", "one"]), "form": rng.choice(["keys", "values", "items"]), "root": t,
            "mts": m, "default": m == ["dict"] and rng.random() < 0.5, "pred": pred(rng), "style": rng.choice([0, 0, 1, 2])}


def edit(rng, t):
    m = mts(rng, True)
    how = rng.choice(["const", "const", "same", "wrap", "empty", "grow", "step", "key", "first"])
    s = {"how": how, "v": rng.choice(["1", "2", "9", "None", "[]"])}
    if how in ("wrap", "grow"):
        p = pred(rng, ["key-eq"])
        p["ref"] = [A] if how == "grow" else [rng.choice([A, B, "1"])]
    elif how == "step":
        p = {"how": "key-in", "ref": [A, B], "val": ""}
    elif how in ("empty", "first"):
        p = pred(rng)
    else:
        p = pred(rng)
    return {"fn": "edit", "root": t, "mts": m, "default": m == ["dict"] and rng.random() < 0.5, "pred": p,
            "setter": s, "style": rng.choice([0, 0, 1, 2])}


def unnest(rng, t):
    m = mts(rng)
    t = {**t, "k": rng.choice([k if k != "Mapping" else "mp" for k in m])}
    return {"share": rng.random() < 0.3, "fn": "unnest", "root": t, "mts": m, "default": m == ["dict"] and rng.random() < 0.5,
            "esc": rng.choice(["", "", "'", "~", "::"])}


def levels(n):
    return 1 + max([levels(e["val"]) for e in n["es"]], default=0) if n["k"] != "leaf" else 0


def records(rng, t):
    # the top level holds mappings only
    t = {**t, "es": [e for e in t["es"] if e["val"]["k"] != "leaf"]}
    need = levels(t) + 1
    given = rng.choice(["", "list", "iter"])
    names = [str(i) for i in range(1, need + 1)]
    if given:
        names = rng.sample(COMMON, min(need, len(COMMON))) + ["s'L%d'" % i for i in range(need)]
    return {"share": rng.random() < 0.3, "fn": "records", "root": t, "names": names, "given": given}


def merge(rng, t, u):
    m = rng.choice([["dict", "od"]] * 3 + [["dict"], ["od"], ["dict", "ud"], ["Mapping"]])
    return {"share": rng.random() < 0.1, "fn": "merge", "root": t, "other": u, "mts": m, "default": m == ["dict", "od"] and rng.random() < 0.6}


def nest(rng):
    ops = []
    for _ in range(rng.randrange(1, 9)):
        ops.append({"path": [rng.choice([A, B, "1", "None"]) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))],
                    "val": rng.choice(["1", "2", "s'x'", "[1]", "", ""])})
    return {"fn": "nest", "ops": ops}


def corrupt(hist, rng):
    bad = []
    for h in hist:
        e = copy.deepcopy(rng.choice(h["ev"]))
        k = e["fn"]
        if k in ("all", "one") and e["found"]:
            e["found"][0] += "?"
        elif k in ("edit", "merge", "nest") and e["out"]["es"]:
            n = e["out"]
            n["es"].pop()
        elif k == "unnest" and e["pairs"]:
            e["pairs"].pop()
        elif k == "records" and e["rows"]:
            e["rows"].pop()
        else:
            continue
        bad.append({"ev": [e]})
        if len(bad) >= 20:
            break
    return bad


def models(ctx, bugs, two=False):
    """laws of the definitions, over all trees up to the bound; returns the trees"""
    one = (SPEC / "MCTrees.cfg").read_text()
    kinds = '"dict", "od"'
    cfgs = {
        "one": one,
        "long": one.replace('"one"', '"long"').replace("Depth = 1", f"Depth = {ctx.scale(3, 4)}").replace(kinds, '"dict"'),
        "two": one.replace('"one"', '"two"').replace(kinds, '"dict"').replace('"1", "2"', '"1"').split("INVARIANTS")[0]
        + "INVARIANTS MergeSeconds MergeFirsts MergeAssocs\n",
        "deep": one.replace("Depth = 1", "Depth = 2").replace(kinds, '"dict"').replace('"1", "2"', '"1"'),
    }
    trees = []
    for k in ["two"] if two else ["one", "long"] + (["deep"] if ctx.thorough else []):
        res = ctx.model("MCTrees", cfg_text=cfgs[k], timeout=1500)
        trees += res.json_printed("TREE")
    for b, k in bugs:
        ctx.model_fails("MCTrees", b, cfg_text=cfgs[k].replace('"none"', f'"{b}"'))
    ctx.note("trees_enumerated", len(trees))
    return trees


def check(ctx, calls, per=40):
    cases = [{"ops": calls[i:i + per]} for i in range(0, len(calls), per)]
    hist = record(ctx, play, cases, "TraceTrees", "nested mappings", limit=60, batch=500, heap="6g")
    if not ctx.violations:
        must_reject(ctx, "TraceTrees", corrupt(hist, ctx.rng("corrupt")))
    return hist


def fix(t):
    return number(t)
