"""what D01 and D02 have in common."""
import copy
import json

from dynhost import play
from lib import SPEC, edges_of, record, tours
from selftest import must_reject


def from_walk(ix, walk, rng):
    ops = []
    for _, e, _ in walk:
        o = {"op": e["op"], "i": e["i"], "s": e["s"], "b": e["b"], "o": e["o"]}
        if e["op"] == "new":
            o.update(opt=e["b"], lazy=e["x"].startswith("TRUE"), loc=e["x"].endswith("TRUE"), g="g",
                     b=False, full=rng.random() < 0.5)
        elif e["op"] == "from":
            o.update(opt=e["b"], lazy=rng.random() < 0.5, b=False)
        elif e["op"] == "call":
            o.update(x=e["x"] if e["x"] != "val" else rng.choice(["val", "key", "own", "deep", "stop"]),
                     how="one")
        ops.append(o)
    return {"ix": ix, "ops": ops}


def random_case(ix, rng, w, length):
    ids, ops = [], []

    def make(i):
        if rng.random() < 0.3:
            ops.append({"op": "from", "i": i, "s": rng.choice(["h1", "h2"])})
        else:
            ops.append({"op": "new", "i": i, "s": rng.choices(
                ["v1", "v2", "v3", "v4", "h1", "bad", "empty", "none"], [4, 3, 3, 3, 1, 1, 1, .5])[0]})
        ops[-1].update(g=rng.choice(["", "g", "g", "k", "e"]), opt=rng.random() < 0.5, lazy=rng.random() < 0.5,
                       loc=rng.random() < 0.8, full=rng.random() < 0.3)
        ids.append(i)

    make("a")
    kinds = list(w)
    while len(ops) < length:
        op = rng.choices(kinds, [w[k] for k in kinds])[0]
        if op == "new":
            make(rng.choice("abcd"))
            continue
        e = {"op": op, "i": rng.choice(ids)}
        if op in ("load", "compile", "define", "opt", "loc"):
            e["b"] = rng.random() < 0.6
        if op == "src":
            e["s"] = rng.choices(["v1", "v2", "v3", "v4", "bad", "empty"], [4, 3, 3, 3, 2, 1])[0]
        if op == "call":
            e["x"] = rng.choices(["fine", "val", "key", "stop", "kbd", "exit", "own", "deep"],
                                 [6, 3, 1, 1, 2, 1, 1, 1])[0]
            e["o"] = rng.choice(["", "", "yes", "no"])
            if e["x"] == "exit":
                e["x"] = rng.choice(["exit", "exit0", "exitnone"])
            e["how"] = rng.choice(["one", "one", "one", "two", "kw"])
        ops.append(e)
        if op == "compile" and rng.random() < 0.8:
            ops.append({"op": "define", "i": e["i"], "b": rng.random() < 0.8})
    return {"ix": ix, "ops": ops}


def corrupt(hist, rng):
    bad = []
    for h in hist:
        h = copy.deepcopy(h)
        k = rng.choice(["out", "flag", "errs", "ver", "opt"])
        e = rng.choice(h["ev"])
        if not e["see"]:
            continue
        s = rng.choice(e["see"])
        if k == "out" and e["out"].startswith("ret:") and e["out"] != "ret:None":
            e["out"] = "ret:None"
        elif k == "flag":
            s["cfail"] = not s["cfail"]
        elif k == "errs" and s["errs"]:
            s["errs"].pop()
        elif k == "ver" and s["ver"]:
            s["ver"] = "v9"
        elif k == "opt":
            s["opt"] = not s["opt"]
        else:
            continue
        bad.append(h)
        if len(bad) >= 20:
            break
    return bad


def run(ctx, bugs, w, nrand, chunk=40):
    rng = ctx.rng()
    text = (SPEC / "MCDynamic.cfg").read_text()
    cases = []
    res = ctx.model("MCDynamic", cfg_text=text)
    edges = edges_of(res)
    init = json.dumps(res.json_printed("INIT")[0], sort_keys=True)
    walks = list(tours(edges, init, maxlen=chunk, rng=rng))
    ctx.note("model_transitions_replayed", len(edges))
    cases += [from_walk(len(cases) + i, x, rng) for i, x in enumerate(walks)]
    two = text.replace("Most = 1", f"Most = {ctx.scale(1, 2)}").replace('"cycle"', '"two"')
    ctx.extra["two_instances"] = ctx.model("MCDynamic", cfg_text=two).distinct
    for b, mode in bugs:
        ctx.model_fails("MCDynamic", b, cfg_text=text.replace('"none"', f'"{b}"').replace('"cycle"', f'"{mode}"'))
    n = ctx.scale(nrand, nrand * 20)
    cases += [random_case(len(cases) + i, rng, w, rng.choice([10, 25, 50])) for i in range(n)]
    cases += [random_case(len(cases) + i, rng, w, 220) for i in range(ctx.scale(3, 30))]
    few = {k: 100 if k == "call" else 2 if k == "opt" else .1 for k in w}
    cases += [random_case(len(cases) + i, rng, few, 150) for i in range(ctx.scale(2, 20))]
    hist = record(ctx, play, cases, "TraceDynamic", "dynamic functions", limit=30, batch=2000, heap="6g")
    if not ctx.violations:
        must_reject(ctx, "TraceDynamic", corrupt(hist, ctx.rng("corrupt")))
    ctx.assumptions += [
        "sources define one function without default arguments, decorators or closures; whether "
        "constructing from uncompilable source raises is left open",
    ]
