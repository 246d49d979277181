"""what T01 and T02 have in common."""
import copy

from lib import SPEC, edges_of, record, tours
from selftest import must_reject
from trackhost import BAD, CALLERS, NAMES, VALUES, play

FIELDS = ["m", "q", "step", "target", "caller", "trackcount", "lineno", "name", "history"]


def from_walk(ix, walk, rng):
    same = rng.choice([0, 1])
    ops = [{"op": "new", "t": t, "name": "n" + t if not same else "log", "path": "p" if same else "p",
            "dir": ".", "ident": ""} for t in "ab"]
    # two trackers share a file if they have the same name
    for o in ops:
        o["name"] = "log"
    vals = {"1": rng.choice(list(VALUES)), "2": rng.choice(list(VALUES)),
            "!o": rng.choice(["!o", "!o2", "!o3", "!o4"]), "!c": "!c"}
    for _, e, _ in walk:
        ops.append({"op": e["op"], "t": e["t"], "x": e["x"],
                    "kw": [[k, vals[v]] for k, v in e["kw"]],
                    "caller": rng.choice(list(CALLERS)), "target": rng.choice(list(NAMES))})
    return {"ix": ix, "ops": ops}


def random_case(ix, rng, w, length):
    paths = [("log", "", "."), ("log", "x", "."), ("other", "", "."), ("log", "", "sub"), (None, "", ".")]
    paths = rng.sample(paths, rng.choice([1, 1, 2, 3]))
    ops, ts = [], []

    def new():
        i = rng.randrange(len(paths))
        t = f"t{len(ts)}"
        ts.append(t)
        name, ident, d = paths[i]
        ops.append({"op": "new", "t": t, "name": name, "ident": ident, "dir": d, "path": f"p{i}"})

    new()
    good = list(VALUES)
    bad = list(BAD)

    def kws(p):
        return [[k, rng.choice(bad) if rng.random() < p else rng.choice(good)]
                for k in rng.sample(FIELDS, rng.choice([0, 0, 1, 1, 2, 3]))]

    kinds = list(w)
    while len(ops) < length:
        op = rng.choices(kinds, [w[k] for k in kinds])[0]
        if op == "new":
            if len(ts) < 4:
                new()
            continue
        e = {"op": op, "t": rng.choice(ts)}
        if op == "track":
            e.update(kw=kws(0.04), caller=rng.choice(list(CALLERS)), target=rng.choice(list(NAMES)))
        elif op == "set":
            e["kw"] = kws(0.08)
        elif op == "pause":
            e["x"] = rng.random() < 0.4
        ops.append(e)
    return {"ix": ix, "ops": ops}


def corrupt(hist, rng):
    bad = []
    for h in hist[:20]:
        h = copy.deepcopy(h)
        e = rng.choice(h["ev"])
        hs = [p[1] for p in e["hists"] if p[1]]
        fs = [p[1] for p in e["files"] if p[1]["dumps"]]
        kind = rng.choice(["rec", "dump", "ok", "there"])
        if kind == "rec" and hs:
            rng.choice(hs).pop()
        elif kind == "dump" and fs:
            f = rng.choice(fs)
            f["dumps"] = f["dumps"] + [f["dumps"][-1]]
        elif kind == "ok" and e["files"]:
            rng.choice(e["files"])[1]["ok"] = False
        elif e["files"]:
            f = rng.choice(e["files"])[1]
            f["there"] = not f["there"]
        else:
            continue
        bad.append(h)
    return bad


def run(ctx, bugs, w, nrand, length, chunk=60):
    rng = ctx.rng()
    text = (SPEC / "MCTracker.cfg").read_text()
    res = ctx.model("MCTracker")
    big = text.replace("Most = 1", "Most = 2")
    ctx.model("MCTracker", cfg_text=big)
    for b in bugs:
        ctx.model_fails("MCTracker", b, cfg_text=big.replace('"none"', f'"{b}"'))
    edges = edges_of(res)
    init = [x for x in res.json_printed("INIT")]
    import json

    walks = list(tours(edges, json.dumps(init[0], sort_keys=True), maxlen=chunk, rng=rng))
    ctx.note("model_transitions_replayed", len(edges))
    cases = [from_walk(i, x, rng) for i, x in enumerate(walks)]
    n = ctx.scale(nrand, nrand * 15)
    cases += [random_case(len(cases) + i, rng, w, rng.choice(length)) for i in range(n)]
    cases += [random_case(len(cases) + i, rng, w, 220) for i in range(ctx.scale(2, 20))]
    # one history of very many records
    few = {k: v * (30 if k == "track" else 0 if k == "new" else .1) for k, v in w.items()}
    cases += [random_case(len(cases) + i, rng, few, 280) for i in range(ctx.scale(1, 5))]
    hist = record(ctx, play, cases, "TraceTracker", "trackers", limit=30, batch=1500, heap="6g")
    if not ctx.violations:
        must_reject(ctx, "TraceTracker", corrupt(hist, ctx.rng("corrupt")))
    ctx.assumptions += [
        "metadata values are JSON values or things that can't be written; what happens to a "
        "mutable metadata value later is its owner's business; one process per log file",
    ]
