"""S06: collection helpers return exact, order-preserving results."""
import copy
import itertools
import json

from collhost import MANY, THINGS_LISTED as TH, play
from lib import SPEC, edges_of, record, tours
from selftest import must_reject

MAPS = ["dict", "od", "ud", "mp"]


def some(rng, n=5, distinct=False, of=None):
    if of is None and rng.random() < 0.02:
        of = TH + MANY[:-1]
        return rng.sample(of, 40 + rng.randrange(50)) if distinct else rng.choices(of, k=rng.randrange(20, 150))
    of = of or TH
    return rng.sample(of, rng.randrange(n + 1)) if distinct else [rng.choice(of) for _ in range(rng.randrange(n + 1))]


def pairs(rng, n=5):
    return [[k, rng.choice(TH)] for k in some(rng, n, True)]


def call(rng):
    fn = rng.choice(["listify", "reindex", "enumerate", "after", "after", "getall", "separate"])
    e = {"fn": fn}
    if fn == "listify":
        e["kind"] = rng.choice(["str", "atom", "list", "tuple", "set", "frozenset", "deque", "ul", "gen", "iter", "keys",
                                "dict", "array", "bytes", "range"])
        if e["kind"] == "str":
            e["x"] = rng.choice(["s'a'", "s''", "s'text'"])
        elif e["kind"] == "atom":
            e["x"] = rng.choice(["0", "1", "None", "2.5"])
        elif e["kind"] == "bytes":
            e["els"] = some(rng, of=["0", "1", "2"])
        else:
            e["els"] = some(rng, distinct=e["kind"] in ("keys", "dict", "set", "frozenset"))
    elif fn == "reindex":
        e.update(rng.choice([{"kind": "map", "how": rng.choice(MAPS), "ps": pairs(rng)}] * 4
                            + [{"kind": "other", "how": rng.choice(["list", "tuple", "iter"]), "els": some(rng)}]))
    elif fn == "enumerate":
        e.update(rng.choice([{"kind": "map", "how": rng.choice(MAPS), "ps": pairs(rng)}, {"kind": "none"}]
                            + [{"kind": "seq", "els": some(rng), "how": rng.choice(
                                ["list", "tuple", "gen", "iter", "deque", "array", "ul"])}] * 3))
    elif fn == "after":
        ps = pairs(rng)
        old = [p[0] for p in ps]
        new = rng.choice([t for t in TH + MANY[-1:] if t not in old])
        e.update(kind="map", how=rng.choice(MAPS), ps=ps, x=new, val=rng.choice(TH),
                 key=rng.choice((old or TH) if rng.random() < 0.85 else [t for t in TH if t != new]))
    elif fn == "getall":
        ms = [pairs(rng, 4) for _ in range(rng.randrange(5))]
        keys = [p[0] for m in ms for p in m] or TH
        e.update(how=rng.choice(["list", "tuple", "iter", "dict", "mp"]), ms=ms, hows=[rng.choice(MAPS) for _ in ms],
                 key=rng.choice(keys if rng.random() < 0.8 else TH), x=rng.choice(["None", "None"] + TH),
                 bare=rng.random() < 0.6)
    elif fn == "separate":
        els = some(rng, 7)
        e.update(els=els, yes=some(rng, 5, True), how=rng.choice(["list", "tuple", "gen", "iter", "deque"]))
    return e


def small():
    """everything small"""
    for n in range(4):
        for els in itertools.product(["0", "s'a'", "None"], repeat=n):
            for yes in ([], ["0"], ["0", "None"], ["0", "s'a'", "None"]):
                yield {"fn": "separate", "els": list(els), "yes": yes, "how": "list"}
            yield {"fn": "enumerate", "kind": "seq", "els": list(els), "how": "gen"}
            yield {"fn": "listify", "kind": "tuple", "els": list(els)}
    for n in range(4):
        for ks in itertools.permutations(["0", "s'a'", "None"], n):
            for vs in itertools.product(["0", "s''"], repeat=n):
                ps = [[k, v] for k, v in zip(ks, vs)]
                yield {"fn": "reindex", "kind": "map", "how": "dict", "ps": ps}
                for key in ["0", "s'a'", "None"]:
                    yield {"fn": "after", "kind": "map", "how": "dict", "ps": ps, "x": "1", "val": "2", "key": key}
                    yield {"fn": "getall", "how": "list", "ms": [ps, ps[1:]], "hows": ["dict", "mp"], "key": key,
                           "x": "2", "bare": False}


def run(ctx):
    rng = ctx.rng()
    text = (SPEC / "MCColl.cfg").read_text()
    res = ctx.model("MCColl")
    for b in ("replace", "noshare"):
        ctx.model_fails("MCColl", b, cfg_text=text.replace('"none"', f'"{b}"'))
    edges = edges_of(res)
    init = json.dumps(res.json_printed("INIT")[0], sort_keys=True)
    key = {"k1": "s'a'", "k2": "0"}
    cases = []
    for walk in tours(edges, init, maxlen=30, rng=rng):
        how, ops = rng.choice(["hash", "fn"]), []
        for _, e, _ in walk:
            ops.append({"fn": "assign", "key": key[e["key"]], "x": e["item"], "val": e["class"], "how": how})
            ops += [{"fn": "look", "key": k, "how": how} for k in key.values()]
        cases.append({"ops": ops})
    for _ in range(ctx.scale(80, 2000)):
        how, ops = rng.choice(["hash", "fn"]), []
        big = rng.random() < 0.1
        items = [("i%d" % i, "c%d" % rng.randrange(60 if big else 5)) for i in range(80 if big else 10)]
        for _ in range(150 if big else rng.choice([10, 30])):
            i = rng.choice(items)
            k = rng.choice(MANY if big else TH[:5])
            ops.append({"fn": "assign", "key": k, "x": i[0], "val": i[1], "how": how} if rng.random() < 0.6 else
                       {"fn": "look", "key": k, "how": how})
        cases.append({"ops": ops})
    calls = list(small()) + [call(rng) for _ in range(ctx.scale(6000, 150000))]
    ctx.note("small_inputs", len(list(small())))
    cases += [{"ops": calls[i:i + 40]} for i in range(0, len(calls), 40)]
    hist = record(ctx, play, cases, "TraceColl", "collections", limit=60, batch=2000, heap="6g")
    if not ctx.violations:
        r = ctx.rng("corrupt")
        bad = []
        for h in hist[-60:]:
            e = copy.deepcopy(r.choice(h["ev"]))
            if e["fn"] in ("listify", "getall", "after", "enumerate") and e["out"] and len(bad) < 20:
                e["out"] = e["out"][:-1] + (e["out"][-1:] if False else [])
                bad.append({"ev": [e]})
        must_reject(ctx, "TraceColl", bad)
    ctx.assumptions.append("insert_after: the new key is not there yet; predicates return booleans")
