"""stack wrappers around a function and call it; call the other helpers."""
from collections import OrderedDict, deque
from functools import partial
from operator import or_, xor

from canon import canon, fresh
from lib import Hang

BLANK = {"stack": [], "base": "", "args": [], "kw": [], "calls": [], "told": [], "exc": "", "out": [], "outs": [],
         "n": 0, "els": [], "yes": [], "ms": [], "how": "", "kind": ""}
THINGS = {canon(v): v for v in [0, 1, 2, 3, "", "a", "b", None, 2.5, (1,), 1000, "text"]}
COMMON = list(THINGS)
# for long collections
MANY = [str(i) for i in range(10, 70)]
THINGS.update((t, int(t)) for t in MANY)


class Value:
    """a thing with a name, so that what arrives can be told apart"""

    def __init__(self, v):
        self.v = v


def value(x, seq=tuple):
    return seq(value(y) for y in x["es"]) if x["s"] else Value(x["v"])


def text(x):
    if isinstance(x, Value):
        return x.v
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(map(text, x)) + ")"
    return canon(x)


EXC = {"ValueError": ValueError, "KeyError": KeyError, "StopIteration": StopIteration, "TypeError": TypeError,
       "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}


def call(e):
    from dustgoggles import func as F

    calls, told = [], []

    def base(*args, **kw):
        c = ",".join(map(text, args)) + "|" + ",".join(f"{k}={text(v)}" for k, v in sorted(kw.items()))
        calls.append(c)
        if e["base"]:
            raise EXC[e["base"]]("base")
        return Value(f"ret[{c}]")

    f = base
    for w in reversed(e["stack"]):
        k = w["w"]
        if k == "argstop":
            f = F.argstop(f, w["n"], w["b"]) if not (w["n"] == 0 and w["b"]) else F.argstop(f)
        elif k == "splat":
            f = F.splat(f)
        elif k == "optional":
            f = F.optionalize(f, lambda ex: told.append(type(ex).__name__) or "told") if w["b"] else F.optionalize(f)
        elif k == "trigger":
            f = F.triggerize(f)
        elif k == "pass":
            f = partial(F.pass_parameters, f)
        elif k == "catch":
            f = partial(F.catch_interaction, w["b"], f, _default=Value(w["v"]))
        elif k == "constant":
            f = F.constant(Value(w["v"]))
        elif k == "zero":
            f = F.zero
    out, exc = [], ""
    try:
        out = [text(f(*[value(a, tuple if i % 2 == 0 else list) for i, a in enumerate(e["args"])],
                      **{k: Value(v) for k, v in e["kw"]}))]
    except Hang:
        raise
    except BaseException as ex:
        exc = type(ex).__name__
    return {**e, "calls": calls, "told": told, "out": out, "exc": exc}


def coll(how, toks):
    xs = [fresh(THINGS[t]) for t in toks]
    return {"list": list, "tuple": tuple, "set": set, "gen": lambda x: (y for y in x), "iter": iter,
            "dict": dict.fromkeys, "deque": deque}[how](xs)


TYPES = {"int": int, "str": str, "float": float, "NoneType": type(None), "tuple": tuple}


def other(e):
    from dustgoggles import func as F

    fn = e["fn"]
    if fn == "naturals":
        it = F.naturals()
        return [canon(next(it)) for _ in range(e["n"])]
    if fn == "are_in":
        items = coll(e["kind"], e["els"])
        f = F.are_in(items, or_ if e["how"] == "or" else xor) if e["how"] else F.are_in(items)
        got = f(coll(e["cont"], e["yes"]))
        again = f(coll(e["cont"], e["yes"]))   # can be used more than once
        return [canon(got)] if got == again else ["differs"]
    if fn == "is_it":
        x = fresh(THINGS[e["els"][0]])
        e["kind"] = type(x).__name__
        return [canon(F.is_it(*[TYPES[t] for t in e["yes"]])(x))]
    if fn == "gmap":
        seen = []

        def f(*args):
            seen.append(args)
            return "ret[" + ",".join(map(canon, args)) + "|]"

        its = [coll(h, m) for h, m in zip(e["hows"], e["ms"])]
        kw = {}
        if e["how"] == "list":
            kw["evaluator"] = list
        if e["how"] == "starmap":
            # one iterable of tuples
            from itertools import starmap

            its, kw["mapper"] = [zip(*its)], starmap
        got = F.gmap(f, *its, **kw)
        assert isinstance(got, list if e["how"] == "list" else tuple)
        assert len(seen) == len(got)
        return list(got)
    if fn == "filtern":
        yes = set(e["yes"])
        try:
            return [canon(F.filtern(lambda x: canon(x) in yes, coll(e["how"], e["els"])))]
        except StopIteration:
            return ["EXC:StopIteration"]
    ms = [coll(h, m) for h, m in zip(e["hows"], e["ms"])]
    if fn == "intersection":
        return [canon(x) for x in F.intersection(*ms)]
    e["outs"] = [[canon(x) for x in o] for o in F.disjoint(*ms)]
    return []


def do(e):
    e = {**BLANK, **e}
    if e["fn"] == "call":
        return call(e)
    try:
        e["out"] = other(e)
    except Hang:
        raise
    except BaseException as ex:
        e["exc"] = type(ex).__name__
    return e


def play(case):
    return {"ev": [do(e) for e in case["ops"]]}
