"""what P01-P04 have in common: the pipeline machine, and the code bound to it."""
import copy

from lib import record
from pipegen import Gen
from pipehost import play
from selftest import must_reject


def cfg(mode, edits, execs, bug="none"):
    return f"""SPECIFICATION Spec
CONSTANTS
  Bug = "{bug}"
  Mode = "{mode}"
  Edits = {edits}
  Execs = {execs}
INVARIANTS Report AllSteps FaultStops Unchanged Tracked Reported
PROPERTY SignalKept
CHECK_DEADLOCK FALSE
"""


def from_model(ix, ops, rng):
    ops = [dict(o) for o in ops]
    for o in ops:
        o.setdefault("ins", [])
        o.setdefault("snd", [])
        for f in [o["f"]] if "f" in o else [s["f"] for s in o.get("steps", [])]:
            f["how"] = rng.choice(["", "", "dynamic", "object"]) if f["kind"] == "plain" else ""
        if o["op"] == "exec":
            o["how"] = rng.choice(["", "call", "kw"])
    if rng.random() < 0.5:
        # the same as an iteration
        k = [i for i, o in enumerate(ops) if o["op"] == "exec" and not o["at"]]
        if k and not ops[0]["opt"]:
            o = ops[k[0]]
            n = 2 + sum(p["op"] == "add_step" for p in ops)
            ops[k[0]:k[0] + 1] = [{"op": "itnew", "c": "A", "it": "t", "v": o["v"]}] + [
                {"op": "itnext", "c": "A", "it": "t"} for _ in range(n + 1)]
    return {"ix": ix, "lists": [["l", ["x"]]], "dicts": ["d"], "files": ["o"], "ops": ops}


def corrupt(hist, rng):
    bad = []
    for h in hist[:24]:
        h = copy.deepcopy(h)
        ex = [e for e in h["ev"] if e["op"] == "exec"]
        if not ex:
            continue
        e = rng.choice(ex)
        kind = rng.choice(["out", "log", "swap", "idx", "list", "hist"])
        if kind == "log" and e["log"]:
            e["log"] = e["log"][:-1]
        elif kind == "swap" and len(set(e["log"])) > 1:
            e["log"] = e["log"][::-1] if e["log"] != e["log"][::-1] else e["log"][1:]
        elif kind == "idx":
            e["sidx"] = e["sidx"] + ["szz"]
        elif kind == "list":
            e["lists"][0][1] = e["lists"][0][1] + ["zz"]
        elif kind == "hist":
            e["hist"] = e["hist"] + [{"t": "zz", "step": "sa", "exc": ""}]
        else:
            e["out"] = e["out"] + "z"
        bad.append(h)
    return bad


def run(ctx, mode, edits, execs, weights, bugs, quick, nrand, deep):
    """quick, nrand: how many model and random histories. deep: thorough bounds"""
    rng = ctx.rng()
    if ctx.thorough:
        edits, execs = deep
    res = ctx.model("MCPipe", cfg_text=cfg(mode, edits, execs), timeout=1200, heap="8g")
    for bug, m in bugs:
        ctx.model_fails("MCPipe", bug, cfg_text=cfg(m, 2, 1, bug))
    walks = res.json_printed("HIST")
    ctx.note("model_histories", len(walks))
    limit = ctx.scale(quick, 40000)
    if len(walks) > limit:
        walks = rng.sample(walks, limit)
    cases = [from_model(i, w, rng) for i, w in enumerate(walks)]
    n = ctx.scale(nrand, nrand * 12)
    gen = Gen(rng, weights)
    cases += [gen.case(len(cases) + i) for i in range(n)]
    rng.shuffle(cases)
    hist = record(ctx, play, cases, "TracePipe", "pipeline", limit=20, batch=8000, heap="6g")
    if not ctx.violations:
        must_reject(ctx, "TracePipe", corrupt(hist, ctx.rng("corrupt")))
    ctx.assumptions += [
        "steps and pipes are pure recorders: what they do besides is none of the pipeline's "
        "business; a step that raises StopIteration is reported as RuntimeError (generators do)",
    ]
