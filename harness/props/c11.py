"""C11: deactivating the shared memory tracker."""
import copy
import json
import os
import select
import subprocess
import sys
import tempfile
from pathlib import Path

from lib import edges_of, record, tours
from procs import SHM, shm_names, sweep
from selftest import must_reject

HERE = Path(__file__).resolve().parent.parent
ENDS = ["normal", "exit", "_exit", "kill", "raise"]


class Interpreter:
    def __init__(self):
        self.err = tempfile.TemporaryFile()
        env = {k: v for k, v in os.environ.items()}
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        # the tracker inherits stderr: its end of the pipe closes last
        self.p = subprocess.Popen(
            ["/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable,
             str(HERE / "interp.py"), os.environ.get("VERIF_REPO", "/repo")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            text=True, env=env, close_fds=True,
        )
        self.sem = None
        self.off = self.used_before = False
        if self.answer() != "ready":
            raise RuntimeError("interpreter did not start: " + self.p.stderr.read())

    def answer(self):
        r, _, _ = select.select([self.p.stdout], [], [], 20)
        return self.p.stdout.readline().strip() if r else "HANG"

    def ask(self, **m):
        try:
            self.p.stdin.write(json.dumps(m) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            return "DIED"
        out = self.answer()
        return out or "DIED"

    def end(self, how):
        self.p.stdin.write(json.dumps({"op": "end", "how": how}) + "\n")
        self.p.stdin.flush()
        try:
            _, err = self.p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            return "HANG", ""
        return "ok", err


def sem_exists(name):
    return name is not None and os.path.exists(f"{SHM}/sem.{name.lstrip('/')}")


def play(case):
    prefix = f"vi{os.getpid()}x{case['ix']}_"
    live, ev = {}, []
    try:
        for op in case["ops"]:
            i = op["i"]
            noise = False
            if op["op"] == "start":
                if i in live:
                    continue
                live[i] = Interpreter()
                out = "ok"
                sem = None
            else:
                if i not in live:
                    continue
                it = live[i]
                if op["op"] == "end":
                    out, err = it.end(op["how"])
                    # an interpreter that was off before it used anything has
                    # nothing to be told about shared memory
                    noise = it.off and not it.used_before and (
                        "KeyError" in err or "shared_memory object" in err)
                    sem = it.sem
                    del live[i]
                else:
                    # a child of a tracked interpreter has a tracker of its own
                    way = "" if op["how"] == "child" and not it.off else op["how"]
                    out = it.ask(op=op["op"], how=way, name=prefix + op["a"])
                    if out.startswith("ok "):
                        it.sem = out[3:]
                        out = "ok"
                    sem = it.sem
                    if op["op"] == "off":
                        it.off = True
                    elif op["op"] != "sem" and not it.off:
                        it.used_before = True
            ev.append({"op": op["op"], "i": i, "a": op["a"], "out": out, "noise": noise,
                       "blocks": [n[len(prefix):] for n in shm_names(prefix)],
                       "sem": sem_exists(sem)})
            if out in ("HANG", "DIED"):
                break
    finally:
        for it in live.values():
            it.p.kill()
            it.p.communicate()
        sweep(prefix)
    return {"procs": case["procs"], "ev": ev}


def how(op, rng):
    return {
        "create": lambda: rng.choice(["", "open_block", "child"]),
        "attach": lambda: rng.choice(["", "fetch"]),
        "delete": lambda: rng.choice(["", "unlink"]),
        "end": lambda: rng.choice(ENDS),
    }.get(op, lambda: "")()


def from_walk(ix, walk, rng):
    ops = [{"op": e["op"], "i": e["i"], "a": e["a"], "how": how(e["op"], rng)} for _, e, _ in walk]
    ops += [{"op": "end", "i": i, "a": "", "how": rng.choice(ENDS)} for i in ("i1", "i2")]
    return {"ix": ix, "procs": ["i1", "i2"], "ops": ops}


def random_case(ix, rng, length):
    """interpreters with active trackers among them"""
    procs = ["i1", "i2", "i3"]
    ops = []
    for i in procs:
        ops.append({"op": "start", "i": i, "a": "", "how": ""})
        if rng.random() < 0.7:
            ops += [{"op": "off", "i": i, "a": "", "how": ""}] * rng.choice([1, 1, 2, 3])
    tracked = set(procs) - {o["i"] for o in ops if o["op"] == "off"}
    for _ in range(length):
        i = rng.choice(procs)
        name = rng.choices(["create", "attach", "delete", "sem", "off", "end"],
                           [6, 4, 3, 2, 1, 1])[0]
        # what a tracked interpreter touches may vanish, so mostly its own
        own = i in tracked and rng.random() < 0.8
        ops.append({"op": name, "i": i, "a": (i if own else rng.choice("abc"))
                    if name in ("create", "attach", "delete") else "", "how": how(name, rng)})
        if name == "end":
            ops.append({"op": "start", "i": i, "a": "", "how": ""})
            tracked.add(i)
            if rng.random() < 0.7:
                tracked.discard(i)
                ops.append({"op": "off", "i": i, "a": "", "how": ""})
    ops += [{"op": "end", "i": i, "a": "", "how": rng.choice(ENDS)} for i in procs]
    return {"ix": ix, "procs": procs, "ops": ops}


def run(ctx):
    rng = ctx.rng()
    ctx.model("MCInterp", cfg="MCInterp2")
    res = ctx.model("MCInterp")
    edges = edges_of(res)
    init = json.dumps(res.json_printed("INIT")[0], sort_keys=True)
    ctx.note("model_transitions_replayed", len(edges))
    cases = []
    for _ in range(ctx.scale(1, 5)):
        for walk in tours(edges, init, maxlen=60, rng=rng):
            cases.append(from_walk(len(cases), walk, rng))
    record(ctx, play, cases, "TraceInterp", "model tour")
    hist = record(ctx, play, [random_case(1000 + i, rng, rng.choice([10, 25]))
                              for i in range(ctx.scale(24, 400))],
                  "TraceInterp", "recorded history")
    if not ctx.violations:
        bad = []
        for h in hist[:6]:
            h = copy.deepcopy(h)
            e = rng.choice(h["ev"])
            e["blocks"] = e["blocks"] + ["zz"]
            bad.append(h)
        must_reject(ctx, "TraceInterp", bad)
    ctx.assumptions += [
        "blocks used while the tracker was still active are outside the "
        "guarantee (the tracker already knows them)",
    ]
