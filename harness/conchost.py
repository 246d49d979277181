"""workers that use shared indexes and notepads at the same time."""
import json
import os

import sched
from canon import canon
from lockhost import make_policy, stage
from procs import shm_names, sweep
from sched import Policy, emit


def array(v):
    """a value of a shared array pad is named by a number"""
    import numpy as np

    return np.arange(v % 7 + 1) + v if v % 2 else np.full((2, v % 3 + 1), v, dtype="f4")


def big(v):
    """many values encode to equally many bytes, and cannot be mixed unnoticed"""
    return [v, f"{v:05}" * (1900, 5, 1900, v * 199 % 1800)[v // 8 % 4]]


class ConcHost:
    """
    job: {prefix, cls, kw, calls: [{op, k, v, x}]}. v: None or a number standing
    for a value; calls of class-specific methods are named put, del, get.
    """

    def make(self, job, create=False):
        from dustgoggles.codex import implements

        kw = dict(job["kw"])
        if "index_type" in kw:
            kw["index_type"] = getattr(implements, kw["index_type"])
        return getattr(implements, job["cls"])(job["prefix"], create=create, **kw)

    def prepare(self, job):
        self.h = None
        if not job.get("late") and not job.get("create"):
            self.h = self.make(job)

    def value(self, job, v):
        if job["cls"] == "GridPaper":
            return array(v)
        return None if v is None else big(v)

    def call(self, job, c):
        h, cls = self.h, job["cls"]
        if cls.endswith("Index"):
            if c["op"] == "put":
                args = (c["k"],) if c["v"] is None else (c["k"], big(c["v"]))
                h.add(*args, exists_ok=c["x"])
            elif c["op"] == "del":
                h.remove(c["k"])
            return "ok"
        if c["op"] == "put":
            v = self.value(job, c["v"])
            if c["x"]:
                h[c["k"]] = v
            else:
                h.set(c["k"], v, exists_ok=False)
            return "ok"
        if c["op"] == "del":
            del h[c["k"]]
            return "ok"
        return self.show(job, h[c["k"]])

    @staticmethod
    def show(job, v):
        return canon(v)

    def run(self, job):
        if job.get("create"):
            self.h = self.make(job, create=True)
        elif job.get("late"):
            self.h = self.make(job)
        for c in job["calls"]:
            emit({"op": "inv", "c": c})
            try:
                out = self.call(job, c)
            except (sched.Abort, SystemExit):
                raise
            except BaseException as ex:
                out = "EXC:" + type(ex).__name__
            emit({"op": "ret", "out": out})
        if job.get("look"):
            self.look(job)
        return "ok"

    def look(self, job):
        """what is there when everybody is done"""
        h, cls = self.h, job["cls"]
        try:
            if cls.endswith("Index"):
                keys = list(h.update())
            else:
                keys = list(h.keys())
            emit({"op": "keys", "lst": [canon(str(k)) for k in keys]})
            idx = h if cls.endswith("Index") else h.index
            pos = []
            for k in keys:
                p = idx.check(k)
                pos.append(str(p))
                if cls == "MetaTagIndex":
                    emit({"op": "value", "k": k, "out": self.meta(h, k)})
                elif cls != "TagIndex":
                    emit({"op": "value", "k": k, "out": canon(h[k])})
            emit({"op": "positions", "lst": pos})
            for k in job["look"]:
                if str(k) in [str(j) for j in keys]:
                    continue
                gone = idx.check(k) is None
                if not cls.endswith("Index"):
                    gone = gone and h.get(k, default=None) is None
                emit({"op": "absent" if gone else "present", "k": k})
        except (sched.Abort, SystemExit):
            raise
        except Exception as ex:
            emit({"op": "look failed", "out": "EXC:" + type(ex).__name__})

    @staticmethod
    def meta(h, k):
        try:
            return canon(json.loads(h[k]))
        except FileNotFoundError:
            return "none"


def play(case):
    """case: {ix, shape, cls, kw, start: [[k, v]], jobs: [[call]], policy, late, keys}"""
    prefix = f"vc{os.getpid()}x{case['ix']}_"
    st = stage(case["shape"], ConcHost)
    base = {"prefix": prefix, "cls": case["cls"], "kw": case["kw"]}
    helper = ConcHost()
    index = case["cls"].endswith("Index")

    def val(v):
        if v is None:
            return "keep" if index else canon(None)
        return canon(helper.value(base, v))

    def norm(e):
        c = e.get("c") or {}
        return {
            "op": e["op"], "w": e["w"], "out": e.get("out", ""), "lst": e.get("lst", []),
            "c": {"op": c.get("op", "none"), "k": canon(str(c.get("k", e.get("k", "")))),
                  "v": val(c.get("v")) if c.get("op") == "put" else "",
                  "x": bool(c.get("x", False)),
                  "no": "EXC:FileExistsError" if index else "EXC:KeyError"},
        }

    ev = []
    steps = 0
    try:
        setup = dict(base, create=True, calls=[
            {"op": "put", "k": k, "v": v, "x": True} for k, v in case["start"]])
        first, status, _ = st.play({0: setup}, Policy())
        ok = status == "ok" and all(e.get("out", "ok") == "ok" for e in first)
        if not ok:
            ev.append({"op": "setup failed", "w": 0, "out": str([e for e in first if e.get("out", "ok") != "ok"][:2])})
        else:
            jobs = {w: dict(base, late=case.get("late"), calls=calls)
                    for w, calls in enumerate(case["jobs"])}
            ev, status, schedule = st.play(jobs, make_policy(case["policy"], st.n), budget=12000)
            steps = len(schedule)
            if status != "ok":
                ev.append({"op": "hang:" + status, "w": 0})
            else:
                seen, status, _ = st.play(
                    {0: dict(base, late=True, calls=[], look=case["keys"])}, Policy(), budget=12000)
                ev = ev + [dict(e, w=st.n) for e in seen]
                if status != "ok":
                    ev.append({"op": "hang:" + status, "w": 0})
    finally:
        sweep(prefix)
    return {"n": st.n, "start": [[canon(str(k)), "none" if v is None and index else val(v)]
                                 for k, v in case["start"]],
            "ev": [norm(e) for e in ev], "cls": case["cls"], "steps": steps,
            "case": json.dumps(case)}
