"""workers that use shared locks, and the schedules to run them under."""
import os
import random

import sched
from longhold import long_play
from procs import shm_names, sweep
from sched import ListPolicy, Policy, PriorityPolicy, RandomPolicy, Stage, emit, gate


class BlockRaised(Exception):
    pass


KINDS = [BlockRaised, KeyError, KeyboardInterrupt, TimeoutError, FileNotFoundError, FileExistsError, GeneratorExit, ValueError]


class LockHost:
    """
    job: {prefix, locks: [name], fresh: make the lock objects inside the
    schedule, do: [{l, cs: how many steps inside, raises: bool, spins: limit or
    None, hold: bool, new: a new lock object for this acquisition}]}
    """

    def prepare(self, job):
        self.obj = {}
        for name in job["locks"] if job.get("used") else ():
            # the lock has been used before, often
            for _ in range(job["used"]):
                with self.get(job, name):
                    pass
        if not job["fresh"]:
            for op in job["do"]:
                self.get(job, op["l"])

    def get(self, job, name, new=False):
        from dustgoggles.codex.implements import SlidingLock

        if new or name not in self.obj:
            self.obj[name] = SlidingLock(job["prefix"] + name)
        return self.obj[name]

    def run(self, job):
        for op in job["do"]:
            exc = ""
            lim = op.get("spins") is not None
            ev = {"l": op["l"], "exc": "", "n": 1 if lim else 0}
            emit({"op": "try", **ev})
            state = "trying"
            try:
                lock = self.get(job, op["l"], op.get("new"))
                if lim:
                    lock.max_spins = lock.spins + op["spins"]
                else:
                    lock.max_spins = None
                with lock:
                    state = "in"
                    emit({"op": "enter", **ev})
                    for _ in range(op["cs"]):
                        gate("inside")
                    if op.get("hold"):
                        gate("hold")
                    if op.get("raises"):
                        ex = KINDS[op["raises"] - 1]("x")
                        emit({"op": "raise", **ev, "exc": type(ex).__name__})
                        emit({"op": "leave", **ev})
                        raise ex
                    emit({"op": "leave", **ev})
            except (sched.Abort, SystemExit):
                raise
            except BaseException as ex:
                exc = type(ex).__name__
            emit({"op": "out", **{**ev, "exc": exc}})
        return "ok"


_stages = {}


def stage(shape, make=LockHost):
    key = (tuple(shape), make)
    if key not in _stages:
        _stages[key] = Stage(shape, make)
    return _stages[key]


def make_policy(p, n):
    rng = random.Random(p.get("seed", 0))
    throws = {int(k): v for k, v in p.get("throws", {}).items()}
    if p["kind"] == "preempt":
        pol = Policy({int(k): v for k, v in p["preempt"].items()}, throws, p.get("order"))
    elif p["kind"] == "random":
        pol = RandomPolicy(rng, p["q"], throws)
    elif p["kind"] == "pct":
        pol = PriorityPolicy(rng, range(n), p["length"], p["d"], throws)
    else:
        pol = ListPolicy(p["seq"], throws, p.get("glue"))
    if p.get("tear"):
        # whoever is in the middle of copying bytes stays there for a while
        whole, since = pol, {}

        def pol(parked, last, step):
            for w in list(since):
                if parked.get(w) != "write":
                    del since[w]
            for w, k in parked.items():
                if k == "write":
                    since.setdefault(w, step)
            free = {w: k for w, k in parked.items()
                    if k != "write" or step - since[w] > p["tear"]}
            return whole(free or parked, last, step)
    if p.get("linger"):
        # whoever is inside stays there for that many steps of others
        short, came = pol, {}

        def pol(parked, last, step):
            for w in list(came):
                if parked.get(w) != "hold":
                    del came[w]
            for w, k in parked.items():
                if k == "hold":
                    came.setdefault(w, step)
            free = {w: k for w, k in parked.items()
                    if k != "hold" or step - came[w] > p["linger"]}
            return short(free or parked, last, step)
    if p.get("hold"):
        inner = pol

        def pol(parked, last, step):
            free = {w: k for w, k in parked.items() if k != "hold"}
            return inner(free or parked, last, step)
    return pol


def play(case):
    """run a lock case. case: {ix, shape, jobs, policy, locks, solo}"""
    if case.get("long"):
        return long_play(case)
    prefix = f"vl{os.getpid()}x{case['ix']}_"
    st = stage(case["shape"])
    jobs = {w: dict(j, prefix=prefix, locks=case["locks"]) for w, j in enumerate(case["jobs"])}
    ev = []
    try:
        if case.get("warm"):
            # the lock has been used before: its counter is not at zero
            warm = {"prefix": prefix, "locks": case["locks"], "fresh": True, "do": [],
                    "used": case["warm"]}
            st.play({0: warm}, Policy())
        events, status, schedule = st.play(jobs, make_policy(case["policy"], st.n),
                                           budget=case.get("budget", 6000))
        ev += events
        steps = len(schedule)
        if status != "ok":
            ev.append({"op": "hang", "w": 0, "l": case["locks"][0], "exc": status, "n": 0})
        else:
            for w in range(st.n) if case.get("solo") else ():
                solo = {"prefix": prefix, "fresh": True,
                        "do": [{"l": k, "cs": 1, "spins": 0} for k in case["locks"]]}
                e2, status, _ = st.play({w: solo}, Policy(), budget=2000)
                ev += e2
                if status != "ok":
                    ev.append({"op": "hang", "w": w, "l": case["locks"][0],
                               "exc": "alone: " + status, "n": 0})
                    break
            # every lock has one block (its counter) when idle
            ev.append({"op": "over", "w": 0, "l": case["locks"][0], "exc": "",
                       "n": len(shm_names(prefix)) - len(case["locks"])})
    finally:
        sweep(prefix)
    return {"n": st.n, "locks": case["locks"],
            "ev": [{"op": e["op"], "w": e["w"], "l": e.get("l", case["locks"][0]),
                    "exc": e["exc"], "n": e.get("n", 0)} for e in ev],
            "steps": steps, "policy": case["policy"],
            "kinds": sum(e["op"] == "out" and e["exc"] != "" for e in ev)}
