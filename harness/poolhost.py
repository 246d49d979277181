"""
drive pools whose records are done in an order chosen beforehand.

a record's function says it has started by making a file in a scratch directory
and goes on when it finds another one there.
"""
import multiprocessing
import os
import shutil
import tempfile
import threading
import time

from canon import canon

BLANK = {"n": 0, "recs": [], "x": False, "exc": "", "res": [], "keys": [], "all": False, "nr": 0,
         "nrun": 0, "raises": False, "filter": False, "calls": [], "changed": False}
EXC = {e.__name__: e for e in (ValueError, KeyError, StopIteration, TypeError, OSError, ZeroDivisionError,
                               FileNotFoundError, RuntimeError, AttributeError)}
NULL = "a key that is None"
# other results: none of them is an exception
GIVES = {"none": None, "false": False, "0": 0, "empty": "", "list": [], "class": ValueError, "pair": (1, None), "text": "ValueError"}
# an exception that is returned is a result like any other
GIVES["error"] = ValueError("given")
LATE = 20


class Mine(Exception):
    """a user's own exception"""


EXC["Mine"] = Mine


def job(ctl, i, fail, gives, /, *args, **kw):
    with open(f"{ctl}/s{i}", "a") as f:
        f.write("x")
    end = time.monotonic() + LATE
    while not os.path.exists(f"{ctl}/g{i}") and time.monotonic() < end:
        time.sleep(0.001)
    what = told(args, kw)
    if fail:
        raise EXC[fail](what)
    return GIVES[gives] if gives else f"ret[{what}]"


def plain(*args, **kw):
    return f"ret[{told(args, kw)}]"


def told(args, kw):
    return ",".join(map(canon, args)) + "|" + ",".join(f"{k}={canon(v)}" for k, v in sorted(kw.items()))


def token(v):
    if isinstance(v, ValueError) and v.args == ("given",):
        return "VAL:error"
    if isinstance(v, Exception):
        what = v.args[0] if v.args and isinstance(v.args[0], str) else repr(v)
        return f"EXC:{type(v).__name__}[{what}]"
    if isinstance(v, str) and v.startswith("ret["):
        return v
    same = [n for n, g in GIVES.items() if type(g) is type(v) and g == v]
    return "VAL:" + (same[0] if same else repr(v)[:80])


class Round:
    """the records of one call of map, and the gates of their functions"""

    def __init__(self, base, recs):
        self.dir = tempfile.mkdtemp(dir=base)
        self.recs, self.made = [], []
        for i, r in enumerate(recs):
            rec = {"args": (self.dir, i + 1, r["fail"], r["gives"], *r["args"]), "kwargs": dict(r["kw"])}
            if not r["kw"]:
                del rec["kwargs"]
            if r["key"] is not None:
                rec["key"] = None if r["key"] == NULL else r["key"]
            self.made.append(rec)
            key = i if r["key"] is None else rec["key"]
            self.recs.append({"key": canon(key), "args": told(r["args"], r["kw"]), "fail": r["fail"], "gives": r["gives"]})
        self.was = repr(self.made)

    def given(self, how):
        """the records, as a list or something else"""
        return {"tuple": tuple, "iter": iter, "gen": lambda m: (r for r in m)}.get(how, list)(self.made)

    def changed(self):
        return repr(self.made) != self.was

    def open(self, i):
        open(f"{self.dir}/g{i}", "w").close()

    def started(self):
        return {int(n[1:]) for n in os.listdir(self.dir) if n[0] == "s"}

    def calls(self):
        return [os.path.getsize(f"{self.dir}/s{i}") if os.path.exists(f"{self.dir}/s{i}") else 0
                for i in range(1, len(self.made) + 1)]

    def release(self, order, settle=0.01):
        """open the gates in this order as far as the records have started"""
        left, done = list(order), []
        end = time.monotonic() + LATE
        while left and time.monotonic() < end:
            ready = [i for i in left if i in self.started()]
            if not ready:
                time.sleep(0.001)
                continue
            if ready[0] != left[0]:
                # wait a little for the one that should be next
                time.sleep(settle)
                ready = [i for i in left if i in self.started()]
            self.open(ready[0])
            left.remove(ready[0])
            done.append(ready[0])
        for i in left:
            self.open(i)
        return done + left


def wait_for(cond):
    end = time.monotonic() + LATE
    while not cond() and time.monotonic() < end:
        time.sleep(0.001)


def pairs(res):
    return [[canon(k), token(v)] for k, v in res.items()]


def play(case):
    from dustgoggles.structures import MaybePool, map_into_pool

    base = tempfile.mkdtemp(prefix="vpool")
    ev, pool, rnd, chunked, nth = [], None, None, False, 0

    def note(**kw):
        ev.append({**BLANK, **kw})

    def outcome(call):
        try:
            return {"res": pairs(call())}
        except Exception as ex:
            return {"exc": token(ex)}

    try:
        for op in case["ops"]:
            kind = op["op"]
            if kind == "new":
                if pool is not None:
                    pool.close()
                    pool.join()
                pool = MaybePool(op["n"] or None)
                serial = not op["n"]
                note(op="new", n=op["n"])
            elif kind == "map":
                if rnd is not None and len(finished) == len(rnd.made):
                    note(op="calls", calls=rnd.calls())
                rnd, chunked = Round(base, op["recs"]), op["x"]
                finished = set()
                if serial:
                    for i in range(1, len(rnd.made) + 1):
                        rnd.open(i)
                    finished = set(range(1, len(rnd.made) + 1))
                exc = ""
                try:
                    pool.map(job, rnd.given(op.get("how")), as_chunks=op["x"])
                except Exception as ex:
                    exc = token(ex)
                if not rnd.made and not exc:
                    wait_for(pool.ready)
                note(op="map", recs=rnd.recs, x=op["x"], exc=exc, changed=rnd.changed())
                if exc:
                    break
            elif kind == "fin":
                if serial or op["n"] in finished:
                    continue
                if not chunked:
                    wait_for(lambda: op["n"] in rnd.started())
                rnd.open(op["n"])
                finished.add(op["n"])
                key = rnd.recs[op["n"] - 1]["key"]
                if not chunked:
                    wait_for(lambda: {canon(k): v for k, v in pool.results_ready().items()}.get(key) is not False)
                elif len(finished) == len(rnd.made):
                    wait_for(pool.ready)
                note(op="fin", n=op["n"])
            elif kind == "poll":
                ready = [canon(k) for k, v in pool.results_ready().items() if v is True]
                note(op="poll", keys=ready, all=bool(pool.ready()), n=pool.n_results, nr=pool.n_ready,
                     nrun=pool.n_running)
            elif kind in ("get", "live"):
                # if records are left, they are done while somebody waits
                left = [i for i in op.get("order", ()) if i not in finished]
                left += [i for i in range(1, len(rnd.made) + 1) if i not in finished and i not in left]
                box = {}
                if left:
                    t = threading.Thread(target=lambda: box.update(outcome(
                        lambda: pool.get(raise_exc=op["raises"]))))
                    t.start()
                    time.sleep(0.02)
                    early = bool(box) and not (op["raises"] and box.get("exc"))
                    if early:
                        note(op="get", raises=op["raises"], **box)
                        break
                    for i in rnd.release(left):
                        note(op="fin", n=i)
                    finished |= set(left)
                    t.join(LATE)
                    if box.get("exc"):
                        # it may have been raised before the last one arrived
                        wait_for(pool.ready)
                else:
                    box = outcome(lambda: pool.get(raise_exc=op["raises"]))
                note(op="get", raises=op["raises"], **(box or {"exc": "HANG"}))
            elif kind == "apply":
                # on its own, whatever else the pool does
                r = Round(base, op["recs"])
                r.open(1)
                made = r.made[0]
                args = [made["args"], made["kwargs"]] if "kwargs" in made else [made["args"]]
                handle = pool.apply(job, *args)
                wait_for(handle.ready)
                note(op="apply", raises=True, recs=r.recs, all=bool(handle.ready()), **outcome(lambda: {op["key"]: handle.get()}))
            elif kind == "twins":
                # one record, several times, none of them with a key: each goes by its position
                if serial is False:
                    wait_for(pool.ready)
                rec = {"args": (7,)}
                pool.map(plain, [rec] * op["n"], as_chunks=op["x"])
                rnd, finished, chunked = Round(base, []), set(), op["x"]
                wait_for(pool.ready)
                twin = {"args": told((7,), {}), "fail": "", "gives": ""}
                note(op="map", recs=[{"key": canon(i), **twin} for i in range(op["n"])], x=op["x"], changed=rec != {"args": (7,)})
                if not serial:
                    for i in range(op["n"]):
                        note(op="fin", n=i + 1)
                note(op="get", raises=False, **outcome(pool.get))
            elif kind == "stop":
                pool.close()
                pool.join()
                pool.terminate()
                rnd, finished, chunked = Round(base, []), set(), False
                note(op="stop")
            elif kind == "into":
                r = Round(base, op["recs"])
                if op["n"]:
                    # not a thread: the pool is about to fork
                    helper = multiprocessing.get_context("fork").Process(target=r.release, args=(op["order"],))
                    helper.start()
                else:
                    for i in range(1, len(r.made) + 1):
                        r.open(i)
                kw = {} if op["x"] else {"as_chunks": False}
                res = outcome(lambda: map_into_pool(job, r.given(op.get("how")), op["n"] or None, filter_exc=op["filter"], **kw))
                if op["n"]:
                    helper.kill()
                    helper.join()
                note(op="into", n=op["n"], recs=r.recs, x=op["x"], filter=op["filter"], calls=r.calls(), changed=r.changed(), **res)
        if rnd is not None and len(finished) == len(rnd.made):
            note(op="calls", calls=rnd.calls())
        return {"ev": ev}
    finally:
        if rnd is not None:
            for i in range(1, len(rnd.made) + 1):
                rnd.open(i)
        if pool is not None:
            # killing workers that wait for work can leave a lock taken
            pool.close()
            pool.join()
        shutil.rmtree(base, ignore_errors=True)
