"""
a holder that stays inside its lock for very long, and processes waiting for it.

These processes are not scheduled: they spin as they like. Sleeping only moves
their clocks, so that long waits are short here.
"""
import multiprocessing as mp
import os
import signal
import time

from procs import die_with_parent, quiet_shm, shm_names, sweep


def _hurry(count, target, skew):
    """sleeping takes no time; count how often somebody waited."""
    real_sleep = time.sleep
    ahead = [0.0]

    def sleep(t):
        ahead[0] += max(float(t), 0.002)
        count.value += 1
        if count.value % 512 == 0 or count.value > target:
            real_sleep(0.001)

    time.sleep = sleep
    for name, unit in (("time", 1), ("monotonic", 1), ("perf_counter", 1),
                       ("time_ns", 10**9), ("monotonic_ns", 10**9), ("perf_counter_ns", 10**9)):
        real = getattr(time, name)

        def clock(real=real, unit=unit):
            now = real() + ahead[0] * unit
            return int(now) if unit > 1 else now

        setattr(time, name, clock)


def _lock(name):
    from dustgoggles.codex.implements import SlidingLock

    return SlidingLock(name)


def _worker(conn, now, w, name, case, counts, waiter):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    die_with_parent()
    quiet_shm()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    real_sleep = time.sleep
    if waiter:
        _hurry(counts[w - 1], case["spins"], 1)
    exc = ""

    def emit(op, exc="", n=0):
        conn.send((now(), {"op": op, "w": w, "l": case["locks"][0], "exc": exc, "n": n}))

    import dustgoggles.codex.implements  # noqa: F401

    limit = case["limits"][w - 1] if waiter else None
    n = 1 if limit else 0
    emit("try", n=n)
    try:
        lock = _lock(name)
        if limit:
            lock.max_spins = limit
        with lock:
            emit("enter", n=n)
            if not waiter:
                conn.send("in")
                begin = now()
                while now() - begin < case["patience"] * 10**9 and any(
                        c.value < case["spins"]
                        for c, lim in zip(counts, case["limits"]) if lim is None):
                    real_sleep(0.01)
            emit("leave", n=n)
    except Exception as ex:
        exc = type(ex).__name__
    emit("out", exc, n)
    conn.send("over")
    conn.close()
    os._exit(0)


def long_play(case):
    """case: {ix, long, locks: [name], spins, limits: [None or spins], patience}"""
    now = time.monotonic_ns
    prefix = f"vg{os.getpid()}x{case['ix']}_"
    name = prefix + case["locks"][0]
    ctx = mp.get_context("fork")
    counts = [ctx.Value("L", 0, lock=False) for _ in case["limits"]]
    ev, procs, conns, hung = [], [], [], False

    def take(conn, timeout):
        nonlocal hung
        while True:
            if not conn.poll(timeout):
                hung = True
                return
            try:
                m = conn.recv()
            except EOFError:
                hung = True
                return
            if m in ("in", "over"):
                return
            ev.append(m)

    try:
        for w in range(len(case["limits"]) + 1):
            here, there = ctx.Pipe()
            p = ctx.Process(target=_worker, daemon=True,
                            args=(there, now, w, name, case, counts, w > 0))
            p.start()
            there.close()
            procs.append(p)
            conns.append(here)
            if w == 0:
                take(here, 20)
        for here in conns:
            if not hung:
                take(here, case["patience"] + 20)
        ev = [e for _, e in sorted(ev, key=lambda m: m[0])]
        if hung:
            ev.append({"op": "hang", "w": 0, "l": case["locks"][0], "exc": "long", "n": 0})
        else:
            ev.append({"op": "over", "w": 0, "l": case["locks"][0], "exc": "",
                       "n": len(shm_names(prefix)) - 1})
    finally:
        for p in procs:
            p.kill()
            p.join()
        sweep(prefix)
    return {"n": len(procs), "locks": case["locks"], "ev": ev, "kinds": 0,
            "steps": sum(c.value for c in counts), "policy": {"kind": "long", "spins": case["spins"],
                                                                "limits": str(case["limits"])}}
