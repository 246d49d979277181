"""
a controlled scheduler for real processes and threads sharing memory.

A Stage owns worker threads spread over real processes. In a worker, every
shared memory operation (open, truncate, unlink, access to a block's buffer)
and every sleep first asks the director for permission, so exactly one worker
moves at a time and the director decides the interleaving. The code under test
is not touched: its environment (multiprocessing.shared_memory, time.sleep) is.

director:  Stage(...).play(jobs, policy, budget) -> (events, status)
policy(parked: {worker: point kind}, last worker, step number) ->
    (worker, None) or (worker, name of an exception to raise at its sleep)
"""
import multiprocessing as mp
import os
import signal
import sys
import threading
import time
import traceback
from multiprocessing.connection import wait

from procs import die_with_parent, quiet_shm

_local = threading.local()


class Abort(BaseException):
    pass


THROW = {"KeyboardInterrupt": KeyboardInterrupt, "TimeoutError": TimeoutError}


def gate(kind):
    ch = getattr(_local, "ch", None)
    if ch is None or not _local.on:
        return
    ch.send(("y", kind))
    cmd = ch.recv()
    if cmd != "go":
        if cmd == "abort":
            _local.on = False
            raise Abort()
        emit({"op": "throw", "exc": cmd})
        raise THROW[cmd]("injected")


def emit(ev):
    _local.ch.send(("e", ev))


class Split:
    """a block's buffer. copying many bytes into it is not one step."""

    def __init__(self, view):
        self._view = view

    def __getattr__(self, name):
        return getattr(self._view, name)

    def __buffer__(self, flags):
        return memoryview(self._view)

    def __len__(self):
        return len(self._view)

    def __iter__(self):
        return iter(self._view)

    def __eq__(self, other):
        return self._view == (other._view if isinstance(other, Split) else other)

    __hash__ = None

    def __getitem__(self, ix):
        return self._view[ix]

    def __setitem__(self, ix, what):
        if isinstance(ix, slice) and ix.step in (None, 1):
            there = self._view[ix]
            data = memoryview(what).cast("B")
            if len(there) == len(data) and len(data) > 32:
                half = len(data) // 2
                there[:half] = data[:half]
                gate("write")
                there[half:] = data[half:]
                return
        self._view[ix] = what


def patch():
    """put gates under the code under test."""
    from multiprocessing import shared_memory

    quiet_shm()
    real = shared_memory._posixshmem

    class Posix:
        @staticmethod
        def shm_open(*a, **k):
            gate("open")
            return real.shm_open(*a, **k)

        @staticmethod
        def shm_unlink(*a, **k):
            gate("unlink")
            return real.shm_unlink(*a, **k)

    shared_memory._posixshmem = Posix
    realos = shared_memory.os

    class Os:
        def __getattr__(self, name):
            return getattr(realos, name)

        @staticmethod
        def ftruncate(*a, **k):
            gate("truncate")
            return realos.ftruncate(*a, **k)

    shared_memory.os = Os()
    cls = shared_memory.SharedMemory
    buf = cls.buf.fget

    def gated_buf(self):
        gate("buf")
        view = buf(self)
        if view is None or not getattr(_local, "on", False):
            return view
        return Split(view)

    cls.buf = property(gated_buf)
    real_sleep = time.sleep

    def sleep(t):
        if getattr(_local, "ch", None) is not None and _local.on:
            gate("sleep")
        else:
            real_sleep(t)

    time.sleep = sleep


def _thread(ch, make):
    _local.ch, _local.on = ch, False
    host = make()
    while True:
        try:
            job = ch.recv()
        except EOFError:
            os._exit(0)
        try:
            if hasattr(host, "prepare"):
                host.prepare(job)
            _local.on = True
            gate("start")
            res = host.run(job)
            _local.on = False
            ch.send(("done", res))
        except Abort:
            ch.send(("done", "ABORTED"))
        except BaseException:
            _local.on = False
            ch.send(("done", "HARNESS:" + traceback.format_exc()))


def _process(chs, make):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    die_with_parent()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    patch()
    import dustgoggles.codex.implements  # noqa: F401  (after patching)
    sys.setswitchinterval(0.001)
    threads = [threading.Thread(target=_thread, args=(ch, make)) for ch in chs]
    for t in threads:
        t.start()
    for t in threads:
        t.join()


class Stage:
    """shape: number of worker threads in each process, e.g. (1, 1, 2)"""

    def __init__(self, shape, make, patience=2.0):
        self.shape, self.make, self.patience = tuple(shape), make, patience
        self.procs, self.chs = [], []
        self._start()

    def _start(self):
        ctx = mp.get_context("fork")
        self.procs, self.chs = [], []
        for k in self.shape:
            pairs = [ctx.Pipe() for _ in range(k)]
            p = ctx.Process(target=_process, args=([t for _, t in pairs], self.make), daemon=True)
            p.start()
            for _, t in pairs:
                t.close()
            self.procs.append(p)
            self.chs += [h for h, _ in pairs]
        self.n = len(self.chs)

    def restart(self):
        for p in self.procs:
            p.kill()
        for p in self.procs:
            p.join()
        for ch in self.chs:
            ch.close()
        self._start()

    close = restart

    def play(self, jobs, policy, budget=20000):
        """
        jobs: {worker: job}. returns (events, status, schedule), status being
        'ok', 'budget' (did not finish within that many steps), 'stuck' (nobody
        moves) or 'died'.
        """
        events, schedule = [], []
        parked, away = {}, set()

        def read(w, timeout):
            """messages of w until it parks or is done; False if silent."""
            ch = self.chs[w]
            while ch.poll(timeout):
                kind, body = ch.recv()
                if kind == "e":
                    events.append({"w": w, **body})
                elif kind == "y":
                    parked[w] = body
                    return True
                else:
                    if isinstance(body, str) and body.startswith("HARNESS:"):
                        raise RuntimeError(body)
                    return True
            away.add(w)
            return False

        try:
            for w, job in jobs.items():
                self.chs[w].send(job)
            for w in jobs:
                read(w, self.patience * 5)
            last, step = None, 0
            while parked or away:
                if away:
                    for w in list(away):
                        if self.chs[w].poll(0):
                            away.discard(w)
                            read(w, self.patience)
                    if not parked:
                        ready = wait([self.chs[w] for w in away], timeout=self.patience * 2)
                        if not ready:
                            self.restart()
                            return events, "stuck", schedule
                        continue
                if step >= budget:
                    self.restart()
                    return events, "budget", schedule
                w, throw = policy(parked, last, step)
                schedule.append(w)
                kind = parked.pop(w)
                self.chs[w].send(throw if throw and kind == "sleep" else "go")
                read(w, self.patience)
                last, step = w, step + 1
            return events, "ok", schedule
        except (EOFError, OSError):
            self.restart()
            return events, "died", schedule


# ---------------------------------------------------------------- policies


class Policy:
    """run one worker until it is done or sleeps; obey preemptions.

    preempt: {step: worker to switch to (if it can move)}
    throws:  {how many-th sleep: exception name}
    """

    def __init__(self, preempt=(), throws=(), order=None):
        self.preempt, self.throws = dict(preempt), dict(throws)
        self.cur, self.sleeps, self.streak = None, 0, 0
        self.order = order

    PATIENCE = 100

    def tired(self, w, parked):
        others = sorted(v for v in parked if v != w)
        return next((v for v in others if v > w), others[0])

    def pick(self, parked, last, step):
        want = self.preempt.get(step)
        if want is not None and want in parked:
            return want
        if self.cur in parked and parked[self.cur] != "sleep":
            return self.cur
        # the others in turn; a sleeper only if everybody sleeps
        ws = sorted(parked)
        after = [w for w in ws if self.cur is None or w > self.cur] + [
            w for w in ws if self.cur is not None and w <= self.cur]
        if self.order:
            after = sorted(after, key=self.order.index) if self.cur is None else after
        for w in after:
            if parked[w] != "sleep" and w != self.cur:
                return w
        return after[0]

    def __call__(self, parked, last, step):
        w = self.pick(parked, last, step)
        self.streak = self.streak + 1 if w == self.cur else 0
        if self.streak > self.PATIENCE and len(parked) > 1:
            # no schedule lets one worker spin for ever
            w = self.tired(w, parked)
            self.streak = 0
        self.cur = w
        throw = None
        if parked[w] == "sleep":
            self.sleeps += 1
            throw = self.throws.get(self.sleeps)
        return w, throw


class RandomPolicy(Policy):
    """switch with probability q at each step; fair in the long run."""

    def __init__(self, rng, q, throws=()):
        super().__init__((), throws)
        self.rng, self.q = rng, q

    def pick(self, parked, last, step):
        if self.cur in parked and parked[self.cur] != "sleep" and self.rng.random() > self.q:
            return self.cur
        return self.rng.choice(sorted(parked))


class PriorityPolicy(Policy):
    """PCT: random priorities, lowered at d random steps and by sleeping."""

    def __init__(self, rng, workers, length, d, throws=()):
        super().__init__((), throws)
        self.prio = {w: rng.random() + 1 for w in workers}
        self.change = {rng.randrange(max(1, length)): i for i in range(d)}
        self.low = 0.0

    def tired(self, w, parked):
        self.low -= 1
        self.prio[w] = self.low
        return super().tired(w, parked)

    def pick(self, parked, last, step):
        w = max(parked, key=lambda v: self.prio[v])
        if step in self.change or parked[w] == "sleep":
            self.low -= 1
            self.prio[w] = self.low
        return w


class ListPolicy(Policy):
    """
    follow a list of workers as far as possible, then run in turns. glue:
    making a block (opening it and giving it a size) is one step of the list.
    """

    def __init__(self, seq, throws=(), glue=False):
        super().__init__((), throws)
        self.seq, self.at, self.glue = seq, 0, glue

    def pick(self, parked, last, step):
        if self.glue and parked.get(last) == "truncate":
            return last
        while self.at < len(self.seq):
            w = self.seq[self.at]
            self.at += 1
            if w in parked:
                return w
        return super().pick(parked, last, step)
