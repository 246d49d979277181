"""
real processes driven one call at a time.

Crew(n, setup) forks n processes. crew.call(i, op, *args) runs op in process i
and returns its outcome. A process that does not answer is killed and replaced.
Everything made in /dev/shm is named with a prefix owned by the caller and
swept afterwards.
"""
import multiprocessing as mp
import os
import signal
import sys
import traceback

SHM = "/dev/shm"


def quiet_shm():
    """
    keep this process's shared memory bookkeeping away from the resource
    tracker daemon (the harness sweeps by itself). done under the code under
    test, not through it.
    """
    from multiprocessing import shared_memory

    class NoTracker:
        @staticmethod
        def register(*_):
            pass

        @staticmethod
        def unregister(*_):
            pass

    shared_memory.resource_tracker = NoTracker
    sys.unraisablehook = lambda *_: None


def die_with_parent():
    import ctypes

    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
    parent = mp.parent_process()
    if parent is not None and os.getppid() != parent.pid:
        os._exit(0)  # it died before we asked


def shm_names(prefix):
    return sorted(n for n in os.listdir(SHM) if n.startswith(prefix))


def sweep(prefix):
    assert len(prefix) >= 4 and "/" not in prefix
    for n in shm_names(prefix):
        try:
            os.unlink(os.path.join(SHM, n))
        except OSError:
            pass


def _main(conn, make):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    die_with_parent()
    quiet_shm()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    obj = make()
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            os._exit(0)
        if msg is None:
            os._exit(0)
        op, args = msg
        try:
            res = getattr(obj, op)(*args)
        except BaseException:
            res = "HARNESS:" + traceback.format_exc()
        conn.send(res)


class Crew:
    def __init__(self, n, make, limit=8.0):
        self.make, self.limit = make, limit
        self.ctx = mp.get_context("fork")
        self.members = [None] * n
        self.hangs = 0
        for i in range(n):
            self._spawn(i)

    def _spawn(self, i):
        here, there = self.ctx.Pipe()
        p = self.ctx.Process(target=_main, args=(there, self.make), daemon=True)
        p.start()
        there.close()
        self.members[i] = (p, here)

    def call(self, i, op, *args):
        p, conn = self.members[i]
        try:
            conn.send((op, args))
            if not conn.poll(self.limit):
                self.hangs += 1
                p.kill()
                p.join()
                self._spawn(i)
                return "HANG"
            res = conn.recv()
        except (EOFError, OSError):
            p.join(1)
            self._spawn(i)
            return "DIED"
        if isinstance(res, str) and res.startswith("HARNESS:"):
            raise RuntimeError(res)
        return res

    def close(self):
        for p, conn in self.members:
            try:
                conn.send(None)
            except OSError:
                pass
        for p, _ in self.members:
            p.join(2)
            if p.is_alive():
                p.kill()
