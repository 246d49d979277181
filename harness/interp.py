"""a separate interpreter that is told what to do with shared memory, line by
line. argv: the repository."""
import json
import os
import signal
import sys

sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from multiprocessing import get_context  # noqa: E402
from multiprocessing.shared_memory import SharedMemory  # noqa: E402

from dustgoggles.codex import memutilz  # noqa: E402

keep = {}


def off(_):
    memutilz.deactivate_shared_memory_resource_tracker()


def create(m):
    if m["how"] == "open_block":
        if memutilz.exists_block(m["name"]):
            raise FileExistsError
        keep[m["name"]] = memutilz.open_block(m["name"], 4)
    elif m["how"] == "child":
        ctx = get_context("fork")
        r, w = ctx.Pipe(False)

        def child():
            try:
                SharedMemory(m["name"], create=True, size=4)
                w.send("ok")
            except Exception as ex:
                w.send("EXC:" + type(ex).__name__)

        p = ctx.Process(target=child)
        p.start()
        w.close()
        res = r.recv()
        p.join()
        return res
    else:
        keep[m["name"]] = SharedMemory(m["name"], create=True, size=4)


def attach(m):
    if m["how"] == "fetch":
        memutilz.fetch_block_bytes(m["name"])
    else:
        keep[m["name"]] = SharedMemory(m["name"])


def delete(m):
    keep.pop(m["name"], None)
    if m["how"] == "unlink":
        b = SharedMemory(m["name"])
        b.unlink()
        b.close()
    else:
        memutilz.delete_block(m["name"])


def sem(m):
    if "sem" not in keep:
        keep["sem"] = get_context("spawn").Semaphore(1)
    return "ok " + keep["sem"]._semlock.name


def end(m):
    if m["how"] == "exit":
        sys.exit(3)
    if m["how"] == "_exit":
        os._exit(3)
    if m["how"] == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    if m["how"] == "raise":
        raise SystemError("the interpreter ends by an exception")
    sys.exit(0)


if __name__ == "__main__":
    print("ready", flush=True)
    for line in sys.stdin:
        m = json.loads(line)
        if m["op"] == "end":
            end(m)
        try:
            out = globals()[m["op"]](m) or "ok"
        except Exception as ex:
            out = "EXC:" + type(ex).__name__
        print(out, flush=True)
