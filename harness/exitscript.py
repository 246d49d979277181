"""a separate interpreter that uses a pad and ends. argv: json."""
import json
import os
import sys

spec = json.loads(sys.argv[1])
sys.path.insert(0, spec["repo"])
sys.dont_write_bytecode = True
from dustgoggles.codex import implements  # noqa: E402
from dustgoggles.codex.memutilz import (  # noqa: E402
    deactivate_shared_memory_resource_tracker as deactivate,
)

deactivate()
cls = getattr(implements, spec["cls"])
if spec["cls"] == "Sticky":
    obj = cls.note([1, 2, 3], spec["name"], cleanup_on_exit=spec["cleanup"])
else:
    kw = {"create": spec["create"], "cleanup_on_exit": spec["cleanup"]}
    if spec.get("no_lockout"):
        kw["no_lockout"] = True
    obj = cls(spec["name"], **kw)
    for k in spec["set"]:
        if spec["cls"] == "GridPaper":
            import numpy as np

            obj[k] = np.arange(5)
        elif spec["cls"] == "Notepad":
            obj[k] = k
        else:
            obj.add(k)
    for k in spec["del"]:
        if spec["cls"].endswith("Index"):
            obj.remove(k)
        else:
            del obj[k]
if spec.get("close"):
    obj.close()
if spec["end"] == "raise":
    raise RuntimeError("the process ends by an exception")
if spec["end"] == "exit":
    sys.exit(3)
if spec["end"] == "kill":
    os._exit(9)
