"""reading and trimming of labels. contents are `pad` letters A and a tail of bytes."""
import gzip
from io import BytesIO
from pathlib import Path
import shutil
import tempfile

from lib import Hang


class Reader:
    """all a reader must have"""

    def __init__(self, data):
        self._b = BytesIO(data)

    def read(self, n=-1):
        return self._b.read(n)

    def close(self):
        self._b.close()


def shape(got, pad):
    lead = len(got) - len(got.lstrip(b"A"))
    k = min(lead, max(pad, 0))
    return {"pad": k, "tail": list(got[k:][:5000])}


def source(d, names, c):
    data = b"A" * c["pad"] + bytes(c["tail"])
    kind = c["kind"]
    if kind in ("bytesio", "reader"):
        r = BytesIO(data) if kind == "bytesio" else Reader(data)
    else:
        key = (c["pad"], tuple(c["tail"]), kind == "gzip")
        if key not in names:
            names[key] = d / f"f{len(names)}"
            names[key].write_bytes(gzip.compress(data) if kind == "gzip" else data)
        p = names[key]
        if kind in ("str", "path"):
            return str(p) if kind == "str" else p
        r = gzip.open(p) if kind == "gzip" else open(p, "rb", buffering=0 if kind == "raw" else -1)
    r.read(c["skip"])
    return r


def do(d, names, c):
    from dustgoggles import scrape as S

    e = {"fn": c["fn"], "c": {"pad": c["pad"], "tail": c["tail"]}, "skip": c["skip"], "n": c["n"], "insist": c.get("insist", False), "exc": "",
         "got": {"pad": 0, "tail": []}}
    try:
        src = source(d, names, c)
        limit = () if c["standard"] else (c["n"],)
        if c["fn"] == "head":
            buf = S.head_file(src, c["n"])
            got = buf.read()
        elif c["fn"] == "text":
            got = (S.cached_label_loader if c["cached"] else S.get_label_text)(src, *limit).encode()
        else:
            f = S.cached_label_trimmer if c["cached"] else S.trim_label
            kw = {} if c["standard"] else {"max_size": c["n"]}
            if c["insist"] or c["explicit"]:
                kw["raise_for_failure"] = c["insist"]
            got = f(src, **kw).encode()
        e["got"] = shape(got, c["pad"] - c["skip"])
    except Hang:
        raise
    except BaseException as ex:
        e["exc"] = type(ex).__name__
        e["msg"] = str(ex)[:100]
    return e


def play(case):
    d = Path(tempfile.mkdtemp(prefix="trim"))
    try:
        names = {}
        return {"ev": [do(d, names, c) for c in case["ops"]]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
