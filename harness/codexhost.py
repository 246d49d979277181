"""a process that owns handles on shared notepads and does what it is told."""
import json
import os
import shutil
import signal
import tempfile

from canon import canon, seen, spoil
from lib import Hang, exc_token

DEFAULT = object()


class Unserializable:
    def __reduce__(self):
        raise TypeError("can't be serialized")

    def __repr__(self):
        return "<<not a literal>>"


def junk(fn, key):
    """sometimes there's a longer file already"""
    if len(str(key)) % 2:
        with open(fn, "wb") as f:
            f.write(b"\7" * 20000)


class CodexHost:
    """
    every op returns {"out": str, "lst": [[str, ...], ...]}. exceptions of the
    code under test are outcomes ("EXC:<class>"); a call that does not return
    is the outcome "HANG".
    """

    limit = 4.0

    def __init__(self):
        self.handles = {}
        self.stickies = {}
        self.opts = {}

    # -- plumbing
    def do(self, ev):
        def alarm(*_):
            raise Hang()

        signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, self.limit)
        try:
            try:
                res = getattr(self, "op_" + ev["op"])(ev)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            return {"out": "HANG", "lst": []}
        except Exception as ex:
            return {"out": exc_token(ex), "lst": []}
        if isinstance(res, dict):
            return res
        return {"out": res if res is not None else "ok", "lst": []}

    def name_of(self, h):
        return self.handles[h].name

    def prefix_of(self, h):
        return self.handles[h].prefix

    def drop(self, names):
        for n in names:
            self.handles.pop(n, None)

    def reset(self):
        import atexit

        self.handles, self.stickies = {}, {}
        atexit._clear()

    @staticmethod
    def lst(rows):
        return {"out": "list", "lst": [list(r) for r in rows]}

    # -- notepads
    def _kwargs(self, o):
        from dustgoggles.codex import codecs, implements

        kw = {}
        if o.get("index"):
            kw["index_type"] = getattr(implements, o["index"])
        if o.get("codec"):
            kw["codec_factory"] = getattr(codecs, o["codec"] + "_codec_factory")
        for k in ("no_lockout", "update_on_init"):
            if o.get(k) is not None:
                kw[k] = o[k]
        return kw

    def op_open(self, ev):
        from dustgoggles.codex import implements

        o = ev.get("o") or {}
        cls = getattr(implements, o.get("cls", "Notepad"))
        obj = cls(ev["prefix"], create=ev["x"], **self._kwargs(o))
        self.handles[ev["h"]] = obj
        self.opts[ev["h"]] = o
        return "ok"

    def op_close(self, ev):
        if (ev.get("o") or {}).get("dump"):
            where = os.getcwd()
            tmp = tempfile.mkdtemp(prefix="vdump_")
            try:
                os.chdir(tmp)
                self.handles[ev["h"]].close(dump=True)
            finally:
                os.chdir(where)
                shutil.rmtree(tmp, ignore_errors=True)
        else:
            self.handles[ev["h"]].close()
        return "ok"

    def op_clear(self, ev):
        self.handles[ev["h"]].clear()

    def op_set(self, ev):
        h, k, v = self.handles[ev["h"]], ev["key"], ev["value"]
        if v == "UNSERIALIZABLE":
            v = Unserializable()
        kw = {}
        if ev.get("meta") is not None:
            kw["meta"] = ev["meta"]
        if ev["x"] and not kw and ev.get("how") == "item":
            h[k] = v
        else:
            h.set(k, v, exists_ok=ev["x"], **kw)
        spoil(v)

    def op_del(self, ev):
        del self.handles[ev["h"]][ev["key"]]

    def op_item(self, ev):
        h, k, how = self.handles[ev["h"]], ev["key"], ev.get("how")
        if how == "raw":
            try:
                return canon(h.remember.keywords["decode"](h.get_raw(k)))
            except FileNotFoundError:
                raise KeyError(k)
        if how == "nofetch":
            block = h.__getitem__(k, fetch=False)
            return canon(h.remember.keywords["decode"](block.buf.tobytes()))
        if how == "dump":
            tmp = tempfile.mkdtemp(prefix="vdump_")
            try:
                fn = os.path.join(tmp, "dump")
                junk(fn, k)
                try:
                    h.dump(k, fn)
                except FileNotFoundError:
                    raise KeyError(k)
                with open(fn, "rb") as f:
                    return canon(h.remember.keywords["decode"](f.read()))
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        return seen(h[k])

    def op_get(self, ev):
        h, k = self.handles[ev["h"]], ev["key"]
        if ev.get("how") == "none":
            # get's own default
            if h.get(k, DEFAULT) is DEFAULT:
                return "DEFAULT" if h.get(k) is None else "wrong default"
        res = h.get(k, DEFAULT)
        return "DEFAULT" if res is DEFAULT else seen(res)

    def listing(self, keys):
        out = self.lst([canon(k)] for k in keys)
        spoil(keys)
        return out

    def op_keys(self, ev):
        h, how = self.handles[ev["h"]], ev.get("how")
        if how == "iter":
            return self.lst([canon(k)] for k in h.iterkeys())
        if how == "index":
            return self.listing(h.index.update())
        if how == "str":
            text = str(h)
            return self.lst(
                [canon(k)] for k in eval(text.split(" with keys ", 1)[1])
            )
        return self.listing(h.keys())

    def op_items(self, ev):
        h = self.handles[ev["h"]]
        if ev.get("how") == "values":
            # values come in the order of the keys
            vals = [seen(v) for v in h.itervalues()]
            keys = [canon(k) for k in h.iterkeys()]
            if len(vals) != len(keys):
                return self.lst([["length", str(len(vals))]])
            return self.lst(zip(keys, vals))
        return self.lst((canon(k), seen(v)) for k, v in h.iteritems())


class GridHost(CodexHost):
    """the same for GridPaper. arrays travel as recipes (see arrays.py)."""

    def __init__(self):
        super().__init__()
        self.kept = {}

    def reset(self):
        super().reset()
        self.kept = {}

    def op_open(self, ev):
        return super().op_open({**ev, "o": {"cls": "GridPaper", **(ev.get("o") or {})}})

    def op_set(self, ev):
        from arrays import make_array

        h, k, v = self.handles[ev["h"]], ev["key"], make_array(ev["value"])
        how = ev.get("how")
        if how == "keep_open":
            h.__setitem__(k, v, exists_ok=ev["x"], keep_open=True)
        elif how == "item" and ev["x"]:
            h[k] = v
        else:
            h.set(k, v, exists_ok=ev["x"])
        spoil(v)

    def op_item(self, ev):
        h, k, how = self.handles[ev["h"]], ev["key"], ev.get("how")
        if how == "view":
            return canon(h.__getitem__(k, copy=False))
        if how == "nofetch":
            import numpy as np

            block = h.__getitem__(k, fetch=False)
            like = h[k]
            return canon(np.ndarray(like.shape, like.dtype, block.buf))
        if how == "dump":
            import numpy as np

            tmp = tempfile.mkdtemp(prefix="vdump_")
            try:
                fn = os.path.join(tmp, "dump")
                junk(fn, k)
                h.dump(k, fn)
                like = h[k]
                with open(fn, "rb") as f:
                    blob = f.read()
                if len(blob) != like.nbytes:
                    return f"dump of {len(blob)} bytes"
                return canon(np.ndarray(like.shape, like.dtype, blob or b"\x00"))
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        return seen(h[k])

    def op_get(self, ev):
        h, k = self.handles[ev["h"]], ev["key"]
        kw = {"copy": True} if ev.get("how") == "copy" else {}
        res = h.get(k, DEFAULT, **kw)
        if ev.get("how") == "copy" and res is not DEFAULT:
            return seen(res)
        return "DEFAULT" if res is DEFAULT else canon(res)

    def op_hold(self, ev):
        h = self.handles[ev["h"]]
        if ev["x"]:
            res = h.__getitem__(ev["key"], copy=False)
        else:
            res = h[ev["key"]]
        self.kept[ev["s"]] = res
        return canon(res)

    def op_poke(self, ev):
        """turn round the elements of what was kept"""
        a = self.kept[ev["s"]]
        a[...] = a.flatten()[::-1].reshape(a.shape)
        return canon(a)

    def op_inspect(self, ev):
        return canon(self.kept[ev["s"]]) if ev["s"] in self.kept else "nothing"


class AnyHost(GridHost):
    """notepads, array pads and bare indexes side by side."""

    def kind(self, ev):
        return self.opts.get(ev["h"], {}).get("cls", "Notepad")

    def op_open(self, ev):
        from dustgoggles.codex import implements

        o = ev.get("o") or {}
        if o.get("cls", "Notepad").endswith("Index"):
            kw = {k: o[k] for k in ("no_lockout",) if k in o}
            self.handles[ev["h"]] = getattr(implements, o["cls"])(
                ev["prefix"], create=ev["x"], **kw
            )
            self.opts[ev["h"]] = o
            return "ok"
        return CodexHost.op_open(self, ev)

    def op_set(self, ev):
        kind = self.kind(ev)
        if kind == "GridPaper":
            return GridHost.op_set(self, ev)
        if kind == "Notepad":
            return CodexHost.op_set(self, ev)
        h, v = self.handles[ev["h"]], ev["value"]
        if v == "UNSERIALIZABLE":
            # TagIndex takes no values at all, MetaTagIndex only JSON
            return h.add(ev["key"], [{1, 2}, {(1, 2): 3}, [b"x"]][len(str(ev["key"])) % 3],
                         exists_ok=ev["x"])
        try:
            h.add(ev["key"], exists_ok=ev["x"])
        except FileExistsError:
            raise KeyError(ev["key"])

    def op_del(self, ev):
        if self.kind(ev).endswith("Index"):
            self.handles[ev["h"]].remove(ev["key"])
            return None
        return CodexHost.op_del(self, ev)

    def op_item(self, ev):
        kind = self.kind(ev)
        if kind == "GridPaper":
            return GridHost.op_item(self, ev)
        if kind == "Notepad":
            return CodexHost.op_item(self, ev)
        if self.handles[ev["h"]].check(ev["key"]) is None:
            raise KeyError(ev["key"])
        return "in"

    def op_get(self, ev):
        kind = self.kind(ev)
        if kind == "GridPaper":
            return GridHost.op_get(self, ev)
        if kind == "Notepad":
            return CodexHost.op_get(self, ev)
        return "DEFAULT" if self.handles[ev["h"]].check(ev["key"]) is None else "in"

    def op_keys(self, ev):
        if self.kind(ev).endswith("Index"):
            return self.listing(self.handles[ev["h"]].update())
        return CodexHost.op_keys(self, ev)

    def op_items(self, ev):
        if self.kind(ev).endswith("Index"):
            return self.lst([canon(k), "in"] for k in self.handles[ev["h"]].update())
        return CodexHost.op_items(self, ev)

    def op_clear(self, ev):
        h = self.handles[ev["h"]]
        if self.kind(ev).endswith("Index"):
            for k in h.update():
                h.remove(k)
            return
        h.clear()


class IndexHost(CodexHost):
    """indexes. outcomes also have n, a position."""

    def __init__(self):
        super().__init__()
        self.pads = {}

    def reset(self):
        super().reset()
        self.pads = {}

    def op_open(self, ev):
        from dustgoggles.codex import implements

        o = ev.get("o") or {}
        kw = {k: v for k, v in o.items() if k not in ("cls", "via")}
        cls = getattr(implements, o["cls"])
        if o.get("via"):
            # the index of a notepad, filled by way of the notepad
            pad = implements.Notepad(ev["prefix"][:-6], create=ev["x"], index_type=cls, **kw)
            self.pads[ev["h"]] = pad
            self.handles[ev["h"]] = pad.index
            return
        self.pads.pop(ev["h"], None)
        self.handles[ev["h"]] = cls(ev["prefix"], create=ev["x"], **kw)

    def op_add(self, ev):
        h, v = self.handles[ev["h"]], ev.get("value")
        if v == "UNSERIALIZABLE":
            v = [{1, 2}, {(1, 2): 3}, [b"x"]][len(str(ev["key"])) % 3]
        pad = self.pads.get(ev["h"])
        if pad is not None:
            try:
                pad.set(ev["key"], "value", v, exists_ok=ev["x"])
            except KeyError:
                raise FileExistsError(ev["key"])  # the notepad's way to say so
            n = h.check(ev["key"])
            return {"out": "position", "n": n if type(n) is int else -7, "lst": []}
        args = (ev["key"],) if v is None else (ev["key"], v)
        n = h.add(*args) if ev["x"] and ev.get("how") == "plain" else h.add(*args, exists_ok=ev["x"])
        return {"out": "position", "n": n if type(n) is int else -7, "lst": []}

    def op_remove(self, ev):
        h = self.pads.get(ev["h"]) or self.handles[ev["h"]]
        if ev.get("how") == "del" or ev["h"] in self.pads:
            del h[ev["key"]]
        else:
            h.remove(ev["key"])

    def op_check(self, ev):
        n = self.handles[ev["h"]].check(ev["key"])
        if n is None:
            return "absent"
        return {"out": "position", "n": n if type(n) is int else -7, "lst": []}

    def op_positions(self, ev):
        h = self.handles[ev["h"]]
        out = []
        for k in ev["keys"]:
            n = h.check(k)
            if n is not None:
                out.append({"k": canon(str(k)), "n": n})
        return {"out": "ok", "lst": out}

    def op_lookup(self, ev):
        return canon(json.loads(self.handles[ev["h"]][ev["key"]]))

    def op_keys(self, ev):
        h = self.handles[ev["h"]]
        return self.listing(h.keys() if ev.get("how") == "keys" else h.update())

    def op_values(self, ev):
        return self.lst(
            [str(i), "none" if v is None else seen(v)]
            for i, v in enumerate(self.handles[ev["h"]].values())
        )

    def op_items(self, ev):
        return self.lst(
            [canon(k), "none" if v is None else seen(v)]
            for k, v in self.handles[ev["h"]].items()
        )


class StickyHost(CodexHost):
    def _value(self, ev):
        return Unserializable() if ev["value"] == "UNSERIALIZABLE" else ev["value"]

    def op_new(self, ev):
        from dustgoggles.codex.implements import Sticky

        self.handles[ev["h"]] = Sticky(ev["address"])

    def op_note(self, ev):
        from dustgoggles.codex.implements import Sticky

        args = [] if ev["address"] is None else [ev["address"]]
        self.handles[ev["h"]] = Sticky.note(self._value(ev), *args)

    def address_of(self, h):
        return self.handles[h].address

    def op_stick(self, ev):
        self.handles[ev["h"]].stick(self._value(ev))

    def op_read(self, ev):
        h = self.handles[ev["h"]]
        if ev["x"]:
            spoil(h.read(reread=True))
            return canon(h.read(reread=True))
        return canon(h.read())

    def op_pull(self, ev):
        h = self.handles[ev["h"]]
        h.close() if ev.get("how") == "close" else h.pull()

    def op_peek(self, ev):
        from dustgoggles.codex.implements import Sticky
        from dustgoggles.codex.memutilz import exists_block

        if not exists_block(str(ev["address"])):
            return "empty"
        return seen(Sticky(ev["address"]).read())


class BlockHost(CodexHost):
    """raw blocks."""

    def op_open(self, ev):
        from dustgoggles.codex.memutilz import open_block

        if ev["x"] and not ev["y"] and ev.get("how") == "plain":
            b = open_block(ev["address"], ev["n"])
        else:
            b = open_block(ev["address"], ev["n"], create=ev["x"], overwrite=ev["y"])
        self.handles[ev["h"]] = b
        return {"out": "ok", "lst": list(b.buf.tobytes())}

    def op_write(self, ev):
        data = bytes(ev["b"])
        self.handles[ev["h"]].buf[ev["n"]:ev["n"] + len(data)] = data

    def op_look(self, ev):
        return {"out": "ok", "lst": list(self.handles[ev["h"]].buf.tobytes())}

    def op_fetch(self, ev):
        from dustgoggles.codex.codecs import generic_mnemonic_factory
        from dustgoggles.codex.memutilz import fetch_block_bytes

        if ev.get("how") == "remember":
            b = generic_mnemonic_factory()[1](ev["address"], decode=bytes)
        elif ev.get("how") == "block":
            block = generic_mnemonic_factory()[1](ev["address"], fetch=False)
            b = block.buf.tobytes()
        else:
            b = fetch_block_bytes(ev["address"])
        return {"out": "ok", "lst": list(b) if type(b) is bytes else [-1]}

    def op_exists(self, ev):
        from dustgoggles.codex.memutilz import exists_block

        return {True: "yes", False: "no"}.get(exists_block(ev["address"]), "neither")

    def op_delete(self, ev):
        from dustgoggles.codex.memutilz import delete_block

        if not ev["x"] and ev.get("how") == "plain":
            delete_block(ev["address"])
        else:
            delete_block(ev["address"], missing_ok=ev["x"])

    def op_memorize(self, ev):
        from dustgoggles.codex.codecs import generic_mnemonic_factory

        def encode(value):
            if ev["y"]:
                raise TypeError("can't encode this")
            return bytes(value)

        got = generic_mnemonic_factory()[0](ev["b"], ev["address"], ev["x"], encode)
        return "ok" if got == ev["address"] else "wrong address returned"
