"""python values as strings that are equal exactly if the values are."""
import hashlib


def canon(v, limit=120):
    s = _canon(v)
    if len(s) > limit or not s.isascii() or not s.isprintable():
        return f"{type(v).__name__}#{hashlib.sha1(s.encode('utf8', 'surrogatepass')).hexdigest()[:16]}"
    return s


def _canon(v):
    t = type(v)
    if v is None or t in (bool, int):
        return repr(v)
    if t is float:
        return repr(v)
    if t is str:
        return "s" + repr(v)
    if t in (bytes, bytearray):
        return repr(v)
    if t in (list, tuple):
        o, c = ("[", "]") if t is list else ("(", ")")
        return o + ",".join(_canon(x) for x in v) + c
    if t in (set, frozenset):
        return t.__name__ + "{" + ",".join(sorted(_canon(x) for x in v)) + "}"
    if t is dict:
        return "{" + ",".join(f"{_canon(k)}:{_canon(x)}" for k, x in v.items()) + "}"
    mod = t.__module__
    if mod == "numpy":
        import numpy as np

        if isinstance(v, np.ndarray):
            if v.dtype.hasobject:
                body = repr(v.tolist())
            else:
                body = np.ascontiguousarray(v).tobytes()
            return (
                f"array:{v.dtype!r}:{v.shape}:"
                + hashlib.sha1(body if isinstance(body, bytes) else body.encode()).hexdigest()[:16]
            )
        return f"{t.__name__}:{v!r}"
    return f"<{t.__name__}:{v!r}>"


def fresh(x):
    """an equal value that, where Python allows it, is another object"""
    if type(x) is str:
        return "".join(list(x))
    if type(x) in (bytes, tuple):
        return type(x)(list(x))
    if type(x) in (int, float):
        return type(x)(str(x))
    return x


def seen(v):
    """v's token. what was read is the reader's own: it is then spoilt."""
    token = canon(v)
    spoil(v)
    return token


def spoil(v):
    if isinstance(v, list):
        for x in v[:5]:
            spoil(x)
        v.append("spoilt")
    elif isinstance(v, dict):
        for x in list(v.values())[:5]:
            spoil(x)
        v["spoilt"] = True
    elif isinstance(v, set):
        v.add("spoilt")
    elif isinstance(v, tuple):
        for x in v[:5]:
            spoil(x)
    elif type(v).__name__ == "ndarray" and v.flags.writeable and v.size and v.dtype.kind in "biufc":
        v[...] = 1 - v if v.dtype.kind != "b" else ~v
