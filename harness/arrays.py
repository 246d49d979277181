"""arrays from recipes: {dtype, shape, seed, layout}."""
import numpy as np

DTYPES = [
    "<i1", "<u1", "<i2", "<u2", "<i4", "<u4", "<i8", "<u8", ">i2", ">i4",
    ">u8", "<f2", "<f4", "<f8", ">f8", "<c8", "<c16", "?", "S1", "S7", "<U1",
    "<U9", ">U3", "<M8[ns]", "<M8[D]", "<m8[s]", "V5", "STRUCT", "STRUCT2",

]
SHAPES = [
    (), (0,), (1,), (2,), (7,), (3, 0), (0, 4, 2), (1, 1), (3, 4), (2, 3, 4),
    (1, 5, 1, 2), (130,), (64, 65), (4096,), (2, 1, 1, 1, 1, 3), (1000, 3),
    (300, 301), (2**17,), (1,) * 9,
]
LAYOUTS = ["C", "F", "strided", "reversed", "broadcast", "T"]


def _dtype(name):
    if name == "STRUCT":
        return np.dtype([("a", "<i4"), ("b", "<f8", (2,))])
    if name == "STRUCT2":
        return np.dtype([("x", [("y", "S3"), ("z", "?")]), ("w", ">i2")])
    return np.dtype(name)


def make_array(recipe):
    if recipe["dtype"] == "O":
        a = np.empty(recipe["shape"], dtype=object)
        a[...] = recipe["seed"]
        return a
    if recipe["dtype"] == "OS":
        return np.zeros(recipe["shape"], dtype=[("a", "O"), ("b", "<i4")])
    dt = _dtype(recipe["dtype"])
    shape = tuple(recipe["shape"])
    layout = recipe["layout"]
    rng = np.random.default_rng(recipe["seed"])

    def filled(shape):
        n = int(np.prod(shape, dtype=int))
        if dt.kind == "U":
            m = min(n, 600)
            text = ["".join(chr(c) for c in rng.choice([65, 97, 233, 26085, 0x1F600, 32], rng.integers(0, max(dt.itemsize // 4, 1) + 1))) for _ in range(m)]
            return np.resize(np.array(text, dtype=dt), n).reshape(shape)
        if dt.kind == "b":
            return rng.integers(0, 2, shape).astype(bool)
        if dt.kind in "f" and dt.itemsize > 8:
            return (rng.random(shape) * 1e10).astype(dt)
        if dt.names:
            out = np.zeros(shape, dt)
            for name in dt.names:
                sub = out[name]
                if sub.dtype.names:
                    sub["y"] = b"ab"
                    sub["z"] = rng.integers(0, 2, shape).astype(bool)
                else:
                    sub[...] = rng.integers(-99, 99, sub.shape)
            return out
        blob = rng.bytes(n * dt.itemsize)
        return np.frombuffer(blob, dtype=dt, count=n).reshape(shape).copy()

    if layout == "F" and len(shape) > 1:
        return np.asfortranarray(filled(shape))
    if layout == "T" and len(shape) > 1:
        return filled(shape[::-1]).T
    if layout == "strided" and shape:
        return filled(shape[:-1] + (shape[-1] * 2,))[..., ::2]
    if layout == "reversed" and shape:
        return filled(shape)[::-1]
    if layout == "broadcast" and shape:
        return np.broadcast_to(filled(shape[1:]), shape)
    return filled(shape)


def random_recipe(rng):
    return {
        "dtype": rng.choice(DTYPES), "shape": rng.choice(SHAPES),
        "seed": rng.randrange(10**6), "layout": rng.choice(LAYOUTS),
    }
