"""sort, read and describe parquet files in a scratch directory."""
import contextlib
import copy
import hashlib
import io
import os
import shutil
import tempfile

import numpy as np
import pyarrow as pa
from pyarrow import parquet

from lib import Hang
from tablehost import tok

BLANK = {"same": True, "exc": "", "gs": [], "dir": "", "out": [], "processed": False, "chunks": [], "limit": 0, "sizes": [],
         "names": [], "names2": [], "nothing": False, "b": {"lo": 0, "hi": 0, "from": True, "to": True}, "recs": [], "truth": []}
TYPES = {"int64": pa.int64(), "int8": pa.int8(), "uint64": pa.uint64(), "int32": pa.int32(), "float64": pa.float64(),
         "float32": pa.float32(), "uint16": pa.uint16(), "decimal 9 2": pa.decimal128(9, 2), "decimal 38 20": pa.decimal128(38, 20),
         "decimal 76 1": pa.decimal256(76, 1), "text": pa.string(), "bytes": pa.binary(), "date": pa.date32(), "time": pa.timestamp("us"),
         "zoned": pa.timestamp("us", "UTC"), "days": pa.date64(), "ms": pa.timestamp("ms")}


def missing(v):
    return v is None or v != v


def write(path, c):
    """the file; returns its rows by id"""
    rows, i, writer = {}, 0, None
    for g in c["groups"]:
        ids = list(range(i, i + len(g)))
        i += len(g)
        cols = {"id": pa.array(ids, pa.int32()), "key": pa.array(g, TYPES[c["dtype"]], from_pandas=False),
                "text": pa.array([None if k % 5 == 4 else f"t{k % 3}" for k in ids], pa.string()),
                "more": pa.array([k * 0.5 if k % 3 else None for k in ids], pa.float64()),
                # names that begin or end like others
                "keys": pa.array([(k * 7) % 5 if k % 4 else None for k in ids], pa.int64()), "ke": pa.array([str(k) for k in ids], pa.string()),
                "in": pa.array([{"key": -k} for k in ids], pa.struct([("key", pa.int64())])),
                "a.b": pa.array([k % 2 == 0 for k in ids], pa.bool_()), "Key": pa.array([-k for k in ids], pa.int16()), "x y": pa.array([bytes([k % 3]) for k in ids], pa.binary()),
                "none": pa.nulls(len(ids)),
                **{f"more{j}": pa.array([k * j for k in ids], pa.int64()) for j in range(12)},
                "many": pa.array([[k] * (k % 3) for k in ids], pa.list_(pa.int16()))}
        table = pa.table({n: cols[n] for n in c["cols"]})
        if writer is None:
            writer = parquet.ParquetWriter(path, table.schema, **c["write"])
        writer.write_table(table, row_group_size=max(1, len(table)))
        for r in table.to_pylist():
            rows[r["id"]] = r
    writer.close()
    return rows


def same_row(a, b):
    return set(a) == set(b) and all(tok(a[k]) == tok(b[k]) for k in a)


class Ranks:
    def __init__(self, values):
        vs = sorted({v for v in values if not missing(v)})
        self.of = {}
        last = None
        n = 0
        for v in vs:
            n += v != last
            last = v
            self.of[v] = n

    def row(self, i, v):
        return {"id": i, "key": 0 if missing(v) else self.of[v], "null": missing(v)}


def seen(table, rows, ranks, extra=()):
    """rows of a table; a row that is none of the file's has the id -1"""
    out = []
    for r in table.to_pylist():
        r = {k: v for k, v in r.items() if k not in extra}
        known = r.get("id") in rows and same_row(r, rows[r["id"]])
        out.append(ranks.row(r["id"], rows[r["id"]]["key"]) if known else {"id": -1, "key": 0, "null": True})
    return out


def groups(c, rows, ranks):
    out, i = [], 0
    for g in c["groups"]:
        out.append([ranks.row(k, rows[k]["key"]) for k in range(i, i + len(g))])
        i += len(g)
    return out


def sort(e, c, path):
    from dustgoggles import mosaic

    rows = write(path, c)
    ranks = Ranks([r["key"] for r in rows.values()])
    e["gs"], e["dir"], e["processed"], e["names"] = groups(c, rows, ranks), c["dir"] or "ascending", bool(c["proc"]), list(c["cols"])
    kw = dict(c["kw"])
    if c["dir"]:
        kw["direction"] = c["dir"]
    if c["n"]:
        kw["n_chunks"] = c["n"]
    if c["schema"] or c["proc"] == "add":
        kw["schema"] = parquet.read_schema(path)
    if c["proc"] == "add":
        kw["schema"] = kw["schema"].append(pa.field("extra", pa.int64()))
        e["names"].append("extra")

    def processor(table):
        e["chunks"].append(seen(table, rows, ranks))
        if c["proc"] == "add":
            return table.append_column("extra", pa.array([7] * len(table), pa.int64()))
        return table

    if c["proc"]:
        kw["inline_processor"] = processor
    out = path + ".out"
    mosaic.sort_chunked(path, out, "key", **kw)
    f = parquet.ParquetFile(out)
    table = f.read()
    e["names2"] = table.column_names
    e["limit"] = c["kw"].get("row_group_size", 0)
    e["sizes"] = [f.metadata.row_group(i).num_rows for i in range(f.metadata.num_row_groups)]
    e["out"] = seen(table, rows, ranks, ("extra",))


def read(e, c, path):
    from dustgoggles import mosaic

    rows = write(path, c)
    lo, hi = c["bounds"]
    ranks = Ranks([r["key"] for r in rows.values()] + [b for b in (lo, hi) if b is not None])
    e["gs"], e["names"] = groups(c, rows, ranks), list(c["cols"])
    e["b"] = {"lo": ranks.of.get(lo, 0), "hi": ranks.of.get(hi, 0), "from": lo is not None, "to": hi is not None}
    recs = [r for r in mosaic.parquet_metadata_records(path) if r["path_in_schema"] == "key"]
    if c.get("some") is not None:
        # only some of the groups' records
        e["gs"], recs = [e["gs"][i] for i in c["some"]], [recs[i] for i in c["some"]]
    kind = {"py": lambda x: x, "np": lambda x: np.float64(x) if isinstance(x, float) else x}[c["np"]]
    got = mosaic.read_between(parquet.ParquetFile(path), "key", (kind(lo), kind(hi)), recs, **c["kw"])
    if got is None:
        e["nothing"] = True
    else:
        e["names2"], e["out"] = got.column_names, seen(got, rows, ranks)


def truth(path):
    meta, out = parquet.read_metadata(path), []
    for g in range(meta.num_row_groups):
        for j in range(meta.num_columns):
            k = meta.row_group(g).column(j)
            st = k.statistics
            out.append({"ix": j, "group": g, "name": k.path_in_schema, "all": k.num_values, "nv": k.num_values if st is None else st.num_values,
                        "comp": k.total_compressed_size, "uncomp": k.total_uncompressed_size, "type": tok(k.physical_type),
                        "dict": tok(k.has_dictionary_page), "enc": tok(tuple(k.encodings)), "codec": tok(k.compression)})
    return out


def as_int(v):
    try:
        return int(v)
    except (TypeError, ValueError):
        return -1


def records(e, c, path):
    from dustgoggles import mosaic

    write(path, c)
    e["truth"] = truth(path)
    e["recs"] = [{"ix": r["col_ix"], "group": r["row_group"], "name": r["path_in_schema"], "nv": r["num_values"],
                  "comp": r["total_compressed_size"], "uncomp": r["total_uncompressed_size"], "type": tok(r["physical_type"]),
                  "dict": tok(r["has_dictionary_page"]), "enc": tok(tuple(r["encodings"])), "codec": tok(r["compression"])}
                 for r in mosaic.parquet_metadata_records(path)]


def columns(e, c, path):
    from dustgoggles import mosaic

    write(path, c)
    e["truth"] = truth(path)
    df = mosaic.meta_column_df(path, **c["kw"])
    e["names"] = [str(x) for x in df.columns]

    def col(j):
        s = df.iloc[:, j]
        at = {i: s.iloc[k] for k, i in enumerate(s.index)}
        enc = at.get("encodings")
        return {"ix": as_int(at.get("col_ix")), "name": str(at["column"]), "nv": as_int(at["num_values"]), "comp": as_int(at["comp_size"]),
                "uncomp": as_int(at["uncomp_size"]), "type": tok(at.get("type")), "dict": tok(at.get("dict_page")),
                "enc": tok(tuple(enc)) if isinstance(enc, (list, tuple)) else tok(enc), "codec": tok(at.get("compression"))}

    e["recs"] = [col(j) for j in range(df.shape[1])]


def do(c):
    e = {**copy.deepcopy(BLANK), "fn": c["fn"]}
    d = tempfile.mkdtemp(prefix="vmos_")
    path = os.path.join(d, "in.parquet")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            {"sort": sort, "read": read, "records": records, "columns": columns}[c["fn"]](e, c, path)
    except Hang:
        raise
    except BaseException as ex:
        e["exc"], e["msg"] = type(ex).__name__, str(ex)[:200]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return e


def play(case):
    return {"ev": [do(c) for c in case["ops"]]}
