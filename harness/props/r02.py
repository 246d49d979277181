"""R02: trimming cuts exactly after the first known ending within the limit."""
import copy

from lib import SPEC, record
from selftest import must_reject
from trimhost import play

BITS = [b"END\r\n", b"END\r\n", b"END\n", b"END", b"E", b"EN", b"\r\n", b"\n", b"\0", b"\0\0", b"\0\0\0", b"\0\0\0\0", b"x", b"END \r\n", b"end\r\n",
        b"END\r\nEND\r\n", b"\0x", "é".encode(), "😀".encode(), "日".encode(), b"\xef\xbb\xbf", b"END_OBJECT = X\r\n", b"A = 1\r\n"]
JUNK = [b"\xff", b"\x80", b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f", b"\xc0\x80", b"\xe0\x80\x80", b"\xf4\x90\x80\x80"]


def contents(rng):
    bits = [rng.choice(BITS) for _ in range(rng.randrange(0, 7))]
    if rng.random() < 0.35:
        bits.insert(rng.randrange(len(bits) + 1), rng.choice(JUNK))
        if rng.random() < 0.6:
            bits.insert(rng.randrange(len(bits)), rng.choice([b"END\r\n", b"\0\0\0"]))
    return list(b"".join(bits))


def op(rng, tail=None):
    tail = contents(rng) if tail is None else tail
    fn = rng.choice(["trim"] * 5 + ["head", "head", "text"])
    c = {"fn": fn, "tail": tail, "pad": 0, "skip": 0, "cached": False, "insist": rng.random() < 0.3, "explicit": rng.random() < 0.5, "standard": False}
    usual = {"trim": 512000, "text": 35592}.get(fn)
    if rng.random() < 0.25:
        c["pad"] = rng.choice([1, 2, 100, 4096, 8192, 35592 - 3, 35592])
    if usual and rng.random() < 0.2:
        c["standard"], c["n"] = True, usual
        if rng.random() < 0.6:
            c["pad"] = max(0, usual - rng.randrange(0, len(tail) + 6) + rng.choice([0, 0, 3]))
    else:
        c["n"] = max(0, c["pad"] + rng.randrange(-1, len(tail) + 3))
        if rng.random() < 0.05:
            c["n"] = rng.choice([0, 1, c["pad"] // 2])
    kinds = ["str", "path"] if fn == "text" else ["str", "path", "open", "raw", "bytesio", "reader", "gzip"]
    c["kind"] = rng.choice(kinds)
    if c["kind"] in ("str", "path") and fn != "head":
        c["cached"] = rng.random() < 0.5
    elif c["kind"] not in ("str", "path") and rng.random() < 0.4:
        c["skip"] = rng.randrange(0, c["pad"] + len(tail) + 2) if c["pad"] < 5000 else rng.choice([0, c["pad"], 1])
    return c


def spoil(r, e):
    e = copy.deepcopy(e)
    if e["exc"]:
        return None
    g = e["got"]
    if g["tail"] and r.random() < 0.5:
        g["tail"].pop()
    else:
        g["tail"].append(68)
    return e


def decodable(e):
    try:
        bytes(e["c"]["tail"]).decode()
        return True
    except UnicodeDecodeError:
        return False


def run(ctx):
    rng = ctx.rng()
    text = (SPEC / "MCTrim.cfg").read_text()
    if ctx.thorough:
        text = text.replace("N = 4", "N = 6")
    res = ctx.model("MCTrim", cfg_text=text)
    small = text.replace("N = 6", "N = 4")
    for b in ("last", "before", "unlimited", "earliest"):
        ctx.model_fails("MCTrim", b, cfg_text=small.replace('"none"', f'"{b}"'))
    found = res.json_printed("CALL")
    ctx.note("model_inputs", len(found))
    ops = [op(rng, t) for t in rng.sample(found, min(len(found), ctx.scale(5000, 300000)))]
    ops += [op(rng) for _ in range(ctx.scale(5000, 60000))]
    # the same files again in changing order: what is remembered must be what is there
    cases = []
    for i in range(0, len(ops), 25):
        part = ops[i:i + 25]
        again = [o for o in part if o["cached"]]
        for o in again:
            q = dict(o)
            if rng.random() < 0.5 and not o["standard"]:
                q["n"] = max(0, o["n"] + rng.choice([-2, -1, 1, 5]))
            if rng.random() < 0.5:
                q["insist"] = not q["insist"]
            part = part + [q]
        rng.shuffle(part)
        cases.append({"ops": part})
    hist = record(ctx, play, cases, "TraceTrim", "trimming", limit=60, batch=1500, heap="6g")
    if not ctx.violations:
        r = ctx.rng("corrupt")
        bad = [spoil(r, r.choice([e for e in h["ev"] if decodable(e)])) for h in hist[-60:]]
        must_reject(ctx, "TraceTrim", [{"ev": [e]} for e in bad if e][:30])
    ctx.assumptions.append("a head that is not UTF-8 may fail to be decoded; readers return as many bytes as asked for, if there are any left")
