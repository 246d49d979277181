"""C04: concurrent notepad writes are not lost or mixed."""
import copy

from conchost import play
from lib import SPEC, record
from props.c01 import any_policy
from selftest import must_reject

KW = [{}, {}, {"codec": 1}, {"index_type": "MetaTagIndex"}, {"update_on_init": True}]


def op(name, k, v=None, x=True):
    return {"op": name, "k": k, "v": v, "x": x}


class Maker:
    """
    workers' calls: own keys are set, read and deleted by one worker; "s.." keys
    exist from the start and are overwritten or tried exclusively by anybody;
    "f.." keys are new and only ever tried exclusively; "o.." keys are new and
    only ever overwritten.
    """

    def __init__(self, rng, cls):
        self.rng, self.cls, self.n = rng, cls, 20

    def val(self):
        self.n += self.rng.choice([1, 1, 2])
        return self.n

    def one(self, w):
        rng = self.rng
        r = rng.random()
        own = rng.choice([f"w{w}", f"w{w}b"])
        if r < 0.25:
            return op("put", own, self.val(), rng.random() < 0.7)
        if r < 0.35:
            return op("del", own)
        if r < 0.45:
            return op("get", own)
        if self.cls == "GridPaper":
            return op("put", own, self.val())
        if r < 0.75:
            return op("put", rng.choice(["s", "s2"]), self.val(), rng.random() < 0.8)
        if r < 0.88:
            return op("put", rng.choice(["f", "f2"]), self.val(), False)
        return op("put", "o", self.val())

    def start(self, workers):
        rng = self.rng
        out = [[k, self.val()] for w in range(workers) for k in (f"w{w}", f"w{w}b")
               if rng.random() < 0.4]
        if self.cls == "GridPaper":
            return out
        return out + [["s", self.val()], ["s2", self.val()]]

    @staticmethod
    def keys(workers):
        return [k for w in range(workers) for k in (f"w{w}", f"w{w}b")] + ["s", "s2", "f", "f2", "o"]


def random_case(ix, rng):
    shape = rng.choice([(1, 1), (1, 1), (1, 1, 1), (1, 2), (2,), (1, 1, 1, 1)])
    cls = rng.choice(["Notepad"] * 4 + ["GridPaper"])
    m, n = Maker(rng, cls), sum(shape)
    kw = rng.choice(KW) if cls == "Notepad" else {}
    kw = {k: v for k, v in kw.items() if k != "codec"}
    jobs = [[m.one(w) for _ in range(rng.choice([1, 2, 2, 3, 4]))] for w in range(n)]
    return {"ix": ix, "shape": shape, "cls": cls, "kw": kw, "start": m.start(n), "jobs": jobs,
            "keys": m.keys(n), "late": rng.random() < 0.25,
            "policy": torn(rng, any_policy(rng, 90 * n))}


def torn(rng, policy):
    if rng.random() < 0.4:
        policy["tear"] = rng.choice([20, 60, 200])
    return policy


def pairs(m):
    v = m.val
    if m.cls == "GridPaper":
        return [([["w0", v()]], op("put", "w0", v()), op("put", "w1", v())),
                ([["w0", v()], ["w1", v()]], op("del", "w0"), op("put", "w1", v())),
                ([["w0", v()], ["w1", v()]], op("del", "w0"), op("del", "w1")),
                ([["w0", v()], ["w1", v()]], op("put", "w0", v()), op("get", "w1")),
                ([["w0", v()], ["w1", v()]], op("del", "w0"), op("get", "w1"))]
    s = [["s", v()]]
    return [
        (s, op("put", "s", v()), op("put", "s", v())),
        (s, op("put", "s", v()), op("put", "s", v(), False)),
        ([], op("put", "f", v(), False), op("put", "f", v(), False)),
        ([], op("put", "o", v()), op("put", "o", v())),
        (s + [["w0", v()]], op("del", "w0"), op("put", "s", v())),
        ([["w0", v()], ["w1", v()]], op("del", "w0"), op("put", "w1", v())),
        ([["w0", v()], ["w1", v()]], op("del", "w0"), op("get", "w1")),
        ([["w0", v()]], op("del", "w0"), op("put", "w1", v())),
        ([], op("put", "w0", v()), op("put", "w1", v())),
    ]


def enumerated(rng, ix0, limit, deep):
    cases = []
    for cls in ("Notepad", "GridPaper"):
        for flip in (0, 1):
            for point in range(2, 120, 1 if deep else 3):
                m = Maker(rng, cls)
                for start, one, two in pairs(m):
                    jobs = [[one], [two]]
                    pre = {str(point + rng.randrange(1 if deep else 3)): 1 - flip}
                    if rng.random() < 0.5:
                        pre[str(point + rng.randrange(1, 80))] = flip
                    cases.append({
                        "ix": 0, "shape": rng.choice([(1, 1), (1, 1), (2,)]), "cls": cls, "kw": {},
                        "start": start, "jobs": jobs, "keys": m.keys(2),
                        "late": rng.random() < 0.2,
                        "policy": torn(rng, {"kind": "preempt", "preempt": pre,
                                             "order": [flip, 1 - flip]})})
    if len(cases) > limit:
        cases = rng.sample(cases, limit)
    for i, c in enumerate(cases):
        c["ix"] = ix0 + i
    return cases


def corrupt(hist, rng):
    bad = []
    for h in hist[:14]:
        h = copy.deepcopy(h)
        h.pop("case")
        ks = [e for e in h["ev"] if e["op"] == "keys"]
        vs = [e for e in h["ev"] if e["op"] == "value"]
        if vs and rng.random() < 0.6:
            rng.choice(vs)["out"] = "n'lost'"
        elif ks:
            ks[0]["lst"] = ks[0]["lst"] + ["s'zz'"]
        else:
            continue
        bad.append(h)
    return bad


def run(ctx):
    rng = ctx.rng()
    ctx.model("ConcPad")
    text = (SPEC / "ConcPad.cfg").read_text()
    ctx.model("ConcPad", cfg_text=text.replace("{1, 2}", "{1, 2, 3}").replace("Calls = 2", "Calls = 1"))
    if ctx.thorough:
        ctx.model("ConcPad", cfg_text=text.replace("Calls = 2", "Calls = 3"), timeout=900)
    for bug in ("inplace", "blockfirst"):
        ctx.model_fails("ConcPad", bug, cfg_text=text.replace('"none"', f'"{bug}"'))
    k = ctx.scale(1, 10)
    cases = enumerated(rng, 0, ctx.scale(400, 10000), ctx.thorough)
    ctx.note("schedules_enumerated", len(cases))
    cases += [random_case(len(cases) + i, rng) for i in range(300 * k)]
    rng.shuffle(cases)
    hist = record(ctx, play, cases, "TraceConc", "schedule", limit=60, deterministic=False,
                  heap="6g")
    ctx.note("scheduled_steps", sum(h["steps"] for h in hist))
    if not ctx.violations:
        must_reject(ctx, "TraceConc", corrupt(hist, ctx.rng("corrupt")))
    ctx.assumptions += [
        "single shared memory operations are atomic; shared keys are overwritten or tried "
        "exclusively when they exist, or only tried exclusively, or only overwritten; only a "
        "key's own worker deletes or reads it while others write",
    ]
