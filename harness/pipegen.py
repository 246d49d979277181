"""random and model-made histories of compositions."""
from pipehost import KINDS

SIGS = ["x", "x", "y", "~", "#0", "%F", "''", "[]", "#1", "{}"]
VALS = ["p", "q", "~", "#0", "''", "%F", "r", "[]"]
NAMES = ["sa", "sb", "i0", "i1", "i2", "sc", "i7", "tq"]
KW = ["k", "m", "z", "a b", "class", ""]


class Gen:
    def __init__(self, rng, w):
        """w: weights of operations, and how much there is to be of things"""
        self.rng, self.w, self.k = rng, w, 0
        self.nits = 0
        self.made = []

    def fun(self, deep=True):
        rng = self.rng
        again = [f for f in self.made if deep or f["kind"] != "comp"]
        if again and rng.random() < 0.08:
            return rng.choice(again)   # the same function as elsewhere
        self.k += 1
        id_ = f"f{self.k}"
        f = {"kind": "plain", "id": id_, "name": id_ if rng.random() < 0.8 else "same",
             "ret": rng.choice(["", "", "", "", "~", "#0", "''", "[]"]),
             "how": rng.choice(["", "", "", "object", "method", "dynamic"])}
        r = rng.random()
        if r < self.w.get("partial", 0.25):
            f["kind"] = "partial"
            f["how"] = rng.choice(["", "", "curry"])
            f["args"] = [rng.choice(VALS) for _ in range(rng.choice([0, 1, 1, 2, 3] * 8 + [10, 12]))]
            f["kw"] = [[k, rng.choice(VALS)] for k in sorted(rng.sample(KW, rng.choice([0, 1, 1, 2])))]
        elif r < self.w.get("partial", 0.25) + 0.08 and deep:
            f["kind"] = "comp"
            f["sub"] = [self.fun(False) for _ in range(rng.choice([1, 2]))]
        self.made.append(f)
        return f

    def insert(self):
        rng = self.rng
        r = rng.random()
        if r < 0.6:
            return {"pk": "int", "pi": rng.choice([0, 0, 1, 1, 2, 3, 5] * 6 + [9, 10, 11, 12]), "ps": ""}
        if r < 0.95:
            return {"pk": "str", "pi": 0, "ps": rng.choice(KW)}
        return {"pk": "none", "pi": 0, "ps": ""}

    def send(self, names):
        rng = self.rng
        self.k += 1
        q = {"pipe": f"p{self.k}" if rng.random() < 0.45 else "",
             "ret": rng.choice(["", "", "", "~", "#0"])}
        if not q["pipe"]:
            q["ret"] = ""
        k = rng.choice(["none", "list", "list", "dict", "file", "step", "step", "other"])
        q["tk"] = k
        q["t"] = {"list": rng.choice(["l0", "l1", "l2"]), "dict": rng.choice(["d0", "d1"]),
                  "file": rng.choice(["o0", "o1"]), "step": ""}.get(k, "")
        if k == "step":
            q["t"] = rng.choice([n for n in names if n[0] in "is"] or ["i0"])
            q.update(self.insert())
        elif k == "list":
            r = rng.random()
            q.update({"pk": "none"} if r < 0.5 else {"pk": "int", "pi": rng.choice([0, 0, 1, -1, 2, -3, 5])}
                     if r < 0.95 else {"pk": "str", "ps": "w"})
        elif k == "dict":
            q.update(rng.choice([{"pk": "str", "ps": rng.choice("uv")}, {"pk": "int", "pi": rng.choice([0, 4])},
                                 {"pk": "none"}]))
        else:
            q.update(rng.choice([{"pk": "none"}, {"pk": "int", "pi": 0}]))
        return q

    def case(self, ix):
        rng, w = self.rng, self.w
        shape = {}   # composition -> names of its steps
        ops, ncap = [], 0
        lists = [["l0", []], ["l1", [rng.choice(VALS) for _ in range(2)]], ["l2", ["p"]]]

        def new(c):
            form = rng.choice(["map", "map", "seq", "tuple"])
            n = rng.choice([1, 2, 2, 3, 3, 4] + [0] * (form == "map" and rng.random() < 0.1))
            if rng.random() < w.get("long", 0.03):
                form, n = rng.choice(["seq", "tuple"]), rng.choice([10, 11, 12, 13])
            names = [f"i{i}" for i in range(n)] if form != "map" else rng.sample(NAMES, n)
            other = names + rng.sample(NAMES, 2)
            ins, snd = [], []
            for m in other:
                if rng.random() < w.get("ins", 0.3):
                    keys = [self.insert() for _ in range(rng.choice([1, 1, 2, 3] * 8 + [14]))]
                    if len(keys) > 9:
                        keys += [{"pk": "int", "pi": i, "ps": ""} for i in range(rng.choice([9, 12]))]
                    ins.append({"n": m, "pos": [[k, rng.choice(VALS)] for k in sorted(
                        {i["pi"] for i in keys if i["pk"] == "int"})],
                        "kw": [[k, rng.choice(VALS)] for k in sorted(
                            {i["ps"] for i in keys if i["pk"] == "str"})]})
                if rng.random() < w.get("snd", 0.3):
                    q = [self.send(other) for _ in range(rng.choice([0, 1, 1, 2, 3] * 8 + [9, 12]))]
                    snd.append({"n": m, "q": q})
            ins = list({i["n"]: i for i in ins}.values())
            snd = list({s["n"]: s for s in snd}.values())
            shape[c] = list(names)
            return {"op": "new", "c": c, "form": form if form != "map" else "",
                    "steps": [{"n": m, "f": self.fun()} for m in names], "ins": ins, "snd": snd,
                    "trk": rng.random() < w.get("trk", 0.3), "opt": rng.random() < w.get("opt", 0.2)}

        cs = ["A", "B"] if rng.random() < 0.25 else ["A"]
        for c in cs:
            ops.append(new(c))
        its = {}   # iterator -> composition
        kinds = list(w["ops"])
        while len(ops) < w.get("len", 14):
            op = rng.choices(kinds, [w["ops"][k] for k in kinds])[0]
            c = rng.choice(cs)
            names = shape[c] + rng.sample(NAMES, 2)
            open_here = c in its.values()
            e = {"op": op, "c": c}
            if op == "new":
                if open_here:
                    continue
                e = new(c)
            elif op == "add_step":
                e["f"] = self.fun()
                e["n"] = rng.choice(names + [""] * 2)
                full = e["n"] or f"i{len(shape[c]) + 1}"
                if open_here and full not in shape[c]:
                    continue
                if full not in shape[c]:
                    shape[c].append(full)
            elif op == "add_insert":
                e.update(n=rng.choice(names), q={**self.insert()}, v=rng.choice(VALS))
            elif op == "add_send":
                e.update(n=rng.choice(names), q=self.send(names))
            elif op == "add_capture":
                if rng.random() < 0.4:
                    ncap += 1
                    e.update(n=rng.choice(names), q={"tk": "cap", "t": f"c{ncap}", "pk": "int"})
                else:
                    e.update(n=rng.choice(names), q={"tk": "list", "t": rng.choice(["l1", "l2", "l0"]),
                                                     "pk": "int"})
            elif op == "add_captures":
                e["ts"] = []
                for _ in shape[c]:
                    ncap += 1
                    e["ts"].append(f"c{ncap}")
            elif op == "reindex":
                if open_here:
                    continue
                shape[c] = [f"i{i}" for i in range(len(shape[c]))]
            elif op == "exec":
                e.update(v=rng.choice(SIGS), how=rng.choice(["", "", "call", "kw", "none"]))
                self.fault(e)
            elif op == "itnew":
                self.nits += 1
                e.update(it=f"t{self.nits}", v=rng.choice(SIGS))
                its[e["it"]] = c
            elif op == "itnext":
                if not its:
                    continue
                e["it"] = rng.choice(list(its))
                e["c"] = its[e["it"]]
                self.fault(e)
            ops.append(e)
        return {"ix": ix, "lists": lists, "dicts": ["d0", "d1"], "files": ["o0", "o1"], "ops": ops}

    def fault(self, e):
        rng = self.rng
        if rng.random() < self.w.get("fault", 0.15):
            e["at"] = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 11, 12, 13])
            e["exc"] = "EXC:" + rng.choice(KINDS)
