"""shared machinery of the checks: TLC runs, evidence, violations, case runners.

Nothing in here knows anything about a particular property.
"""
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
OUT = VERIF / "out"
EVIDENCE = VERIF / "evidence"
JAVA_CP = (
    "/opt/veriftools/tla/tla2tools.jar:"
    "/opt/veriftools/tla/CommunityModules-deps.jar"
)
NPROC = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    """the check itself could not be carried out (exit 2, never a verdict)."""


class Hang(BaseException):
    """the code under test did not come back."""


def use_repo():
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.dont_write_bytecode = True
    if sys.path[0] != repo:
        sys.path.insert(0, repo)
    import warnings

    warnings.simplefilter("ignore")


# --------------------------------------------------------------------- TLC


class TLCResult:
    def __init__(self, text, rc, wall):
        self.text, self.rc, self.wall = text, rc, wall
        m = re.findall(
            r"(\d+) states generated, (\d+) distinct states found", text
        )
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.finished = "Model checking completed." in text or (
            "The number of states generated" in text
        )
        self.violated = re.findall(
            r"(?:Invariant|Action property|Temporal properties|property) (\S*) ?"
            r"(?:is|was|were) violated", text
        )
        self.lines = text.splitlines()

    def printed(self, tag):
        """values printed by PrintT(<<tag, ...>>), as parsed python values."""
        out = []
        for m in re.finditer(rf'(?m)^<<\s*"{tag}"', self.text):
            try:
                out.append(parse_tla(self.text, m.start()))
            except (AttributeError, ValueError, TypeError):
                # odd names in what the specification says: keep the numbers
                rest = self.text[m.end():m.end() + 400]
                out.append([tag] + [int(x) for x in re.findall(r"^[\s,]*(\d+)(?:,\s*(\d+))?", rest)[0] if x]
                           + [rest[:300]])
        return out

    def json_printed(self, tag):
        """PrintT(<<tag, ToJson(x)>>) -> x"""
        return [json.loads(v[1]) for v in self.printed(tag)]


_TOK = re.compile(
    r'\s*(<<|>>|\(|\)|:>|@@|\[|\]|\{|\}|,|\|->|"(?:[^"\\]|\\.)*"|-?\d+|TRUE|FALSE|[^\W\d]\w*)'
)


def parse_tla(text, start=0):
    at = start

    def tok():
        nonlocal at
        m = _TOK.match(text, at)
        at = m.end()
        return m.group(1)

    def seq(end):
        out = []
        t = tok()
        while t != end:
            out.append(val(t))
            t = tok()
            if t == ",":
                t = tok()
        return out

    def val(t):
        if t == "<<":
            return seq(">>")
        if t == "{":
            return {"set": seq("}")}
        if t == "[":
            out = {}
            k = tok()
            while k != "]":
                tok()
                out[k] = val(tok())
                k = tok()
                if k == ",":
                    k = tok()
            return out
        if t == "(":
            out = {}
            while True:
                k = val(tok())
                tok()
                out[json.dumps(k) if isinstance(k, (list, dict)) else k] = val(tok())
                if tok() == ")":
                    return out
        if t.startswith('"'):
            return json.loads(t)
        if t in ("TRUE", "FALSE"):
            return t == "TRUE"
        if re.fullmatch(r"-?\d+", t):
            return int(t)
        return t

    return val(tok())


def tlc(
    module, cfg=None, env=None, workers=None, timeout=600, heap="3g",
    extra=(), deadlock=False, want_ok=False, cfg_text=None,
):
    """run TLC on spec/<module>.tla. returns a TLCResult."""
    tmp = tempfile.mkdtemp(prefix="vtlc_")
    try:
        if cfg_text is not None:
            cfgpath = Path(tmp) / f"{module}_gen.cfg"
            cfgpath.write_text(cfg_text)
        else:
            cfgpath = SPEC / f"{cfg or module}.cfg"
        cmd = [
            "java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
            "-Dtlc2.TLC.stopAfter=100000",
            f"-DTLA-Library={SPEC}", "-cp", JAVA_CP, "tlc2.TLC",
            "-metadir", tmp, "-noGenerateSpecTE",
            "-workers", str(workers or NPROC), "-config", str(cfgpath),
        ]
        if not deadlock:
            cmd.append("-deadlock")  # i.e. don't report deadlock
        cmd += list(extra) + [str(SPEC / f"{module}.tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t0 = time.time()
        try:
            p = subprocess.run(
                cmd, cwd=tmp, env=e, timeout=timeout, text=True,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            )
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f"TLC timed out on {module}") from ex
        res = TLCResult(p.stdout, p.returncode, time.time() - t0)
        # 0 ok; 10..14: some kind of violation; anything else: error
        if p.returncode not in (0, 10, 11, 12, 13):
            raise MachineryError(
                f"TLC failed on {module} (rc={p.returncode}):\n"
                + "\n".join([x for x in p.stdout.splitlines() if x and not x.startswith(("Parsing", "Semantic proc"))][-30:])
            )
        if want_ok and p.returncode != 0:
            raise MachineryError(
                f"the model {module} violates its own properties "
                f"(rc={p.returncode}):\n"
                + "\n".join(p.stdout.splitlines()[-80:])
            )
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------------- context


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(
            seed if seed is not None else os.environ.get("VERIF_SEED", "1")
        )
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.level = "model_checking"
        self.violations = []
        self.known_hits = []
        self.out = OUT / prop
        shutil.rmtree(self.out, ignore_errors=True)
        self.out.mkdir(parents=True, exist_ok=True)
        try:
            known = json.loads((VERIF / "known_findings.json").read_text())
        except FileNotFoundError:
            known = {"findings": []}
        self.known = {
            f["signature"]: f for f in known["findings"]
            if f["property"] == prop
        }

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, salt=""):
        return random.Random(f"{self.seed}/{self.prop}/{salt}")

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, **kw):
        """exhaustively check a model; it must satisfy its own properties."""
        res = tlc(module, want_ok=True, **kw)
        self.states += res.distinct
        self.transitions += res.generated
        self.extra.setdefault("models", {})[kw.get("cfg") or module] = {
            "distinct": res.distinct, "generated": res.generated,
            "wall_s": round(res.wall, 1),
        }
        return res

    def model_fails(self, module, what, **kw):
        """non-vacuity: a weakened model must be rejected by TLC."""
        res = tlc(module, **kw)
        if res.rc == 0:
            raise MachineryError(
                f"{kw.get('cfg') or module}: weakened model was accepted ({what})"
            )
        self.extra.setdefault("weakened_models_rejected", []).append(what)
        return res

    def violation(self, what, case=None, signature=None):
        if signature is not None and signature in self.known:
            if signature not in self.known_hits:
                self.known_hits.append(signature)
            return
        if len(self.violations) < 20:
            path = self.out / f"violation_{len(self.violations)}.json"
            path.write_text(
                json.dumps(
                    {"property": self.prop, "what": what, "case": case,
                     "seed": self.seed, "tier": self.tier},
                    indent=1, default=repr,
                )
            )
            self.violations.append((what, path))

    def note(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            s = s if isinstance(s, str) else json.dumps(s, default=repr)
            self.samples.append(s[:1500])

    def finish(self):
        for what, path in self.violations[:5]:
            print(f"# {what[:600]}")
        for sig in self.known_hits:
            print(
                f"KNOWN-FINDING: property={self.prop} "
                f"{self.known[sig]['what']}"
            )
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["(none)"],
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": self.level, "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        EVIDENCE.mkdir(exist_ok=True)
        text = json.dumps(ev, indent=1, default=repr)
        (EVIDENCE / f"{self.prop}.json").write_text(text + "\n")
        if self.violations:
            print(
                f"VIOLATION property={self.prop} "
                f"replay={self.violations[0][1]}"
            )
            return 1
        print(
            f"OK property={self.prop} states={self.states} "
            f"traces={self.traces} wall={ev['wall_s']}s"
        )
        return 0


# -------------------------------------------------------- running real code


def exc_token(ex):
    """how an exception appears in a trace: its class name."""
    return "EXC:" + type(ex).__name__


class time_limit:
    """raise Hang in the main thread if the block takes too long."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def alarm(*_):
            raise Hang()

        self.old = signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def blame(ex):
    """
    'raised' if ex is due to the code under test: it came out of it where the
    harness expects none, or the harness was given something of a wrong kind.
    'error' if the machinery failed.
    """
    if isinstance(ex, (MachineryError, MemoryError)) or getattr(ex, "errno", None) in (12, 24, 28):
        return "error"
    text = "".join(traceback.format_exception(ex))
    if re.search(r'File "[^"]*/dustgoggles/[^"]*"', text):
        return "raised"
    wrong = (TypeError, AttributeError, KeyError, IndexError, ValueError)
    return "raised" if isinstance(ex, wrong) else "error"


def _chunk_main(func, cases, conn, limit):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    for i, case in cases:
        try:
            with time_limit(limit):
                res = ("ok", func(case))
        except Hang:
            res = ("hang", None)
        except BaseException as ex:
            res = (blame(ex), traceback.format_exc())
        try:
            conn.send((i, res))
        except BaseException:
            conn.send((i, ("error", traceback.format_exc())))
    conn.send(None)
    conn.close()
    os._exit(0)


def _stopped(r):
    """did the code under test not come back?"""
    if r is None or r[0] != "ok":
        return r is not None and r[0] in ("hang", "died")
    ev = r[1].get("ev") if isinstance(r[1], dict) else None
    last = ev[-1] if ev and isinstance(ev[-1], dict) else {}
    return (str(last.get("op", "")).startswith("hang")
            or str(last.get("out", "")) in ("HANG", "DIED"))


def at_once(func, argss):
    """several runs of TLC side by side"""
    with ThreadPoolExecutor(max_workers=4) as pool:
        return list(pool.map(lambda a: func(*a), argss))


def pmap(func, cases, nproc=None, limit=20.0, give_up=None, lost=None):
    """
    run func(case) for each case in forked workers. returns a list, in order,
    of ('ok', result) | ('hang', None) | ('error', traceback).
    'error' means the harness itself raised: func is expected to turn every
    exception of the code under test into data. after give_up seconds, or if
    more than `lost` cases did not come back, the rest is ('skipped', None).
    """
    cases = list(cases)
    began = time.monotonic()
    nproc = max(1, min(nproc or NPROC, len(cases) or 1))
    ctx = mp.get_context("fork")
    results = [None] * len(cases)
    procs = []
    for w in range(nproc):
        mine = [(i, cases[i]) for i in range(w, len(cases), nproc)]
        here, there = ctx.Pipe(False)
        p = ctx.Process(target=_chunk_main, args=(func, mine, there, limit))
        p.start()
        there.close()
        procs.append([p, here, mine, 0])
    from multiprocessing.connection import wait

    live = {p[1]: p for p in procs}
    while live:
        gone = sum(map(_stopped, results))
        if (lost and gone > lost) or (give_up and time.monotonic() - began > give_up):
            for p in live.values():
                p[0].kill()
            results = [r or ("skipped", None) for r in results]
            break
        ready = wait(list(live), timeout=5 if give_up else limit * 3 + 30)
        if not ready and give_up:
            continue
        if not ready:
            for conn, p in list(live.items()):
                p[0].kill()
                for i, _ in p[2]:
                    if results[i] is None:
                        results[i] = ("hang", None)
                del live[conn]
            break
        for conn in ready:
            p = live[conn]
            try:
                msg = conn.recv()
            except (EOFError, OSError):
                # the worker died under the code under test
                todo = [c for c in p[2] if results[c[0]] is None]
                if todo:
                    results[todo[0][0]] = ("died", None)
                del live[conn]
                rest = todo[1:]
                if rest:
                    here, there = ctx.Pipe(False)
                    q = ctx.Process(
                        target=_chunk_main, args=(func, rest, there, limit)
                    )
                    q.start()
                    there.close()
                    live[here] = [q, here, rest, 0]
                    procs.append(live[here])
                continue
            if msg is None:
                del live[conn]
                continue
            results[msg[0]] = msg[1]
    for p in procs:
        p[0].join(5)
        if p[0].is_alive():
            p[0].kill()
    return results


# ------------------------------------------------------ trace/vector checks


def validate(
    ctx, module, histories, cfg=None, timeout=600, describe=None,
    signature=None, workers=None, heap="4g", batch=None, deterministic=True,
    label=None,
):
    """
    have TLC decide whether each recorded history is a behaviour of the spec.

    spec/<module>.tla reads the histories from the file in $TRACE_FILE, starts
    one behaviour per history, and prints <<"DONE", h>> when it has explained
    the whole of history h and <<"BAD", h, l, clause, expected>> if event l of
    history h contradicts it. a history with neither is rejected as well
    (some event was not enabled at all).
    """
    if not histories:
        raise MachineryError("no histories to validate")
    bad = 0
    batch = batch or len(histories)
    for lo in range(0, len(histories), batch):
        part = histories[lo:lo + batch]
        path = ctx.out / f"trace_{module}_{lo}.json"
        path.write_text(json.dumps(part))
        res = tlc(
            module, cfg=cfg, env={"TRACE_FILE": path}, timeout=timeout,
            workers=workers, heap=heap,
        )
        if res.rc not in (0, 12, 13) or (
            res.rc and not res.printed("BAD") and deterministic
        ):
            # an invariant of the spec broke along a trace: report as such
            if res.rc in (10, 11):
                raise MachineryError(res.text[-3000:])
        done = {r[1] for r in res.printed("DONE")}
        badmap = {}
        for r in res.printed("BAD"):
            badmap.setdefault(r[1], r)
        for h in range(1, len(part) + 1):
            if h in done and (h not in badmap or not deterministic):
                continue
            bad += 1
            r = badmap.get(h)
            case = part[h - 1]
            if r is not None:
                clause = r[3] if len(r) > 3 else "?"
                what = (
                    f"{label or module}: event {r[2]} of a recorded history is "
                    f"not a behaviour of the specification: {clause}; "
                    f"spec says {r[4:]}"
                )
            else:
                clause = "no-behaviour"
                what = (
                    f"{label or module}: no behaviour of the specification "
                    f"explains this recorded history"
                )
            if describe is not None:
                what += " :: " + describe(lo + h - 1, r)
            sig = None
            if signature is not None:
                sig = signature(lo + h - 1, r)
            ctx.violation(what, case, sig)
        ctx.states += res.distinct
        ctx.transitions += res.generated
        ctx.traces += len(part)
        if not bad:
            path.unlink()
    return bad


def finished(ctx, play, cases, label, limit=120, nproc=None):
    """
    the histories that play returns for the cases. a case that does not come
    back is a violation; after a while of those the rest is not tried.
    """
    histories = []
    results = pmap(play, cases, limit=limit, nproc=nproc,
                   give_up=ctx.scale(450, 5000), lost=6)
    for case, (status, res) in zip(cases, results):
        if status == "error":
            raise MachineryError(res)
        if status == "raised":
            ctx.violation(f"{label}: the code under test could not be followed: "
                          + res.strip().splitlines()[-1][:300],
                          {"case": case, "traceback": res[-3000:]})
        elif status == "skipped":
            ctx.note("skipped")
        elif status != "ok":
            ctx.violation(f"{label}: history did not finish ({status})", case)
        else:
            histories.append(res)
    return histories


def record(ctx, play, cases, module, label, limit=120, nproc=None, **kw):
    """run play on every case, validate the histories it returns."""
    histories = finished(ctx, play, cases, label, limit, nproc)
    ctx.note("events", sum(len(h["ev"]) for h in histories))
    if histories:
        ctx.sample({label: histories[-1]["ev"][:4]})
        validate(ctx, module, histories, label=label, **kw)
    return histories


def pick_names(rng, pool, n):
    """n different names; sometimes two that differ in one place only"""
    names = rng.sample(pool, n)
    if n > 1 and rng.random() < 0.4:
        one, other = rng.choice([("a", "b"), ("q", "Q"), ("z", "z "), ("k", "k."), ("1", "2"), ("0", "00"), ("é", "è"), ("", "_")])
        long, tail = "n" * rng.choice([1, 10, 50, 120, 120]), "m" * rng.choice([0, 0, 20])
        names[:2] = [long + one + tail, long + other + tail]
    return names


def edges_of(res):
    """
    the labelled transitions a model printed with
    PrintT(<<"EDGE", ToJson([f |-> .., t |-> .., e |-> ..])>>), and its initial
    states PrintT(<<"INIT", ToJson(..)>>)
    """
    seen, edges = set(), []
    for e in res.json_printed("EDGE"):
        key = json.dumps(e, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        edges.append(
            (json.dumps(e["f"], sort_keys=True), e["e"],
             json.dumps(e["t"], sort_keys=True))
        )
    return edges


def tours(edges, init, maxlen=60, rng=None):
    """
    split a deterministic labelled graph into walks from init covering every
    edge at least once. yields lists of edges.
    """
    from collections import defaultdict, deque

    out = defaultdict(list)
    for ix, (f, _, t) in enumerate(edges):
        out[f].append(ix)
    if rng is not None:
        for v in out.values():
            rng.shuffle(v)
    unvisited = set(range(len(edges)))
    ptr = defaultdict(int)

    def next_unvisited(node):
        while ptr[node] < len(out[node]):
            ix = out[node][ptr[node]]
            if ix in unvisited:
                return ix
            ptr[node] += 1
        return None

    def path_to_unvisited(node):
        prev, queue = {node: None}, deque([node])
        while queue:
            n = queue.popleft()
            if next_unvisited(n) is not None:
                path = []
                while prev[n] is not None:
                    ix = prev[n]
                    path.append(ix)
                    n = edges[ix][0]
                return path[::-1]
            for ix in out[n]:
                t = edges[ix][2]
                if t not in prev:
                    prev[t] = ix
                    queue.append(t)
        return None

    while unvisited:
        node, walk = init, []
        while len(walk) < maxlen:
            ix = next_unvisited(node)
            if ix is None:
                path = path_to_unvisited(node)
                if path is None:
                    break
                if walk and len(walk) + len(path) > maxlen:
                    break
                for p in path:
                    walk.append(edges[p])
                    node = edges[p][2]
                continue
            unvisited.discard(ix)
            walk.append(edges[ix])
            node = edges[ix][2]
        if not walk:
            raise MachineryError(
                f"{len(unvisited)} transitions unreachable from the start"
            )
        yield walk
