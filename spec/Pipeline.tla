------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The machine behind Composition: named steps in order, inserts (extra    *)
(* arguments of steps), sends (copies of a step's output), captures and    *)
(* tracking.  Values are tokens.  Every call of a step or pipe yields a    *)
(* fresh token ("v" and the number of the call), unless the function       *)
(* always gives the same thing; so the arguments a call is logged with     *)
(* tell where they came from.                                              *)
(*                                                                         *)
(* A machine is a record                                                   *)
(*   comps: composition id -> composition                                  *)
(*   lists, dicts, files: target id -> contents                            *)
(*   n: calls logged so far;  log: the log of the current event            *)
(* A run is one execution (or open iterator): where it is, the signal, and *)
(* the call at which a fault is to be raised, if any.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Bug   \* "none", or a way to get it wrong: "altered" (a pipe's result
               \* becomes the signal) | "resumed" (a failed send is skipped) |
               \* "doubletrack" (a replaced step stays tracked)

KwNames == <<"", "a b", "class", "k", "m", "z">>   \* all the keyword names there are, in order
NoFun == [x \in {} |-> ""]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Range(s) == {s[i] : i \in DOMAIN s}

\* --- functions.  f: [kind, id, name, args, kw, ret, sub]
\*     kind: "plain" | "partial" | "comp" (another composition as a step)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Join(Tail(s))
RECURSIVE KwText(_, _)
KwText(kw, i) == IF i > Len(KwNames) THEN ""
                 ELSE (IF KwNames[i] \in DOMAIN kw THEN ";" \o KwNames[i] \o "=" \o kw[KwNames[i]] ELSE "")
                      \o KwText(kw, i + 1)
Entry(id, args, kw) == id \o "(" \o Join(args) \o KwText(kw, 1) \o ")"

\* one logged thing; r: [m, v, exc]
Logged(m, run, entry, ret) ==
  LET m2 == [m EXCEPT !.n = @ + 1, !.log = Append(@, entry)] IN
  IF run.at # 0 /\ m2.n - run.base = run.at
  THEN [m |-> m2, v |-> "", exc |-> run.exc]
  ELSE [m |-> m2, v |-> IF ret = "" THEN "v" \o ToString(m2.n) ELSE ret, exc |-> ""]

\* --- where the signal goes
\* positional arguments: what the step has baked in, overridden by inserts
BakedPos(f) == [i \in 0..(Len(f.args) - 1) |-> f.args[i + 1]]
BakedKw(f) == [k \in {p[1] : p \in Range(f.kw)} |->
                (f.kw[CHOOSE i \in DOMAIN f.kw : f.kw[i][1] = k])[2]]
Free(pos) == CHOOSE i \in 0..Cardinality(DOMAIN pos) :
               /\ i \notin DOMAIN pos
               /\ \A j \in 0..(i - 1) : j \in DOMAIN pos
RECURSIVE InOrder(_)
InOrder(pos) == IF DOMAIN pos = {} THEN <<>>
                ELSE LET i == CHOOSE i \in DOMAIN pos : \A j \in DOMAIN pos : i <= j
                     IN <<pos[i]>> \o InOrder([j \in DOMAIN pos \ {i} |-> pos[j]])
Flow(pos, st) == InOrder(Over(pos, [i \in {Free(pos)} |-> st]))

RECURSIVE Apply(_, _, _, _, _), Chain(_, _, _, _)
Apply(m, run, f, args, kw) ==
  IF f.kind = "comp"
  THEN IF Len(args) # 1 THEN [m |-> m, v |-> "", exc |-> "EXC:TypeError"]
       ELSE Chain(m, run, f.sub, args[1])
  ELSE Logged(m, run, Entry(f.id, args, kw), f.ret)
\* a composition without inserts or sends: keywords given to it are ignored
Chain(m, run, fs, st) ==
  IF fs = <<>> THEN [m |-> m, v |-> st, exc |-> ""]
  ELSE LET f == Head(fs)
           baked == f.kind = "partial"
           r == Apply(m, run, f, Flow(IF baked THEN BakedPos(f) ELSE NoFun, st),
                      IF baked THEN BakedKw(f) ELSE NoFun) IN
       IF r.exc # "" THEN r ELSE Chain(r.m, run, Tail(fs), r.v)

\* --- ordered maps with entries [n |-> name, ...]
Has(s, n) == \E i \in DOMAIN s : s[i].n = n
At(s, n) == CHOOSE i \in DOMAIN s : s[i].n = n
Names(s) == [i \in DOMAIN s |-> s[i].n]

InsertOf(comp, n) == IF Has(comp.ins, n) THEN comp.ins[At(comp.ins, n)]
                     ELSE [n |-> n, pos |-> NoFun, kw |-> NoFun]
CallStep(m, run) ==
  LET comp == m.comps[run.c]
      s == comp.steps[run.ix]
      ins == InsertOf(comp, s.n)
      baked == s.f.kind = "partial"
      pos == IF baked THEN Over(BakedPos(s.f), ins.pos) ELSE ins.pos
      kw == IF baked THEN Over(BakedKw(s.f), ins.kw) ELSE ins.kw
  IN Apply(m, run, s.f, Flow(pos, run.st), kw)

\* --- sends.  q: [pipe, ret, tk, t, pk, pi, ps]
\*     tk: none | step | list | dict | file | other | track
PutInsert(comp, n, pk, pi, ps, v) ==
  LET c2 == IF Has(comp.ins, n) THEN comp
            ELSE [comp EXCEPT !.ins = Append(@, [n |-> n, pos |-> NoFun, kw |-> NoFun])]
      i == At(c2.ins, n)
  IN CASE pk = "int" -> [c2 EXCEPT !.ins[i].pos = Over(@, [x \in {pi} |-> v])]
       [] pk = "str" -> [c2 EXCEPT !.ins[i].kw = Over(@, [x \in {ps} |-> v])]
       [] OTHER -> c2
KeyText(pk, pi, ps) == CASE pk = "int" -> ToString(pi) [] pk = "str" -> ps [] OTHER -> "-"

\* r: [m, exc]
PlaceInto(m, run, q, v) ==
  CASE q.tk = "step" -> [m |-> [m EXCEPT !.comps[run.c] = PutInsert(@, q.t, q.pk, q.pi, q.ps, v)], exc |-> ""]
    [] q.tk = "list" ->
         LET r == Logged(m, run, "put " \o q.t \o "[" \o KeyText(q.pk, q.pi, q.ps) \o "]=" \o v, "-")
             n == Len(m.lists[q.t])
         IN IF r.exc # "" THEN [m |-> r.m, exc |-> r.exc]
            ELSE IF q.pk = "none" THEN [m |-> [r.m EXCEPT !.lists[q.t] = Append(@, v)], exc |-> ""]
            ELSE IF q.pk = "str" THEN [m |-> r.m, exc |-> "EXC:TypeError"]
            ELSE IF q.pi < 0 - n \/ q.pi >= n THEN [m |-> r.m, exc |-> "EXC:IndexError"]
            ELSE [m |-> [r.m EXCEPT !.lists[q.t] =
                           [@ EXCEPT ![IF q.pi < 0 THEN n + q.pi + 1 ELSE q.pi + 1] = v]], exc |-> ""]
    [] q.tk = "dict" ->
         LET r == Logged(m, run, "put " \o q.t \o "[" \o KeyText(q.pk, q.pi, q.ps) \o "]=" \o v, "-")
         IN IF r.exc # "" THEN [m |-> r.m, exc |-> r.exc]
            ELSE [m |-> [r.m EXCEPT !.dicts[q.t] =
                           Over(@, [x \in {KeyText(q.pk, q.pi, q.ps)} |-> v])], exc |-> ""]
    [] q.tk = "file" ->
         LET r == Logged(m, run, "write " \o q.t \o " " \o v, "-")
         IN IF r.exc # "" THEN [m |-> r.m, exc |-> r.exc]
            ELSE [m |-> [r.m EXCEPT !.files[q.t] = Append(@, v)], exc |-> ""]
    \* captures are like lists, but nobody sees them being written
    [] q.tk = "cap" -> [m |-> [m EXCEPT !.lists[q.t] = <<v>>], exc |-> ""]
    [] OTHER -> [m |-> m, exc |-> ""]

\* r: [m, v: the signal afterwards, exc]
Sent(r, v) == [m |-> r.m, v |-> v, exc |-> r.exc]
DoSend(m, run, q) ==
  IF q.tk = "track"
  THEN Sent([m |-> [m EXCEPT !.comps[run.c].hist = Append(@, [t |-> q.t, step |-> q.ps, exc |-> ""])],
             exc |-> ""], run.st)
  ELSE IF q.pipe = "" THEN Sent(PlaceInto(m, run, q, run.st), run.st)
  ELSE LET r == Logged(m, run, Entry(q.pipe, <<run.st>>, NoFun), q.ret)
           st == IF Bug = "altered" THEN r.v ELSE run.st
       IN IF r.exc # "" \/ q.tk = "none" THEN Sent(r, st)
          ELSE Sent(PlaceInto(r.m, run, q, r.v), st)
SendsOf(comp, n) == IF Has(comp.snd, n) THEN comp.snd[At(comp.snd, n)].q ELSE <<>>

\* --- one move of a run.  x: [m, run].  run.jx = 0: call the step run.ix;
\*     otherwise its send run.jx is next.  run.res = "" while under way.
\*     run.shown: the step whose result the caller has been given
Fail(x, m, e) == [m |-> m, run |-> [x.run EXCEPT !.res = e]]
Move(x) ==
  LET m == x.m
      run == x.run
      comp == m.comps[run.c]
  IN IF run.ix > Len(comp.steps) THEN [m |-> m, run |-> [run EXCEPT !.res = "over"]]
     ELSE IF run.jx = 0
     THEN LET r == CallStep(m, run) IN
          IF r.exc # "" THEN Fail(x, r.m, r.exc)
          ELSE [m |-> r.m, run |-> [run EXCEPT !.st = r.v, !.jx = 1]]
     ELSE LET q == SendsOf(comp, comp.steps[run.ix].n) IN
          IF run.jx > Len(q) THEN [m |-> m, run |-> [run EXCEPT !.ix = @ + 1, !.jx = 0]]
          ELSE LET r == DoSend(m, run, q[run.jx]) IN
               IF r.exc # "" /\ Bug # "resumed" THEN Fail(x, r.m, r.exc)
               ELSE [m |-> r.m, run |-> [run EXCEPT !.jx = @ + 1, !.st = r.v]]
RECURSIVE Finish(_)
Finish(x) == IF x.run.res # "" THEN x ELSE Finish(Move(x))
\* until the next step is done
RECURSIVE Until(_, _)
Until(x, ix) == IF x.run.res # "" \/ x.run.ix >= ix THEN x ELSE Until(Move(x), ix)

NewRun(m, c, sig, at, exc) == [c |-> c, ix |-> 1, jx |-> 0, st |-> sig, base |-> m.n,
                               at |-> at, exc |-> exc, res |-> ""]
StepName(f) == IF f.kind = "comp" THEN "<comp>" ELSE f.name
\* a whole execution.  r: [m, out]
Execute(m, c, sig, at, exc) ==
  LET x == Finish([m |-> m, run |-> NewRun(m, c, sig, at, exc)])
      comp == m.comps[c]
      f == comp.steps[x.run.ix].f
      m2 == IF comp.trk THEN [x.m EXCEPT !.comps[c].hist =
                   Append(@, [t |-> StepName(f), step |-> "", exc |-> x.run.res])] ELSE x.m
  IN IF comp.steps = <<>> THEN [m |-> m, out |-> "~"]
     ELSE IF x.run.res = "over" THEN [m |-> x.m, out |-> x.run.st]
     ELSE IF x.run.res = "EXC:KeyboardInterrupt" THEN [m |-> x.m, out |-> x.run.res]
     ELSE [m |-> m2, out |-> IF comp.opt THEN "~" ELSE x.run.res]

\* --- edits: composition -> composition
NoTracks(q) == SelectSeq(q, LAMBDA s : s.tk # "track")
TrackSend(n, f) == [pipe |-> "", ret |-> "", tk |-> "track", t |-> StepName(f),
                    pk |-> "none", pi |-> 0, ps |-> n]
AddSend(comp, n, q) ==
  IF Has(comp.snd, n) THEN [comp EXCEPT !.snd[At(comp.snd, n)].q = Append(@, q)]
  ELSE [comp EXCEPT !.snd = Append(@, [n |-> n, q |-> <<q>>])]
Retrack(comp, n) ==
  IF ~comp.trk THEN comp
  ELSE LET c2 == IF Has(comp.snd, n) /\ Bug # "doubletrack" THEN [comp EXCEPT !.snd[At(comp.snd, n)].q = NoTracks(@)] ELSE comp
       IN AddSend(c2, n, TrackSend(n, comp.steps[At(comp.steps, n)].f))
RECURSIVE RetrackAll(_, _)
RetrackAll(comp, i) == IF i > Len(comp.steps) THEN comp
                       ELSE RetrackAll(Retrack(comp, comp.steps[i].n), i + 1)
AddStep(comp, n0, f) ==
  LET n == IF n0 = "" THEN "i" \o ToString(Len(comp.steps) + 1) ELSE n0
      c2 == IF Has(comp.steps, n) THEN [comp EXCEPT !.steps[At(comp.steps, n)].f = f]
            ELSE [comp EXCEPT !.steps = Append(@, [n |-> n, f |-> f])]
  IN Retrack(c2, n)
Reindex(comp) ==
  RetrackAll([comp EXCEPT !.steps = [i \in DOMAIN @ |-> [n |-> "i" \o ToString(i - 1), f |-> @[i].f]]], 1)
Track(comp) == IF comp.trk THEN comp ELSE RetrackAll([comp EXCEPT !.trk = TRUE], 1)
AddCapture(comp, n, t) ==
  AddSend(comp, n, [pipe |-> "", ret |-> "", tk |-> "cap", t |-> t, pk |-> "int", pi |-> 0, ps |-> ""])
RECURSIVE AddCaptures(_, _, _)
\* ts: the names of the new capture targets, one per step
AddCaptures(comp, ts, i) == IF i > Len(comp.steps) THEN comp
                            ELSE AddCaptures(AddCapture(comp, comp.steps[i].n, ts[i]), ts, i + 1)
=============================================================================
