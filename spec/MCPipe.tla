------------------------------ MODULE MCPipe --------------------------------
(* every pipeline, edit and execution over a small alphabet, move by move    *)
EXTENDS Pipeline, Json
CONSTANTS Mode,   \* "args" | "sends" | "faults" | "edits": the alphabet
          Edits,  \* at most so many edits
          Execs   \* and so many executions
VARIABLES m, run, start, outs, ops, edits, execs
vars == <<m, run, start, outs, ops, edits, execs>>

Fn(id, kind, args, kw, ret) == [kind |-> kind, id |-> id, name |-> IF kind = "partial" THEN "<partial>" ELSE id,
                                args |-> args, kw |-> kw, ret |-> ret, sub |-> <<>>]
Plain(id) == Fn(id, "plain", <<>>, <<>>, "")
CompFn == [Fn("", "comp", <<>>, <<>>, "") EXCEPT !.sub = <<Plain("u"), Fn("w", "partial", <<"b">>, <<>>, "")>>]
Q(pipe, ret, tk, t, pk, pi, ps) == [pipe |-> pipe, ret |-> ret, tk |-> tk, t |-> t, pk |-> pk, pi |-> pi, ps |-> ps]
QInt(i) == Q("", "", "none", "", "int", i, "")
QStr(k) == Q("", "", "none", "", "str", 0, k)

Seconds == CASE Mode = "args" -> {Plain("g"), Fn("g", "plain", <<>>, <<>>, "~"), Fn("g", "partial", <<"b">>, <<>>, ""),
                                   Fn("g", "partial", <<"b", "d">>, <<<<"k", "e">>>>, ""),
                                   Fn("g", "partial", <<>>, <<<<"k", "e">>, <<"m", "~">>>>, ""), CompFn}
             [] OTHER -> {Plain("g")}
Sends == CASE Mode = "sends" ->
                {Q("p", "", "none", "", "none", 0, ""), Q("p", "", "list", "l", "none", 0, ""),
                 Q("", "", "list", "l", "int", 0, ""), Q("p", "~", "dict", "d", "str", 0, "u"),
                 Q("", "", "file", "o", "none", 0, ""), Q("", "", "step", "sb", "int", 0, ""),
                 Q("p", "", "step", "sb", "str", 0, "k"), Q("", "", "step", "sa", "int", 1, ""),
                 Q("p", "", "other", "", "none", 0, "")}
           [] Mode = "faults" -> {Q("p", "", "list", "l", "none", 0, ""), Q("", "", "step", "sb", "int", 0, "")}
           [] Mode = "edits" -> {Q("p", "", "none", "", "none", 0, "")}
           [] OTHER -> {}
Inserts == CASE Mode = "args" -> {QInt(0), QInt(1), QInt(3), QStr("k"), QStr("z")}
             [] Mode = "edits" -> {QInt(0)}
             [] OTHER -> {}
Comp(f2, trk, opt) == [steps |-> <<[n |-> "sa", f |-> Plain("f")], [n |-> "sb", f |-> f2]>>,
                       ins |-> <<>>, snd |-> <<>>, trk |-> trk, opt |-> opt, cap |-> <<>>, hist |-> <<>>]
Idle == [c |-> "", ix |-> 0, jx |-> 0, st |-> "", base |-> 0, at |-> 0, exc |-> "", res |-> "idle"]
NewOp(c) == [op |-> "new", c |-> "A", steps |-> c.steps, trk |-> c.trk, opt |-> c.opt]
Init ==
  /\ \E f2 \in Seconds, trk, opt \in BOOLEAN :
       /\ (Mode # "faults" => ~opt) /\ (Mode \notin {"faults", "edits"} => ~trk)
       /\ (Mode = "edits" => trk)
       /\ m = [comps |-> ("A" :> RetrackAll(Comp(f2, trk, opt), 1)), n |-> 0, log |-> <<>>,
               lists |-> ("l" :> <<"x">>), dicts |-> ("d" :> NoFun), files |-> ("o" :> <<>>)]
       /\ ops = <<NewOp(Comp(f2, trk, opt))>>
  /\ run = Idle /\ start = m /\ outs = <<>> /\ edits = Edits /\ execs = Execs

C == m.comps["A"]
EditTo(c2, op) == /\ m' = [m EXCEPT !.comps["A"] = c2, !.log = <<>>]
                  /\ ops' = Append(ops, op)
                  /\ edits' = edits - 1
                  /\ run' = Idle
                  /\ UNCHANGED <<start, outs, execs>>
Edit ==
  /\ run.res # "" /\ edits > 0
  /\ \/ \E q \in Inserts, n \in {"sa", "sb"} :
          EditTo(PutInsert(C, n, q.pk, q.pi, q.ps, "j" \o ToString(edits)),
                 [op |-> "add_insert", c |-> "A", n |-> n, q |-> q, v |-> "j" \o ToString(edits)])
     \/ \E q \in Sends, n \in {"sa", "sb"} :
          EditTo(AddSend(C, n, q), [op |-> "add_send", c |-> "A", n |-> n, q |-> q])
     \/ /\ Mode = "edits"
        /\ \/ \E n \in {"", "sa", "i0", "i1"} : LET f == Plain("h" \o ToString(edits)) IN
                EditTo(AddStep(C, n, f), [op |-> "add_step", c |-> "A", n |-> n, f |-> f])
           \/ EditTo(Reindex(C), [op |-> "reindex", c |-> "A"])
           \/ EditTo(Track(C), [op |-> "track", c |-> "A"])
Faults == IF Mode = "faults" THEN {<<0, "">>} \cup
             {<<i, e>> : i \in 1..5, e \in {"EXC:ValueError", "EXC:KeyboardInterrupt"}} ELSE {<<0, "">>}
Begin ==
  /\ run.res # "" /\ execs > 0
  /\ (Mode \in {"args", "sends", "faults"} => edits = 0)
  /\ execs' = execs - 1
  /\ \E ft \in Faults :
       /\ ft[1] = 0 \/ execs = Execs
       /\ run' = NewRun(m, "A", "x", ft[1], ft[2])
       /\ ops' = Append(ops, [op |-> "exec", c |-> "A", v |-> "x", at |-> ft[1], exc |-> ft[2]])
  /\ m' = [m EXCEPT !.log = <<>>]
  /\ start' = m' /\ outs' = <<>>
  /\ UNCHANGED edits
Step ==
  /\ run.res = ""
  /\ LET x == Move([m |-> m, run |-> run])
         fin == x.run.res # ""
         whole == Execute(start, "A", "x", run.at, run.exc)
     IN /\ run' = x.run
        /\ outs' = IF run.jx = 0 /\ ~fin THEN Append(outs, x.run.st) ELSE outs
        \* the moves make up the execution (which also reports failures)
        /\ m' = IF fin THEN whole.m ELSE x.m
        /\ Assert(~fin \/ (whole.m.log = x.m.log /\ whole.m.lists = x.m.lists), "Execute is not its moves")
  /\ UNCHANGED <<start, ops, edits, execs>>
Next == Edit \/ Begin \/ Step
Spec == Init /\ [][Next]_vars

Done == execs = 0 /\ run.res # ""
Report == Done => PrintT(<<"HIST", ToJson(ops)>>)

\* --- properties of the machine
Over1 == run.res \notin {"", "idle"}
SB == start.comps["A"]
\* all steps, once each, each fed with what the one before gave
AllSteps == run.res = "over" => Len(outs) = Len(SB.steps) /\ run.st = outs[Len(outs)]
\* what the signal is, is not the sends' business
SignalKept == [][run.res = "" /\ run.jx > 0 => run'.st = run.st]_vars
\* nothing happens after a fault
FaultStops == run.res # "idle" /\ run.at # 0 /\ m.n - run.base >= run.at =>
                 m.n - run.base = run.at /\ run.res = run.exc
Unchanged == Over1 => LET A == C IN
  /\ A.steps = SB.steps /\ A.snd = SB.snd
  /\ \A i \in DOMAIN A.ins :
       (\E j \in DOMAIN SB.snd : \E k \in DOMAIN SB.snd[j].q :
            SB.snd[j].q[k].tk = "step" /\ SB.snd[j].q[k].t = A.ins[i].n)
       \/ (Has(SB.ins, A.ins[i].n) /\ A.ins[i] = SB.ins[At(SB.ins, A.ins[i].n)])
\* one record per step, by its present name and function
Tracked == run.res = "over" => LET A == C IN
  SubSeq(A.hist, Len(SB.hist) + 1, Len(A.hist)) =
     IF A.trk THEN [i \in DOMAIN A.steps |-> [t |-> StepName(A.steps[i].f), step |-> A.steps[i].n, exc |-> ""]]
     ELSE <<>>
Reported == Over1 /\ run.res \notin {"over", "EXC:KeyboardInterrupt"} /\ SB.trk =>
  LET h == C.hist[Len(C.hist)] IN h.exc = run.res /\ h.t = StepName(SB.steps[run.ix].f)
=============================================================================
