----------------------------- MODULE TracePipe ------------------------------
(* recorded edits and executions of compositions. every event carries what   *)
(* was called meanwhile (log) and what there is to see afterwards            *)
EXTENDS Pipeline, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l, m, its
vars == <<hist, l, m, its>>
Pairs(ps) == [k \in {p[1] : p \in Range(ps)} |-> (ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k])[2]]
TInit ==
  /\ hist \in 1..Len(Data)
  /\ l = 1
  /\ m = [comps |-> NoFun, n |-> 0, log |-> <<>>,
          lists |-> Pairs(Data[hist].lists), dicts |-> [d \in Range(Data[hist].dicts) |-> NoFun],
          files |-> [d \in Range(Data[hist].files) |-> <<>>]]
  /\ its = NoFun

Fresh(e) ==
  LET c == [steps |-> e.steps, ins |-> [i \in DOMAIN e.ins |->
              [n |-> e.ins[i].n, pos |-> Pairs(e.ins[i].pos), kw |-> Pairs(e.ins[i].kw)]],
            snd |-> e.snd, trk |-> e.trk, opt |-> e.opt, cap |-> <<>>, hist |-> <<>>]
  IN RetrackAll(c, 1)
Edit(m1, c, new) == [m |-> [m1 EXCEPT !.comps[c] = new], out |-> "ok", its |-> its]
\* r: [m, out, its]
After(e, m1) ==
  LET comp == m1.comps[e.c]
      caplist(t) == Over(m1.lists, [x \in {t} |-> <<"~">>])
  IN
  CASE e.op = "new" -> [m |-> [m1 EXCEPT !.comps = Over(@, [x \in {e.c} |-> Fresh(e)])],
                        out |-> "ok", its |-> its]
    [] e.op = "add_step" -> Edit(m1, e.c, AddStep(comp, e.n, e.f))
    [] e.op = "add_insert" -> Edit(m1, e.c, PutInsert(comp, e.n, e.q.pk, e.q.pi, e.q.ps, e.v))
    [] e.op = "add_send" -> IF e.q.pipe = "" /\ e.q.tk = "none"
                            THEN [m |-> m1, out |-> "EXC:ValueError", its |-> its]
                            ELSE Edit(m1, e.c, AddSend(comp, e.n, e.q))
    \* a capture into a list of the caller's
    [] e.op = "add_capture" -> Edit([m1 EXCEPT !.lists = IF e.q.tk = "cap" THEN caplist(e.q.t) ELSE @],
                                    e.c, AddSend(comp, e.n, e.q))
    [] e.op = "add_captures" ->
         [m |-> [m1 EXCEPT !.comps[e.c] = [AddCaptures(comp, e.ts, 1) EXCEPT
                   !.cap = [i \in DOMAIN comp.steps |-> [n |-> comp.steps[i].n, t |-> e.ts[i]]]],
                          !.lists = Over(@, [t \in Range(e.ts) |-> <<"~">>])],
          out |-> "ok", its |-> its]
    [] e.op = "reindex" -> Edit(m1, e.c, Reindex(comp))
    [] e.op = "track" -> Edit(m1, e.c, Track(comp))
    [] e.op = "exec" -> LET r == Execute(m1, e.c, e.v, e.at, e.exc)
                        IN [m |-> r.m, out |-> r.out, its |-> its]
    [] e.op = "itnew" -> [m |-> m1, out |-> "ok",
                          its |-> Over(its, [x \in {e.it} |-> NewRun(m1, e.c, e.v, 0, "")])]
    [] e.op = "itnext" ->
         LET run == [its[e.it] EXCEPT !.base = m1.n, !.at = e.at, !.exc = e.exc]
             x == IF run.res # "" THEN [m |-> m1, run |-> run]
                  ELSE Until([m |-> m1, run |-> run], run.ix + 1)
         IN [m |-> x.m,
             out |-> IF run.res # "" \/ x.run.res = "over" THEN "STOP"
                     ELSE IF x.run.res # "" THEN x.run.res ELSE x.run.st,
             its |-> [its EXCEPT ![e.it] = x.run]]
    [] OTHER -> [m |-> m1, out |-> "?", its |-> its]

Clause(e, r) ==
  LET comp == r.m.comps[e.c] IN
  IF e.log # r.m.log THEN "calls made and what they were given"
  ELSE IF e.out # r.out THEN "result"
  ELSE IF e.idx # Names(comp.steps) THEN "step index"
  ELSE IF e.iidx # Names(comp.ins) THEN "insert index"
  ELSE IF e.sidx # Names(comp.snd) THEN "send index"
  ELSE IF e.hist # comp.hist THEN "tracked records"
  ELSE IF \E p \in Range(e.lists) : p[2] # r.m.lists[p[1]] THEN "list targets"
  ELSE IF \E p \in Range(e.dicts) : Pairs(p[2]) # r.m.dicts[p[1]] THEN "mapping targets"
  ELSE IF \E p \in Range(e.files) : p[2] # r.m.files[p[1]] THEN "writable targets"
  ELSE IF e.caps # [i \in DOMAIN comp.cap |-> [n |-> comp.cap[i].n, v |-> r.m.lists[comp.cap[i].t]]] THEN "captures"
  ELSE ""
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l]
         r == After(e, [m EXCEPT !.log = <<>>])
         bad == Clause(e, r)
     IN /\ m' = r.m /\ its' = r.its
        /\ IF bad = ""
           THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
           ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, bad \o " of " \o e.op,
                   [out |-> r.out, log |-> r.m.log, comp |-> ToString(r.m.comps[e.c])]>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
