---------------------------- MODULE TraceDynamic ----------------------------
(* recorded uses of dynamic functions; every event carries what is seen of   *)
(* every instance after it                                                   *)
EXTENDS Dynamic, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
Range(s) == {s[i] : i \in DOMAIN s}
TInit == hist \in 1..Len(Data) /\ l = 1 /\ DInit
Act(e) ==
  CASE e.op = "new" -> New(e.i, e.s, e.g, e.opt, e.lazy, e.loc)
    [] e.op = "from" -> FromFunction(e.i, e.s, e.g, e.opt, e.loc)
    [] e.op = "load" -> DoLoad(e.i, e.b)
    [] e.op = "compile" -> DoCompile(e.i, e.b)
    [] e.op = "define" -> DoDefine(e.i, e.b)
    [] e.op = "unload" -> Unload(e.i)
    [] e.op = "src" -> SetSrc(e.i, e.s)
    [] e.op = "opt" -> SetOpt(e.i, e.b)
    [] e.op = "loc" -> SetLoc(e.i, e.b)
    [] e.op = "call" -> Call(e.i, e.how, e.x, e.o)
Seen(r) == [cat |-> r.cat, exc |-> IF r.cat = "compile" THEN "*" ELSE r.exc]
Reports(d) == [k \in DOMAIN d.errs |-> [cat |-> d.errs[k].cat, exc |-> d.errs[k].exc]]
FuncOf(f) == IF f = Nil THEN "" ELSE f[1]
Clause(e) ==
  IF out' # "?" /\ e.out # out' THEN "outcome"
  ELSE IF \E s \in Range(e.see) : s.i \notin DOMAIN dyn' THEN "no such instance"
  ELSE IF \E s \in Range(e.see) : s.ver # FuncOf(dyn'[s.i].func) THEN "name and signature of what is loaded"
  ELSE IF \E s \in Range(e.see) : [k \in DOMAIN s.errs |-> Seen(s.errs[k])] # Reports(dyn'[s.i]) THEN "reports"
  ELSE IF \E s \in Range(e.see) : \E k \in DOMAIN s.errs : ~s.errs[k].ok THEN "contents of a report"
  ELSE IF \E s \in Range(e.see) : s.cfail # dyn'[s.i].cfail THEN "call_fail"
  ELSE IF \E s \in Range(e.see) : s.kfail # dyn'[s.i].kfail THEN "compile_fail"
  ELSE IF \E s \in Range(e.see) : s.opt # dyn'[s.i].opt THEN "optional"
  ELSE ""
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     /\ Act(e)
     /\ IF Clause(e) = ""
        THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
        ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, Clause(e) \o " after " \o e.op, out',
                                       ToString(IF e.i \in DOMAIN dyn' THEN dyn'[e.i] ELSE Nil)>>)
TSpec == TInit /\ [][TNext]_<<vars, hist, l>>
=============================================================================
