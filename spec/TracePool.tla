------------------------------ MODULE TracePool -----------------------------
(* recorded uses of pools                                                    *)
EXTENDS Pool, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
chunked == \E i \in 1..(l - 1) : Data[hist].ev[i].op = "map" /\ Data[hist].ev[i].x
             /\ \A j \in (i + 1)..(l - 1) : Data[hist].ev[j].op \notin {"map", "stop"}
TInit == hist \in 1..Len(Data) /\ l = 1 /\ PInit
Act(e) ==
  CASE e.op = "new" -> New(e.n)
    [] e.op = "map" -> Map(e.recs, FALSE)
    [] e.op = "fin" -> Finish(e.n)
    [] e.op = "stop" -> Stop
    [] OTHER -> UNCHANGED vars
Pairs(res) == {<<p[1], p[2]>> : p \in Rng(res)}
Outcome(e, rs, want) ==
  IF e.raises /\ Failed(rs) # {}
  THEN IF e.exc \in {Result(rs[i]) : i \in Failed(rs)} THEN "" ELSE "the exception of a failed record is raised"
  ELSE IF e.exc # "" THEN "raised " \o e.exc
  ELSE IF Pairs(e.res) # want \/ Len(e.res) # Cardinality(want) THEN "results"
  ELSE ""
Clause(e) ==
  CASE e.op = "poll" ->
         IF e.all # AllDone THEN "ready()"
         ELSE IF e.nr + e.nrun # e.n THEN "n_ready, n_running and n_results"
         ELSE IF e.all # (e.nr = e.n) THEN "n_ready and ready()"
         ELSE IF ~chunked /\ e.n # Len(recs) THEN "n_results"
         ELSE IF ~chunked /\ (Rng(e.keys) # Ready \/ Len(e.keys) # Cardinality(Ready)) THEN "results_ready()"
         ELSE IF ~chunked /\ e.nr # Len(done) THEN "n_ready"
         ELSE ""
    [] e.op = "get" -> IF ~AllDone THEN "returned before the records were done" ELSE Outcome(e, recs, Results(recs))
    [] e.op = "apply" -> IF ~e.all THEN "never ready" ELSE Outcome(e, e.recs, Results(e.recs))
    [] e.op = "calls" -> IF \E i \in DOMAIN e.calls : e.calls[i] # 1 THEN "each record is done once" ELSE ""
    [] e.op = "into" ->
         IF \E i \in DOMAIN e.calls : e.calls[i] # 1 THEN "each record is done once"
         ELSE IF e.changed THEN "modified the records"
         ELSE Outcome(e, e.recs, IF e.filter THEN Good(e.recs) ELSE Results(e.recs))
    [] OTHER -> IF e.changed THEN "modified the records" ELSE IF e.exc # "" THEN "raised " \o e.exc ELSE ""
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     /\ Act(e)
     /\ IF Clause(e) = ""
        THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
        ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, Clause(e) \o " after " \o e.op,
                 IF e.op = "into" THEN ToString(Results(e.recs)) ELSE ToString(<<Results(recs), done>>)>>)
TSpec == TInit /\ [][TNext]_<<vars, hist, l>>
=============================================================================
