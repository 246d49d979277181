---------------------------- MODULE TraceInterp -----------------------------
(* event: [op, i, a, out, blocks: listing after it, sem: i's semaphore is    *)
(* there, noise: complaints of an interpreter that was off all along]        *)
EXTENDS Interp, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
Range(s) == {s[i] : i \in DOMAIN s}
TInit ==
  /\ hist \in 1..Len(Data)
  /\ l = 1
  /\ mode = [i \in Range(Data[hist].procs) |-> "none"]
  /\ touched = [i \in Range(Data[hist].procs) |-> {}]
  /\ exists = {} /\ sems = {} /\ last = "init"
\* what of the observed listing the specification can agree to
Left(i, obs) == (obs \cap exists) \cup (exists \ touched[i])
Act(e) ==
  CASE e.op = "start" -> Start(e.i)
    [] e.op = "off" -> Deactivate(e.i)
    [] e.op = "sem" -> Sem(e.i)
    [] e.op = "create" -> Create(e.i, e.a)
    [] e.op = "attach" -> Attach(e.i, e.a)
    [] e.op = "delete" -> Delete(e.i, e.a)
    [] e.op = "end" -> End(e.i, Left(e.i, Range(e.blocks)))
Clause(e) ==
  IF e.out # last' THEN "outcome"
  ELSE IF Range(e.blocks) # exists' THEN "blocks that exist"
  ELSE IF e.sem # (e.i \in sems') THEN "semaphore"
  ELSE IF e.noise THEN "complaints" ELSE ""
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     /\ Act(e)
     /\ IF Clause(e) = ""
        THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
        ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, Clause(e) \o " after " \o e.op, last', exists'>>)
TSpec == TInit /\ [][TNext]_<<vars, hist, l>>
=============================================================================
