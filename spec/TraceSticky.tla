---------------------------- MODULE TraceSticky -----------------------------
EXTENDS Sticky, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
Range(s) == {s[i] : i \in DOMAIN s}
TInit ==
  /\ hist \in 1..Len(Data)
  /\ l = 1
  /\ note = [a \in Range(Data[hist].addresses) |-> "empty"]
  /\ on = [h \in Range(Data[hist].handles) |-> "none"]
  /\ cache = [h \in Range(Data[hist].handles) |-> "None"]
  /\ last = "init"
Act(e) ==
  CASE e.op = "new" -> New(e.h, e.a)
    [] e.op = "note" -> Note(e.h, e.a, e.v, e.bad)
    [] e.op = "stick" -> Stick(e.h, e.v, e.bad)
    [] e.op = "read" -> Read(e.h, e.x)
    [] e.op = "pull" -> Pull(e.h)
    [] e.op = "peek" -> Peek(e.a)
Clause(e) ==
  IF last' = "anything" THEN (IF e.out = "HANG" THEN "hang" ELSE "")
  ELSE IF last' = "EXC:*" THEN (IF e.exc THEN "" ELSE "the call should have raised")
  ELSE IF e.out # last' THEN "outcome" ELSE ""
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     /\ Act(e)
     /\ IF Clause(e) = ""
        THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
        ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, Clause(e) \o " of " \o e.op, last'>>)
TSpec == TInit /\ [][TNext]_<<vars, hist, l>>
=============================================================================
