---------------------------- MODULE TraceLookup -----------------------------
EXTENDS Lookup, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
TInit == hist \in 1..Len(Data) /\ l = 1
\* one step, without a default: an exception if there is nothing
Want(e) == IF e.fn = "get" THEN Lookup(e.root, e.path, e.default) ELSE Lookup(e.root, e.path, "EXC")
Clause(e) == IF ~e.same THEN "modified" ELSE IF e.out # Want(e) THEN "result" ELSE ""
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     IF Clause(e) = ""
     THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
     ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, e.fn \o ": " \o Clause(e), Want(e), e.out>>)
TSpec == TInit /\ [][TNext]_<<hist, l>>
=============================================================================
