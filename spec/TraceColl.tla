------------------------------ MODULE TraceColl -----------------------------
(* recorded calls of the helpers; hash dictionaries are carried along        *)
EXTENDS Coll, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l, hd
Range(s) == {s[i] : i \in DOMAIN s}
TInit == hist \in 1..Len(Data) /\ l = 1 /\ hd = Empty
Raises(e) == e.fn = "reindex" /\ e.kind # "map"
Want(e) ==
  CASE e.fn = "listify" -> Listify(e.kind, e.x, e.els)
    [] e.fn = "reindex" -> Reindex(e.ps)
    [] e.fn = "enumerate" -> Enumerate(e.kind, e.els, e.ps)
    [] e.fn = "after" -> After(e.ps, e.key, <<e.x, e.val>>)
    [] e.fn = "getall" -> GetAll(e.key, e.ms, e.x)
    [] e.fn = "separate" -> <<Hits(e.els, Range(e.yes)), Misses(e.els, Range(e.yes))>>
    [] e.fn = "assign" -> <<>>
    [] e.fn = "look" -> <<Got(hd, e.key)>>
Clause(e) ==
  IF ~e.same THEN "modified its argument"
  ELSE IF Raises(e) THEN (IF e.exc = "" THEN "should raise" ELSE "")
  ELSE IF e.exc # "" THEN "raised " \o e.exc
  ELSE IF e.out # Want(e) THEN "result"
  ELSE IF e.fn \in {"assign", "look"} /\ e.count # Cardinality(DOMAIN hd'.rep) THEN "number of stored items"
  ELSE ""
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     /\ hd' = IF e.fn = "assign" THEN Assign(hd, e.key, e.x, e.val) ELSE hd
     /\ IF Clause(e) = ""
        THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
        ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, e.fn \o ": " \o Clause(e), ToString(Want(e))>>)
TSpec == TInit /\ [][TNext]_<<hist, l, hd>>
=============================================================================
