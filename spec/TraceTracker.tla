---------------------------- MODULE TraceTracker ----------------------------
(* recorded calls of trackers. every event carries all histories and files   *)
(* as they are found after it                                                *)
EXTENDS Tracker, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
Range(s) == {s[i] : i \in DOMAIN s}
Pairs(ps) == [k \in {p[1] : p \in Range(ps)} |-> (ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k])[2]]
Recs(rs) == [i \in DOMAIN rs |-> Pairs(rs[i])]
TInit == hist \in 1..Len(Data) /\ l = 1 /\ TrInit
Act(e) ==
  CASE e.op = "new" -> New(e.t, e.name, e.path)
    [] e.op = "track" -> Track(e.t, e.target, e.caller, e.lineno, Pairs(e.kw))
    [] e.op = "set" -> SetMeta(e.t, Pairs(e.kw))
    [] e.op = "pause" -> Pause(e.t, e.x)
    [] e.op = "clear" -> Clear(e.t)
    [] e.op = "dump" -> Dump(e.t)
Dumps(f) == [i \in DOMAIN f.dumps |-> [name |-> f.dumps[i].name, hist |-> Recs(f.dumps[i].hist)]]
Clause(e) ==
  IF e.out # out' /\ ~(out' = "EXC:*" /\ e.exc) THEN "outcome"
  ELSE IF \E p \in Range(e.hists) : Recs(p[2]) # trk'[p[1]].hist THEN "history"
  ELSE IF \E p \in Range(e.files) : LET f == p[2] IN LET g == File(p[1])' IN
            f.there # g.there THEN "existence of the file"
  ELSE IF \E p \in Range(e.files) : ~p[2].ok THEN "file is a valid array"
  ELSE IF \E p \in Range(e.files) : Dumps(p[2]) # (File(p[1])').dumps THEN "dumps in the file"
  ELSE ""
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     /\ Act(e)
     /\ IF Clause(e) = ""
        THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
        ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, Clause(e) \o " after " \o e.op, out', ToString(trk'[e.t])>>)
TSpec == TInit /\ [][TNext]_<<vars, hist, l>>
=============================================================================
