---------------------------- MODULE TraceDowncast ----------------------------
(* recorded downcasts of arrays and tables                                   *)
EXTENDS Downcast, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
TInit == hist \in 1..Len(Data) /\ l = 1
Types == <<UInt(8), UInt(16), UInt(32), UInt(64), SInt(8), SInt(16), SInt(32), SInt(64),
           Float(16, 11, 16, -24), Float(32, 24, 128, -149), Float(64, 53, 1024, -1074), Float(128, 64, 16384, -16445)>>
Named(n) == CHOOSE k \in DOMAIN Types : Types[k].name = n
Known(n) == \E k \in DOMAIN Types : Types[k].name = n
\* a column or array c: own type, elements before and after, tolerances
Cl(c) ==
  IF ~Known(c.ty) THEN "unknown type " \o c.ty
  ELSE LET k == Named(c.ty)  own == Named(c.own)
           K == IF Types[own].kind = "float" THEN Choices(Types, own, c.xs, c.atol, c.rtol, c.slack, c.nil) ELSE IntChoice(Types, c.xs)
       IN IF Len(c.xs) # Len(c.ys) THEN "number of elements"
          ELSE IF k \notin K THEN "type " \o c.ty
          ELSE IF c.nullable # (Types[k].kind # "float" /\ Strange(c.xs)) THEN "nullable or not"
          ELSE IF ~SameArray(c.ys, Result(Types[k], c.xs)) THEN "values"
          ELSE IF c.reports /\ ~TrueAbs(Types[k], c.xs, c.aerr, Reading(c.slack, 1)) THEN "reported absolute error"
          ELSE IF c.reports /\ ~TrueRel(Types[k], c.xs, c.rerr, Reading(c.slack, 1)) THEN "reported relative error"
          ELSE ""
Bad(e) == {j \in DOMAIN e.cols : e.cols[j].num /\ Cl(e.cols[j]) # ""}
Clause(e) ==
  IF ~e.same THEN "modified its argument"
  ELSE IF e.refused THEN (IF e.exc = "TypeError" THEN "" ELSE "should be refused with a TypeError, not " \o e.exc)
  ELSE IF e.exc # "" THEN "raised " \o e.exc
  ELSE IF e.ask # "" THEN (IF e.yes = Fits(Types[Named(e.ask)], e.cols[1].xs[1], e.cols[1].xs[2]) THEN "" ELSE "bounds of " \o e.ask)
  ELSE IF e.names # e.names2 \/ e.idx # e.idx2 THEN "labels"
  ELSE IF \E j \in DOMAIN e.cols : ~e.cols[j].num /\ (e.cols[j].was # e.cols[j].is) THEN "other columns"
  ELSE IF Bad(e) # {} THEN Cl(e.cols[CHOOSE j \in Bad(e) : TRUE])
  ELSE ""
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET c == Clause(H.ev[l]) IN
     IF c = "" THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
     ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, c>>)
TSpec == TInit /\ [][TNext]_<<hist, l>>
=============================================================================
