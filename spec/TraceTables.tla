----------------------------- MODULE TraceTables ----------------------------
(* recorded calls on tables: what came back is what the definitions say      *)
EXTENDS Tables, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
TInit == hist \in 1..Len(Data) /\ l = 1
Same(a, b) == a.names = b.names /\ a.idx = b.idx /\ a.cols = b.cols
Dict(e, K) == /\ {p[1] : p \in Rng(e.pairs)} = {Lines(e.T, e.how).names[k] : k \in K}
              /\ Rng(e.pairs) \subseteq Values(e.T, e.how, K)
              /\ Cardinality({p[1] : p \in Rng(e.pairs)}) = Len(e.pairs)
Fits(e, K) == LET all == DOMAIN Lines(e.T, e.how).cols IN
  /\ Same(e.out, IF e.drop THEN Extract(e.T, e.how, all \ K) ELSE e.T)
  /\ IF e.todict THEN Dict(e, K) ELSE Same(e.out2, Extract(e.T, e.how, K))
Refused(e) == e.fn = "dedupe" /\ Clashes(e.T)
Good(e) ==
  CASE e.fn = "extract" -> \E S \in SUBSET Moots(e.T, e.how, e.dropna) : Fits(e, Constants(e.T, e.how, e.dropna) \cup S)
    [] e.fn = "split" -> LET s == SplitOn(e.T, e.mask) IN Same(e.out, s[1]) /\ Same(e.out2, s[2])
    [] e.fn = "repeat" -> Same(e.out, Repeated(e.T, e.k))
    [] e.fn = "unpack" -> Same(e.out, UnpackSeries(e.name, e.T.idx, e.ls))
    [] e.fn = "unpackcol" -> Same(e.out, UnpackColumn(e.T, e.k, e.name, e.ls))
    [] e.fn = "smash" -> e.pairs = Smash(e.T, e.js, e.texts, e.labels, Kept(e.T, e.js, e.all, Rng(e.vals)))
    [] e.fn = "squeeze" ->
         IF e.how = "" THEN e.pairs = SqueezeFirst(e.T.idx, e.T.cols[1])
         ELSE LET s == Squeeze(e.how, e.T.idx, e.T.cols[1], e.nums) IN Rng(e.pairs) = s /\ Len(e.pairs) = Cardinality(s)
    [] e.fn = "dedupe" -> Same(e.out, Deduped(e.T))
    [] e.fn = "unique" -> LET s == KeyRows(e.T, e.js) IN Rng(e.rows) = s /\ Len(e.rows) = Cardinality(s) /\ e.labels = Only(e.T.names, e.js)
    [] e.fn = "junction" -> LET s == Junction(KeyRows(e.T, e.js), KeyRows(e.U, e.js), e.how) IN
                            Rng(e.rows) = s /\ Len(e.rows) = Cardinality(s)
    [] e.fn = "text" -> e.pairs = [i \in 1..Height(e.T) |-> <<e.T.idx[i], Mapped(e.T.cols[1], e.rows)[i]>>] /\ e.labels = e.T.names
    [] e.fn = "scalars" -> /\ Len(e.pairs) = Len(e.rows)
                           /\ \A i \in DOMAIN e.rows : e.pairs[i] = <<Plain(e.rows[i][1]), e.rows[i][2]>>
    [] e.fn = "typed" -> Same(e.out, Typed(e.T, e.labels, Rng(e.vals)))
\* what the rows are called and the types of columns that are kept
Outs(e) == IF e.fn = "split" \/ (e.fn = "extract" /\ ~e.todict) THEN {e.out, e.out2} ELSE {e.out}
Named(e) == e.fn \in {"extract", "split", "dedupe", "typed", "unpack", "unpackcol"} => \A o \in Outs(e) : o.iname = e.T.iname
Keeps(e) == CASE e.fn = "split" -> e.out.kinds = e.T.kinds /\ e.out2.kinds = e.T.kinds
              [] e.fn = "repeat" -> e.out.kinds = e.T.kinds
              [] e.fn = "extract" -> (e.how = "columns" \/ ~e.drop) => e.out.kinds = e.T.kinds
              [] e.fn = "dedupe" -> e.out.kinds = Only(e.T.kinds, Ordered({j \in DOMAIN e.T.cols : Earlier(e.T, j) = {}}))
              [] e.fn = "unpackcol" -> Only(e.out.kinds, [j \in 1..(Width(e.T) - 1) |-> j]) = Only(e.T.kinds, Ordered(DOMAIN e.T.cols \ {e.k}))
              [] OTHER -> TRUE
Clause(e) ==
  IF ~e.same THEN "modified its argument"
  ELSE IF Refused(e) THEN (IF e.exc = "" THEN "unequal duplicates were not refused" ELSE IF e.exc = "ValueError" THEN "" ELSE "refused with " \o e.exc)
  ELSE IF e.exc # "" THEN "raised " \o e.exc
  ELSE IF ~Good(e) THEN "result"
  ELSE IF ~Named(e) THEN "name of the rows' labels" ELSE IF ~Keeps(e) THEN "types of columns" ELSE ""
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     IF Clause(e) = ""
     THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
     ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, e.fn \o ": " \o Clause(e)>>)
TSpec == TInit /\ [][TNext]_<<hist, l>>
=============================================================================
