----------------------------- MODULE TraceMosaic -----------------------------
(* recorded sorts, bounded reads and metadata of parquet files               *)
EXTENDS Mosaic, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
TInit == hist \in 1..Len(Data) /\ l = 1
SortClause(e) ==
  IF ~Permutes(e.out, Flat(e.gs)) THEN "not the rows of the file"
  ELSE IF ~Sorted(e.out, e.dir) THEN "not sorted"
  ELSE IF e.processed /\ Flat(e.chunks) # e.out THEN "chunks given to the processor"
  ELSE IF e.processed /\ \E c \in Rng(e.chunks) : c = <<>> THEN "empty chunk given to the processor"
  ELSE IF e.limit > 0 /\ \E s \in Rng(e.sizes) : s > e.limit THEN "row group size"
  ELSE IF e.names # e.names2 THEN "columns"
  ELSE ""
ReadClause(e) ==
  LET want == SelectSeq(Flat(e.gs), LAMBDA r : In(r, e.b)) IN
  IF e.nothing THEN (IF want = <<>> THEN "" ELSE "rows were not found")
  ELSE IF e.out # want THEN "rows"
  ELSE IF e.names # e.names2 THEN "columns"
  ELSE ""
\* truth: one entry per column and group, from the file; nv without, all with nulls
Chunk(t) == <<t.ix, t.group>>
Matches(r, t) == /\ r.ix = t.ix /\ r.group = t.group /\ r.name = t.name /\ r.comp = t.comp /\ r.uncomp = t.uncomp
                 /\ r.nv \in {t.nv, t.all} /\ r.type = t.type /\ r.dict = t.dict /\ r.enc = t.enc /\ r.codec = t.codec
RecordsClause(e) ==
  IF Len(e.recs) # Len(e.truth) THEN "number of records"
  ELSE IF \E t \in Rng(e.truth) : ~\E r \in Rng(e.recs) : Matches(r, t) THEN "records"
  ELSE ""
Of(e, name) == {i \in DOMAIN e.truth : e.truth[i].name = name}
Only1(S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE "~"
Right(e, c) ==
  LET S == Of(e, c.name) IN
  /\ S # {}
  /\ c.comp = Sum([i \in S |-> e.truth[i].comp], S)
  /\ c.uncomp = Sum([i \in S |-> e.truth[i].uncomp], S)
  /\ c.nv \in {Sum([i \in S |-> e.truth[i].nv], S), Sum([i \in S |-> e.truth[i].all], S)}
  /\ c.type = Only1({e.truth[i].type : i \in S}) /\ c.dict = Only1({e.truth[i].dict : i \in S})
  /\ c.enc = Only1({e.truth[i].enc : i \in S}) /\ c.codec = Only1({e.truth[i].codec : i \in S})
  /\ \A i \in S : c.ix = e.truth[i].ix
ColumnsClause(e) ==
  IF {c.name : c \in Rng(e.recs)} # {t.name : t \in Rng(e.truth)} THEN "columns"
  ELSE IF Len(e.recs) # Cardinality({t.name : t \in Rng(e.truth)}) THEN "entries per column"
  ELSE IF e.names # [i \in DOMAIN e.recs |-> e.recs[i].name] THEN "labels"
  ELSE IF \E c \in Rng(e.recs) : ~Right(e, c) THEN "values"
  ELSE ""
Clause(e) ==
  IF ~e.same THEN "changed the file"
  ELSE IF e.exc # "" THEN "raised " \o e.exc
  ELSE CASE e.fn = "sort" -> SortClause(e) [] e.fn = "read" -> ReadClause(e)
         [] e.fn = "records" -> RecordsClause(e) [] e.fn = "columns" -> ColumnsClause(e)
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET c == Clause(H.ev[l]) IN
     IF c = "" THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
     ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, H.ev[l].fn \o ": " \o c>>)
TSpec == TInit /\ [][TNext]_<<hist, l>>
=============================================================================
