----------------------------- MODULE TraceScrape -----------------------------
(* recorded scraping                                                         *)
EXTENDS Scrape, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
TInit == hist \in 1..Len(Data) /\ l = 1
Names(p) == {p[k].name : k \in DOMAIN p}
Of(p, n) == p[CHOOSE k \in DOMAIN p : p[k].name = n]
\* one label: its text, the patterns by name, what the special search adds, the result
Part(e, p) ==
  IF p.exc # "" THEN "raised " \o p.exc
  ELSE IF e.sees /\ p.seen # Join(p.text) THEN "text given to the special search"
  ELSE IF e.sees /\ p.label # p.label2 THEN "label given to the special search"
  ELSE IF Len(p.got) # Cardinality(Names(p.got)) \/ Names(p.got) # Names(e.pats) \cup Names(e.extra) THEN "fields"
  ELSE LET wrong == {n \in Names(p.got) :
             IF n \in Names(e.extra) THEN Of(p.got, n).v # Of(e.extra, n).v
             ELSE ~Agrees(Found(Of(e.pats, n).p, p.text), Of(p.got, n).v)}
       IN IF wrong # {} THEN "field " \o (CHOOSE n \in wrong : TRUE) ELSE ""
\* the numbers between the first SUBFRAME and the END after it
FrameStart == Chars("SUBFRAME")
FrameEnd == Chars("END")
First(t, from, w) == {i \in from..Len(t) : StartsAt(t, i, w)}
RECURSIVE NumbersIn(_, _)
NumbersIn(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE IF t[i] \in Digits THEN LET j == Over(t, i, Digits) IN <<Val("int", Join(Slice(t, i, j)), <<>>)>> \o NumbersIn(t, j)
  ELSE NumbersIn(t, i + 1)
Frame(t) == LET i == Min(First(t, 1, FrameStart))  j == Min(First(t, i + 8, FrameEnd)) IN NumbersIn(Slice(t, i, j), 1)
FrameClause(e) ==
  LET p == e.parts[1] IN
  IF p.exc # "" THEN "raised " \o p.exc
  ELSE IF p.got[1].v # Val("tuple", "", Frame(p.text)) THEN "subframe" ELSE ""
Clause(e) ==
  IF e.exc # "" THEN "raised " \o e.exc
  ELSE IF e.fn = "frame" THEN FrameClause(e)
  ELSE IF e.fn = "text" THEN (IF e.parts[1].seen = Join(e.parts[1].text) THEN "" ELSE "text")
  ELSE IF e.n # Len(e.parts) THEN "number of results"
  ELSE LET bad == {k \in DOMAIN e.parts : Part(e, e.parts[k]) # ""} IN
       IF bad = {} THEN "" ELSE Part(e, e.parts[CHOOSE k \in bad : TRUE])
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET c == Clause(H.ev[l]) IN
     IF c = "" THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
     ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, c>>)
TSpec == TInit /\ [][TNext]_<<hist, l>>
=============================================================================
