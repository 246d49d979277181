----------------------------- MODULE TraceIndex -----------------------------
(* recorded calls on one index through any number of attached objects.      *)
(* event: [op, k, v, x, bad, out, n, lst]; a remove event carries in np the *)
(* positions (<<key, position>>) observed afterwards.                        *)
EXTENDS Index, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l

SeqRange(s) == {s[i] : i \in DOMAIN s}
TInit == hist \in 1..Len(Data) /\ l = 1 /\ IInit

\* the positions observed after a removal, if they make sense at all
Observed(e) ==
  LET ks == {e.np[i].k : i \in DOMAIN e.np} IN
  [k \in ks |-> (CHOOSE i \in DOMAIN e.np : e.np[i].k = k)]
Np(e) == LET o == Observed(e) IN [k \in DOMAIN o |-> e.np[o[k]].n]
RemoveOk(e) == \/ e.k \notin DOMAIN pos
               \/ /\ DOMAIN Np(e) = DOMAIN pos \ {e.k}
                  /\ Gapless(Np(e))
\* where the code puts them does not matter; used when what it did is nonsense
Fallback(k) == [j \in DOMAIN pos \ {k} |-> IF pos[j] = Size - 1 /\ pos[k] < pos[j]
                                            THEN pos[k] ELSE pos[j]]

Act(e) ==
  CASE e.op = "add" /\ ~e.bad -> Add(e.k, e.v, e.x)
    [] e.op = "add" /\ e.bad -> Read(Saw("EXC:*"))
    [] e.op = "remove" -> Remove(e.k, IF RemoveOk(e) /\ e.k \in DOMAIN pos THEN Np(e)
                                      ELSE IF e.k \in DOMAIN pos THEN Fallback(e.k) ELSE pos)
    [] e.op = "check" -> Check(e.k)
    [] e.op = "lookup" -> Lookup(e.k)
    [] e.op = "keys" -> KeyList
    [] e.op = "values" -> ValueList
    [] e.op = "items" -> ItemList

Clause(e) ==
  IF e.op = "remove" /\ ~RemoveOk(e) THEN "positions after the removal"
  ELSE IF last'.out = "EXC:*" THEN (IF e.exc THEN "" ELSE "the call should have raised")
  ELSE IF e.out # last'.out THEN "outcome"
  ELSE IF e.n # last'.n THEN "position"
  ELSE IF Len(e.lst) # Cardinality(last'.lst) THEN "number of entries listed"
  ELSE IF SeqRange(e.lst) # last'.lst THEN "entries listed"
  ELSE IF e.op = "keys" /\ \E k \in DOMAIN pos : e.lst[pos[k] + 1] # <<k>>
       THEN "order of the keys listed"
  ELSE ""

TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     /\ Act(e)
     /\ IF Clause(e) = ""
        THEN /\ l' = l + 1
             /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
        ELSE /\ l' = Len(H.ev) + 2
             /\ PrintT(<<"BAD", hist, l, Clause(e) \o " of " \o e.op, last', pos>>)

TSpec == TInit /\ [][TNext]_<<ivars, hist, l>>
=============================================================================
