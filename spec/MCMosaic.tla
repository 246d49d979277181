------------------------------ MODULE MCMosaic ------------------------------
(* sorting a file window by window, for all small files                      *)
EXTENDS Mosaic, Json
CONSTANTS MaxRows, Values, Chunks
VARIABLES gs, n, dir, w, out, chunks
vars == <<gs, n, dir, w, out, chunks>>
File == Flat(gs)
Cuts(len) == SUBSET (1..(len - 1))   \* a group ends after these rows
Row(i, v) == IF v = 99 THEN [id |-> i, key |-> 0, null |-> TRUE] ELSE [id |-> i, key |-> v, null |-> FALSE]
RECURSIVE Grouped(_, _, _, _)
Grouped(rows, cuts, i, cur) ==
  IF i > Len(rows) THEN <<cur>>
  ELSE IF i \in cuts THEN <<Append(cur, rows[i])>> \o Grouped(rows, cuts, i + 1, <<>>)
       ELSE Grouped(rows, cuts, i + 1, Append(cur, rows[i]))
Init == \E len \in 1..MaxRows : \E vs \in [1..len -> Values] : \E cut \in Cuts(len) :
  /\ gs = Grouped([i \in 1..len |-> Row(i, vs[i])], cut, 1, <<>>)
  /\ n \in Chunks /\ dir \in {"ascending", "descending"}
  /\ w = 1 /\ out = <<>> /\ chunks = <<>>
  /\ PrintT(<<"CALL", ToJson([gs |-> [g \in DOMAIN gs |-> [i \in DOMAIN gs[g] |-> IF gs[g][i].null THEN 99 ELSE gs[g][i].key]],
                              n |-> n, dir |-> dir])>>)
All == IF Keys(File) = {} THEN <<>> ELSE InOrder(Least(Keys(File)), Most(Keys(File)), n, dir)
Put(rows) == out' = out \o rows /\ chunks' = IF rows = <<>> THEN chunks ELSE Append(chunks, rows)
Window == /\ w <= Len(All)
          /\ LET read == Between(Scaled(gs, n), All[w])
                 ids == [i \in DOMAIN read |-> CHOOSE r \in Rng(File) : r.id = read[i].id]
             IN Put(Sort(ids, dir))
          /\ w' = w + 1
Rest == w = Len(All) + 1 /\ Put(IF Bug = "nulls" THEN <<>> ELSE Nulls(gs)) /\ w' = w + 1
Next == (Window \/ Rest) /\ UNCHANGED <<gs, n, dir>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == w = Len(All) + 2
\* what is written stays, is in order at all times, and in the end is the file
SoFar == Sorted(out, dir) /\ Cardinality({r.id : r \in Rng(out)}) = Len(out)
Whole == Done => IsSorted(out, File, dir)
Pieces == Flat(chunks) = out /\ \A c \in Rng(chunks) : c # <<>>
Finishes == <>Done
Reads == \A lo \in {-1, 0, 1, 2, 3}, hi \in {-1, 0, 1, 2, 3} :
  LET b == [lo |-> lo, hi |-> hi, from |-> TRUE, to |-> TRUE] IN
  w = 1 => Between(gs, b) = SelectSeq(File, LAMBDA r : ~r.null /\ r.key >= lo /\ r.key < hi)
=============================================================================
