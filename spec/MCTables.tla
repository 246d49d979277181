------------------------------ MODULE MCTables ------------------------------
(* all tables up to a bound: laws hold of each, each is printed for replay   *)
EXTENDS Tables, Json
CONSTANTS H, W, Cells
VARIABLE t
Cols(h) == [1..h -> Cells]
Init == \E h \in 1..H, w \in 1..W : \E cs \in [1..w -> Cols(h)] :
          /\ t = Table([j \in 1..w |-> "sc" \o ToString(j)], [i \in 1..h |-> "n" \o ToString(i - 1)], cs)
          /\ PrintT(<<"TABLE", ToJson(t)>>)
Next == FALSE /\ UNCHANGED t
Spec == Init /\ [][Next]_t
Turn == LawTurn(t)
Nulls == LawNulls(t)
Meaning == LawDef(t)
Again == LawAgain(t)
Valued == LawValue(t)
Split == LawSplit(t)
Repeat == LawRepeat(t)
Smashed == Width(t) > 1 => LawSmash(t)
Squeezed == Width(t) > 1 => LawSqueeze(t)
Dedupe == LawDedupe(t)
Join == Width(t) > 1 => LawJunction(t)
Maps == LawMapped(t)
=============================================================================
