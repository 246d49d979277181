-------------------------------- MODULE Trim --------------------------------
(* Label trimming. Contents are `pad` filler bytes (which occur in no        *)
(* ending) followed by the bytes `tail`; a part of such contents from the    *)
(* start on has the same form.                                               *)
EXTENDS Naturals, Sequences
CONSTANTS Bug, Endings
Least(a, b) == IF a < b THEN a ELSE b
Length(c) == c.pad + Len(c.tail)
Top(c, n) == IF n <= c.pad THEN [pad |-> n, tail |-> <<>>]
              ELSE [pad |-> c.pad, tail |-> SubSeq(c.tail, 1, Least(n - c.pad, Len(c.tail)))]
From(c, n) == IF n <= c.pad THEN [pad |-> c.pad - n, tail |-> c.tail]
              ELSE [pad |-> 0, tail |-> SubSeq(c.tail, Least(n - c.pad, Len(c.tail)) + 1, Len(c.tail))]
Occurs(t, e) == {i \in 1..Len(t) : i + Len(e) - 1 <= Len(t) /\ \A k \in DOMAIN e : t[i + k - 1] = e[k]}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
\* which known endings occur in the head
Known(h) == {k \in DOMAIN Endings : Occurs(h.tail, Endings[k]) # {}}
EndOf(h, k) == LET O == Occurs(h.tail, Endings[k]) IN
  h.pad + (IF Bug = "last" THEN Last(O) ELSE First(O)) + (IF Bug = "before" THEN 0 ELSE Len(Endings[k])) - 1
\* what trimming c to at most n bytes gives: nothing if there is no ending
Trim(c, n) ==
  LET h == IF Bug = "unlimited" THEN c ELSE Top(c, n)  K == Known(h) IN
  IF K = {} THEN [found |-> FALSE, c |-> h]
  ELSE LET k == IF Bug = "earliest" THEN CHOOSE k \in K : \A j \in K : EndOf(h, k) <= EndOf(h, j) ELSE First(K)
       IN [found |-> TRUE, c |-> Top(h, EndOf(h, k))]
=============================================================================
