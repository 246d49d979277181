----------------------------- MODULE IndexSlots -----------------------------
(* How the index is kept: numbered slots with a key and perhaps a value, and *)
(* a reverse map.  Removal moves the last slot into the gap.  Must refine    *)
(* Index.  Bug selects a mistake that must be rejected.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Vals, Bug
VARIABLES key, name, vslot, len, last
vars == <<key, name, vslot, len, last>>
view == <<key, name, vslot, len>>

Empty == [x \in {} |-> 0]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Saw(o) == [out |-> o, n |-> 0, lst |-> {}]
At(n) == [out |-> "position", n |-> n, lst |-> {}]
St == [key |-> [i \in 1..len |-> key[i - 1]], v |-> [i \in 1..len |-> IF i - 1 \in DOMAIN vslot THEN vslot[i - 1] ELSE "none"]]
Edge(e) == PrintT(<<"EDGE", ToJson([f |-> St, t |-> St', e |-> e])>>)
Ev(op, k, v, ok) == [op |-> op, k |-> k, v |-> v, x |-> ok]

Init ==
  /\ key = Empty /\ name = Empty /\ vslot = Empty /\ len = 0 /\ last = Saw("init")
  /\ PrintT(<<"INIT", ToJson(St)>>)

Add(k, v, ok) ==
  IF k \in DOMAIN name /\ ~ok
  THEN last' = Saw("EXC:FileExistsError") /\ UNCHANGED view
  ELSE LET i == IF k \in DOMAIN name THEN name[k] ELSE len IN
       /\ len' = IF k \in DOMAIN name THEN len ELSE len + 1
       /\ key' = (i :> k) @@ key
       /\ name' = (k :> i) @@ name
       /\ vslot' = IF v = "none" THEN vslot ELSE (i :> v) @@ vslot
       /\ last' = At(i)

Remove(k) ==
  IF k \notin DOMAIN name
  THEN last' = Saw("EXC:KeyError") /\ UNCHANGED view
  ELSE LET i == name[k]
           j == len - 1
           mk == key[j]
       IN
       /\ len' = j
       /\ key' = Without(IF i = j \/ Bug = "keepkey" THEN key ELSE (i :> mk) @@ key, {j})
       /\ name' = Without(IF i = j \/ Bug = "keepname" THEN name ELSE (mk :> i) @@ name, {k})
       /\ vslot' = CASE Bug = "stale" /\ j \notin DOMAIN vslot /\ i # j -> vslot
                     [] Bug = "forget" -> Without(vslot, {j})
                     [] i = j \/ j \notin DOMAIN vslot -> Without(vslot, {i})
                     [] OTHER -> Without((i :> vslot[j]) @@ vslot, {j})
       /\ last' = Saw("ok")

Next == \E k \in Keys :
  \/ \E v \in Vals \cup {"none"}, ok \in BOOLEAN : Add(k, v, ok) /\ Edge(Ev("add", k, v, ok))
  \/ Remove(k) /\ Edge(Ev("remove", k, "none", FALSE))
Spec == Init /\ [][Next]_vars

SlotsExact ==
  /\ DOMAIN key = 0..(len - 1)
  /\ DOMAIN vslot \subseteq 0..(len - 1)
  /\ \A k \in DOMAIN name : name[k] \in DOMAIN key /\ key[name[k]] = k

Vals_ == [k \in DOMAIN name |-> IF name[k] \in DOMAIN vslot THEN vslot[name[k]] ELSE "none"]
Abs == INSTANCE Index WITH pos <- name, val <- Vals_, last <- last
AbsNext == \E k \in Keys :
  \/ \E v \in Vals \cup {"none"}, ok \in BOOLEAN : Abs!Add(k, v, ok)
  \/ Abs!Remove(k, name')
Refines == Abs!IInit /\ [][AbsNext]_(Abs!ivars)
=============================================================================
