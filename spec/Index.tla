------------------------------- MODULE Index --------------------------------
(* What one shared index looks like to any object attached to it:            *)
(* pos: key -> its position, val: key -> attached metadata ("none" if none). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES pos, val, last
ivars == <<pos, val, last>>
iview == <<pos, val>>

Empty == [k \in {} |-> 0]
Saw(o) == [out |-> o, n |-> 0, lst |-> {}]
At(n) == [out |-> "position", n |-> n, lst |-> {}]
Lst(S) == [out |-> "list", n |-> 0, lst |-> S]
IInit == pos = Empty /\ val = Empty /\ last = Saw("init")

Size == Cardinality(DOMAIN pos)
Range(f) == {f[x] : x \in DOMAIN f}
Gapless(f) == Range(f) = 0..(Cardinality(DOMAIN f) - 1)

\* v = "none": no value given.  ok: exists_ok
Add(k, v, ok) ==
  IF k \in DOMAIN pos /\ ~ok
  THEN last' = Saw("EXC:FileExistsError") /\ UNCHANGED iview
  ELSE /\ pos' = IF k \in DOMAIN pos THEN pos ELSE (k :> Size) @@ pos
       /\ val' = IF v = "none" /\ k \in DOMAIN val THEN val ELSE (k :> v) @@ val
       /\ last' = At(pos'[k])

\* the remaining keys keep gapless positions; np says which
Remove(k, np) ==
  IF k \notin DOMAIN pos
  THEN last' = Saw("EXC:KeyError") /\ UNCHANGED iview
  ELSE /\ DOMAIN np = DOMAIN pos \ {k}
       /\ Gapless(np)
       /\ pos' = np
       /\ val' = [j \in DOMAIN np |-> val[j]]
       /\ last' = Saw("ok")

Read(r) == last' = r /\ UNCHANGED iview
Check(k) == Read(IF k \in DOMAIN pos THEN At(pos[k]) ELSE Saw("absent"))
\* looking up the metadata of a key without any raises something
Lookup(k) == Read(IF k \in DOMAIN pos
                  THEN Saw(IF val[k] = "none" THEN "EXC:*" ELSE val[k])
                  ELSE Saw("EXC:KeyError"))
KeyList == Read(Lst({<<k>> : k \in DOMAIN pos}))
ValueList == Read(Lst({<<ToString(pos[k]), val[k]>> : k \in DOMAIN pos}))
ItemList == Read(Lst({<<k, val[k]>> : k \in DOMAIN pos}))

\* --- properties
Consistent == Gapless(pos) /\ DOMAIN val = DOMAIN pos
\* a key keeps its position and value for as long as nothing is removed
Stable == [][DOMAIN pos \subseteq DOMAIN pos' =>
               \A k \in DOMAIN pos : pos'[k] = pos[k]]_ivars
OthersValuesStay ==
  [][Cardinality({k \in DOMAIN val \cap DOMAIN val' : val[k] # val'[k]}) <= 1]_ivars
=============================================================================
