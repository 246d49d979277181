----------------------------- MODULE PadBlocks ------------------------------
(***************************************************************************)
(* How a pad is kept in shared memory blocks: an index counter, one key    *)
(* block per index slot, one reverse block per key, one value block per    *)
(* key, and the counter of the index's lock.  Shaped like the code; it     *)
(* must refine Notepad.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Pads, Handles, Keys, Vals,
          Bug   \* "none", or one of the mistakes this model must not make

VARIABLES blocks,  \* pad -> set of blocks
          at, last

vars == <<blocks, at, last>>

\* blocks are 3-tuples of strings and numbers: kind, address, content
Mem(n) == <<"mem", "", n>>
Count  == <<"count", "", 0>>
KeyB(i, k) == <<"key", i, k>>
NameB(k, i) == <<"name", k, i>>
ValB(k, v) == <<"val", k, v>>

Of(p, kind) == {b \in blocks[p] : b[1] = kind}
Live(p) == Of(p, "mem") # {}
Length(p) == (CHOOSE b \in Of(p, "mem") : TRUE)[3]
KeyAt(p, i) == (CHOOSE b \in Of(p, "key") : b[2] = i)[3]
Knows(p, k) == \E b \in Of(p, "name") : b[2] = k
Slot(p, k) == (CHOOSE b \in Of(p, "name") : b[2] = k)[3]
Stored(p, k) == \E b \in Of(p, "val") : b[2] = k
ValOf(p, k) == (CHOOSE b \in Of(p, "val") : b[2] = k)[3]
Listing(p) == IF Live(p) THEN {KeyAt(p, i) : i \in 0..Length(p) - 1} ELSE {}

Saw(o) == [out |-> o, lst |-> {}]
Init ==
  /\ blocks = [p \in Pads |-> {}]
  /\ at = [h \in Handles |-> "none"]
  /\ last = Saw("init")

Open(h, p, create) ==
  /\ IF create /\ Live(p) THEN last' = Saw("EXC:FileExistsError") /\ UNCHANGED <<blocks, at>>
     ELSE IF ~create /\ ~Live(p) THEN last' = Saw("EXC:FileNotFoundError") /\ UNCHANGED <<blocks, at>>
     ELSE /\ at' = [at EXCEPT ![h] = p]
          /\ last' = Saw("ok")
          /\ blocks' = IF create THEN [blocks EXCEPT ![p] = @ \cup {Mem(0)}] ELSE blocks

IndexAdd(B, p, k) ==
  IF Knows(p, k) THEN B \cup {Count}
  ELSE (B \ {Mem(Length(p))}) \cup
       {Mem(Length(p) + 1), KeyB(Length(p), k), NameB(k, Length(p)), Count}

\* remove k from index blocks B: the last slot's key moves into its place
IndexDel(B, k) ==
  LET n == (CHOOSE b \in B : b[1] = "mem")[3]
      i == (CHOOSE b \in B : b[1] = "name" /\ b[2] = k)[3]
      lastkey == (CHOOSE b \in B : b[1] = "key" /\ b[2] = n - 1)[3]
      gone == {KeyB(i, k), KeyB(n - 1, lastkey), NameB(k, i), NameB(lastkey, n - 1), Mem(n)}
      moved == IF i = n - 1 THEN {} ELSE {KeyB(i, lastkey), NameB(lastkey, i)}
  IN (B \ gone) \cup moved \cup {Mem(n - 1), Count}

Set(h, k, v, x) ==
  LET p == at[h] IN
  /\ p # "none"
  /\ UNCHANGED at
  /\ IF Knows(p, k) /\ ~x
     THEN last' = Saw("EXC:KeyError") /\ blocks' = [blocks EXCEPT ![p] = @ \cup {Count}]
     ELSE IF v = "bad"
     THEN /\ last' = Saw("EXC:*")
          /\ blocks' = [blocks EXCEPT ![p] =
               IF Stored(p, k) THEN IndexAdd(@, p, k)
               ELSE IF Bug = "dangling" THEN IndexAdd(@, p, k)
               ELSE IndexDel(IndexAdd(@, p, k), k)]
     ELSE /\ last' = Saw("ok")
          /\ blocks' = [blocks EXCEPT ![p] =
               {b \in IndexAdd(@, p, k) : ~(b[1] = "val" /\ b[2] = k)} \cup {ValB(k, v)}]

Del(h, k) ==
  LET p == at[h] IN
  /\ p # "none"
  /\ UNCHANGED at
  /\ IF ~Stored(p, k) THEN last' = Saw("EXC:KeyError") /\ UNCHANGED blocks
     ELSE /\ last' = Saw("ok")
          /\ blocks' = [blocks EXCEPT ![p] =
               IndexDel({b \in @ : ~(b[1] = "val" /\ b[2] = k)}, k)]

Clear(h) ==
  LET p == at[h] IN
  /\ p # "none"
  /\ UNCHANGED at
  /\ last' = Saw("ok")
  /\ blocks' = [blocks EXCEPT ![p] = {Mem(0)} \cup {b \in @ : b[1] = "count"}]

Close(h) ==
  LET p == at[h] IN
  /\ p # "none"
  /\ last' = Saw("ok")
  /\ at' = [g \in Handles |-> IF at[g] = p THEN "none" ELSE at[g]]
  /\ blocks' = [blocks EXCEPT ![p] =
       IF Bug = "leak" THEN Of(p, "key") \cup Of(p, "name")
       ELSE IF Bug = "count" THEN Of(p, "count") ELSE {}]

Item(h, k) ==
  /\ at[h] # "none"
  /\ UNCHANGED <<blocks, at>>
  /\ last' = Saw(IF Stored(at[h], k) THEN ValOf(at[h], k) ELSE "EXC:KeyError")

Next ==
  \E h \in Handles :
    \/ \E p \in Pads, c \in BOOLEAN : Open(h, p, c)
    \/ Clear(h) \/ Close(h)
    \/ \E k \in Keys : \/ \E v \in Vals, x \in BOOLEAN : Set(h, k, v, x)
                       \/ Del(h, k) \/ Item(h, k)
Spec == Init /\ [][Next]_vars
view == <<blocks, at>>

\* --- properties of the layout
OneAddressOneBlock ==
  \A p \in Pads : \A b, c \in blocks[p] : (b[1] = c[1] /\ b[2] = c[2]) => b = c
Gapless ==
  \A p \in Pads : Live(p) =>
    /\ Cardinality(Of(p, "key")) = Length(p)
    /\ {b[2] : b \in Of(p, "key")} = 0..Length(p) - 1
    /\ \A k \in Keys : Knows(p, k) => KeyAt(p, Slot(p, k)) = k
NothingLeft == \A p \in Pads : ~Live(p) => blocks[p] = {}
FailedLeavesBlocks ==
  [][last'.out \in {"EXC:KeyError", "EXC:*", "EXC:FileExistsError", "EXC:FileNotFoundError"}
      => \A p \in Pads : blocks'[p] \ {Count} = blocks[p] \ {Count}]_vars

Abstract == INSTANCE Notepad WITH
  live <- [p \in Pads |-> Live(p)],
  store <- [p \in Pads |-> [k \in {b[2] : b \in Of(p, "val")} |-> ValOf(p, k)]],
  listed <- [p \in Pads |-> Listing(p)],
  at <- at, last <- last
AbstractNext ==
  \E h \in Handles :
    \/ \E p \in Pads, c \in BOOLEAN : Abstract!Open(h, p, c)
    \/ Abstract!Clear(h) \/ Abstract!Close(h)
    \/ \E k \in Keys : \/ \E v \in Vals, x \in BOOLEAN :
                            \/ Abstract!Set(h, k, v, x, FALSE, v = "bad")
                            \/ v = "bad" /\ Abstract!Set(h, k, v, x, FALSE, FALSE)
                       \/ Abstract!Del(h, k, FALSE) \/ Abstract!Item(h, k)
Refines == Abstract!Init /\ [][AbstractNext]_(Abstract!vars)
=============================================================================
