------------------------------ MODULE Notepad ------------------------------
(***************************************************************************)
(* What a family of processes sharing Notepads may observe.                *)
(*                                                                         *)
(* A pad is one shared address space (one prefix).  A handle is one object *)
(* in one process attached to one pad.  Every call on any handle is one    *)
(* action: it is total (errors are outcomes) and `last' records what the   *)
(* caller saw.  The two halves of a pad's state are kept apart, as in the  *)
(* code: `store' is what can be fetched, `listed' is what the index says.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Pads, Handles, Keys, Vals

VARIABLES live,     \* pad -> does it exist in shared memory
          store,    \* pad -> (key -> value)
          listed,   \* pad -> set of keys its index lists
          at,       \* handle -> pad it is attached to, or "none"
          last      \* what the last caller observed: [out, lst]

vars == <<live, store, listed, at, last>>
view == <<live, store, listed, at>>

Empty == [k \in {} |-> ""]
Saw(o) == [out |-> o, lst |-> {}]
Lst(S) == [out |-> "list", lst |-> S]

Init ==
  /\ live = [p \in Pads |-> FALSE]
  /\ store = [p \in Pads |-> Empty]
  /\ listed = [p \in Pads |-> {}]
  /\ at = [h \in Handles |-> "none"]
  /\ last = Saw("init")

Put(f, k, v) == (k :> v) @@ f
Drop(f, S) == [k \in DOMAIN f \ S |-> f[k]]

\* --- the life of a pad
Open(h, p, create) ==
  IF create
  THEN IF live[p]
       THEN /\ last' = Saw("EXC:FileExistsError")
            /\ UNCHANGED <<live, store, listed, at>>
       ELSE /\ live' = [live EXCEPT ![p] = TRUE]
            /\ store' = [store EXCEPT ![p] = Empty]
            /\ listed' = [listed EXCEPT ![p] = {}]
            /\ at' = [at EXCEPT ![h] = p]
            /\ last' = Saw("ok")
  ELSE IF live[p]
       THEN /\ at' = [at EXCEPT ![h] = p]
            /\ last' = Saw("ok")
            /\ UNCHANGED <<live, store, listed>>
       ELSE /\ last' = Saw("EXC:FileNotFoundError")
            /\ UNCHANGED <<live, store, listed, at>>

Close(h) ==
  /\ at[h] # "none"
  /\ live' = [live EXCEPT ![at[h]] = FALSE]
  /\ store' = [store EXCEPT ![at[h]] = Empty]
  /\ listed' = [listed EXCEPT ![at[h]] = {}]
  /\ at' = [g \in DOMAIN at |-> IF at[g] = at[h] THEN "none" ELSE at[g]]
  /\ last' = Saw("ok")

\* --- writing.  x: exists_ok; res: the key is reserved; bad: the value
\*     cannot be serialized (whatever is raised then, nothing may change)
Set(h, k, v, x, res, bad) ==
  LET p == at[h] IN
  /\ p # "none"
  /\ UNCHANGED <<live, at>>
  /\ IF bad
     THEN last' = Saw("EXC:*") /\ UNCHANGED <<store, listed>>
     ELSE IF res \/ (~x /\ k \in DOMAIN store[p])
     THEN last' = Saw("EXC:KeyError") /\ UNCHANGED <<store, listed>>
     ELSE /\ store' = [store EXCEPT ![p] = Put(@, k, v)]
          /\ listed' = [listed EXCEPT ![p] = @ \cup {k}]
          /\ last' = Saw("ok")

Del(h, k, res) ==
  LET p == at[h] IN
  /\ p # "none"
  /\ UNCHANGED <<live, at>>
  /\ IF res \/ k \notin DOMAIN store[p]
     THEN last' = Saw("EXC:KeyError") /\ UNCHANGED <<store, listed>>
     ELSE /\ store' = [store EXCEPT ![p] = Drop(@, {k})]
          /\ listed' = [listed EXCEPT ![p] = @ \ {k}]
          /\ last' = Saw("ok")

Clear(h) ==
  LET p == at[h] IN
  /\ p # "none"
  /\ store' = [store EXCEPT ![p] = Empty]
  /\ listed' = [listed EXCEPT ![p] = {}]
  /\ last' = Saw("ok")
  /\ UNCHANGED <<live, at>>

\* --- reading
Read(h, L) == at[h] # "none" /\ last' = L /\ UNCHANGED <<live, store, listed, at>>

Item(h, k) == Read(h, Saw(IF k \in DOMAIN store[at[h]] THEN store[at[h]][k]
                          ELSE "EXC:KeyError"))
Get(h, k) == Read(h, Saw(IF k \in DOMAIN store[at[h]] THEN store[at[h]][k]
                         ELSE "DEFAULT"))
KeyList(h) == Read(h, Lst({<<k>> : k \in listed[at[h]]}))
ValList(h) == Read(h, Lst({<<k, store[at[h]][k]>> : k \in listed[at[h]]}))

\* --- the properties
TypeOK ==
  /\ live \in [Pads -> BOOLEAN]
  /\ \A p \in Pads : DOMAIN store[p] \subseteq Keys
  /\ at \in [Handles -> Pads \cup {"none"}]

\* the index lists exactly what can be fetched
IndexIsExact == \A p \in Pads : listed[p] = DOMAIN store[p]

\* nothing survives its pad, and nobody is attached to a pad that is gone
DeadIsEmpty == \A p \in Pads : ~live[p] =>
                  /\ store[p] = Empty /\ listed[p] = {}
                  /\ \A h \in Handles : at[h] # p

\* a failed call changes nothing
FailedIsNoop ==
  [][(last'.out \in {"EXC:KeyError", "EXC:*", "EXC:FileExistsError",
                     "EXC:FileNotFoundError", "DEFAULT", "list"})
       => UNCHANGED view]_vars

\* a call changes at most the pad its handle is attached to
Isolation ==
  [][\E p \in Pads : \A q \in Pads \ {p} :
        store'[q] = store[q] /\ listed'[q] = listed[q] /\ live'[q] = live[q]]_vars
=============================================================================
