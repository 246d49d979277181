------------------------------- MODULE Sticky -------------------------------
(* Notes stuck at addresses in shared memory, and the stickies that cache    *)
(* what they last saw there.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Handles, Addresses, Vals
VARIABLES note,   \* address -> value, or "empty"
          on,     \* handle -> address, or "none"
          cache,  \* handle -> value it remembers, or "None"
          last
vars == <<note, on, cache, last>>
view == <<note, on, cache>>

SInit ==
  /\ note = [a \in Addresses |-> "empty"]
  /\ on = [h \in Handles |-> "none"]
  /\ cache = [h \in Handles |-> "None"]
  /\ last = "init"

\* a sticky that has not read anything yet
New(h, a) ==
  /\ on' = [on EXCEPT ![h] = a]
  /\ cache' = [cache EXCEPT ![h] = "None"]
  /\ last' = "ok"
  /\ UNCHANGED note

\* make a sticky and stick v at once
Note(h, a, v, bad) ==
  IF bad THEN last' = "EXC:*" /\ UNCHANGED view
  ELSE /\ on' = [on EXCEPT ![h] = a]
       /\ note' = [note EXCEPT ![a] = v]
       /\ cache' = [cache EXCEPT ![h] = v]
       /\ last' = "ok"

Stick(h, v, bad) ==
  /\ on[h] # "none"
  /\ IF bad THEN last' = "EXC:*" /\ UNCHANGED view
     ELSE /\ note' = [note EXCEPT ![on[h]] = v]
          /\ cache' = [cache EXCEPT ![h] = v]
          /\ last' = "ok"
          /\ UNCHANGED on

\* None is both a value and what an empty address gives
Seen(a) == IF note[a] = "empty" THEN "None" ELSE note[a]

Read(h, again) ==
  /\ on[h] # "none"
  /\ UNCHANGED <<note, on>>
  /\ IF cache[h] # "None" /\ ~again
     THEN last' = cache[h] /\ UNCHANGED cache
     ELSE /\ last' = Seen(on[h])
          /\ cache' = [cache EXCEPT ![h] =
                         IF note[on[h]] = "empty" THEN @ ELSE note[on[h]]]

Pull(h) ==
  /\ on[h] # "none"
  /\ UNCHANGED <<on, cache>>
  /\ note' = [note EXCEPT ![on[h]] = "empty"]
  /\ last' = IF note[on[h]] = "empty" THEN "anything" ELSE "ok"

\* what is at an address, as a fresh process sees it
Peek(a) == last' = note[a] /\ UNCHANGED view

\* --- properties
OnlyStuckIsSeen ==
  [][\A h \in DOMAIN cache : cache'[h] # cache[h] =>
        cache'[h] = "None" \/ cache'[h] \in {note'[a] : a \in DOMAIN note'}]_vars
OneAddressAtATime ==
  [][Cardinality({a \in DOMAIN note : note'[a] # note[a]}) <= 1]_vars
=============================================================================
