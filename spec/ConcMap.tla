------------------------------ MODULE ConcMap -------------------------------
(***************************************************************************)
(* A map used by several workers at once: every call takes effect at one   *)
(* instant between its invocation and its return.  Indexes (values are     *)
(* their metadata) and notepads are both such maps.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Workers, Keys
VARIABLES store,  \* key -> value
          call,   \* worker -> its pending call, or NoCall
          ret     \* worker -> what its pending call will return, "" if it has
                  \* not taken effect yet
vars == <<store, call, ret>>
NoCall == [op |-> "none", k |-> "", v |-> "", x |-> FALSE, no |-> ""]

CInit == /\ store = [k \in {} |-> ""]
         /\ call = [w \in Workers |-> NoCall]
         /\ ret = [w \in Workers |-> ""]

Has(k) == k \in DOMAIN store
Put(k, v) == store' = (k :> v) @@ store
Drop(k) == store' = [j \in DOMAIN store \ {k} |-> store[j]]

\* c.no: how this kind of map refuses an existing key
\* v = "keep": attach nothing, and leave what is attached already
Effect(w) ==
  LET c == call[w] IN
  CASE c.op = "put" ->
         IF Has(c.k) /\ ~c.x
         THEN ret' = [ret EXCEPT ![w] = c.no] /\ UNCHANGED store
         ELSE /\ ret' = [ret EXCEPT ![w] = "ok"]
              /\ IF c.v = "keep" /\ Has(c.k) THEN UNCHANGED store
                 ELSE Put(c.k, IF c.v = "keep" THEN "none" ELSE c.v)
    [] c.op = "del" ->
         IF ~Has(c.k) THEN ret' = [ret EXCEPT ![w] = "EXC:KeyError"] /\ UNCHANGED store
         ELSE ret' = [ret EXCEPT ![w] = "ok"] /\ Drop(c.k)
    [] c.op = "get" ->
         /\ ret' = [ret EXCEPT ![w] = IF Has(c.k) THEN store[c.k] ELSE "EXC:KeyError"]
         /\ UNCHANGED store

Invoke(w, c) == /\ call[w] = NoCall
                /\ call' = [call EXCEPT ![w] = c]
                /\ ret' = [ret EXCEPT ![w] = ""]
                /\ UNCHANGED store
TakeEffect(w) == call[w] # NoCall /\ ret[w] = "" /\ Effect(w) /\ UNCHANGED call
Return(w, o) == /\ call[w] # NoCall /\ ret[w] = o
                /\ call' = [call EXCEPT ![w] = NoCall]
                /\ ret' = [ret EXCEPT ![w] = ""]
                /\ UNCHANGED store
=============================================================================
