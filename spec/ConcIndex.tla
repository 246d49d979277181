----------------------------- MODULE ConcIndex ------------------------------
(***************************************************************************)
(* The shared index as it is laid out in memory (a length, one block per   *)
(* position with the key there, one block per key with its position, one   *)
(* block per position with attached metadata), used by several workers     *)
(* whose calls proceed one memory operation at a time under a lock.        *)
(* It implements ConcMap: a call takes effect when it has looked its key   *)
(* up, and whenever the lock is free the layout is exactly the map.        *)
(*                                                                         *)
(* Bug: "none" | "nolock" (no lock) | "early" (the lock is released before *)
(* the length is written when removing) | "lookfirst" (the key is looked   *)
(* up before the lock is taken)                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Workers, Keys, Vals, Calls, Bug
VARIABLES length, keyat, posof, valat,  \* shared memory
          lock,                         \* who holds the lock, or "free"
          pc, at, len, out,             \* per worker: step, found position, length read, outcome
          todo,                         \* per worker: calls it may still make
          store, call, ret              \* the map this implements
mem == <<length, keyat, posof, valat>>
loc == <<at, len, out, todo>>
abs == <<store, call, ret>>
vars == <<mem, lock, pc, loc, abs>>
M == INSTANCE ConcMap

Fn == [x \in {} |-> ""]
With(f, a, b) == (a :> b) @@ f
Without(f, a) == [x \in DOMAIN f \ {a} |-> f[x]]
NONE == 99

Init == /\ length = 0 /\ keyat = Fn /\ posof = Fn /\ valat = Fn /\ lock = "free"
        /\ pc = [w \in Workers |-> "idle"]
        /\ at = [w \in Workers |-> NONE]
        /\ len = [w \in Workers |-> 0]
        /\ out = [w \in Workers |-> ""]
        /\ todo = [w \in Workers |-> Calls]
        /\ M!CInit

Goto(w, l) == pc' = [pc EXCEPT ![w] = l]

Invoke(w) ==
  /\ pc[w] = "idle" /\ todo[w] > 0
  /\ todo' = [todo EXCEPT ![w] = @ - 1]
  /\ \E op \in {"put", "del"}, k \in Keys, v \in Vals, x \in BOOLEAN :
       /\ (op = "del" => v = "keep" /\ x)
       /\ M!Invoke(w, [op |-> op, k |-> k, v |-> v, x |-> x, no |-> "EXC:FileExistsError"])
  /\ Goto(w, IF Bug = "lookfirst" THEN "look" ELSE "acquire")
  /\ UNCHANGED <<mem, lock, at, len, out>>

Acquire(w) ==
  /\ pc[w] = "acquire"
  /\ IF Bug = "nolock" THEN UNCHANGED lock ELSE lock = "free" /\ lock' = w
  /\ IF Bug = "lookfirst" THEN pc' = [pc EXCEPT ![w] = out[w]] ELSE Goto(w, "look")
  /\ UNCHANGED <<mem, loc, abs>>

\* look the key up, and the length: the call takes effect here
Look(w) ==
  LET c == call[w]
      found == c.k \in DOMAIN posof
      next == IF c.op = "put"
              THEN IF found THEN (IF c.x /\ c.v # "keep" THEN "setval" ELSE "release") ELSE "grow"
              ELSE IF ~found THEN "release"
              ELSE IF posof[c.k] = length - 1 THEN "delkey" ELSE "movekey"
  IN /\ pc[w] = "look"
     /\ at' = [at EXCEPT ![w] = IF found THEN posof[c.k] ELSE length]
     /\ len' = [len EXCEPT ![w] = length]
     /\ IF Bug = "lookfirst"
        THEN Goto(w, "acquire") /\ out' = [out EXCEPT ![w] = next]
        ELSE /\ Goto(w, next)
             /\ out' = [out EXCEPT ![w] =
                   IF c.op = "put" THEN (IF found /\ ~c.x THEN c.no ELSE "ok")
                   ELSE IF found THEN "ok" ELSE "EXC:KeyError"]
     /\ M!TakeEffect(w)
     /\ UNCHANGED <<mem, lock, todo>>

Do(w, here, there, l2, k2, p2, v2) ==
  /\ pc[w] = here
  /\ length' = l2 /\ keyat' = k2 /\ posof' = p2 /\ valat' = v2
  /\ Goto(w, there)
  /\ UNCHANGED <<lock, loc, abs>>

K(w) == call[w].k
Last(w) == len[w] - 1
\* adding
Grow(w) == Do(w, "grow", "setkey", len[w] + 1, keyat, posof, valat)
SetKey(w) == Do(w, "setkey", "setname", length, With(keyat, len[w], K(w)), posof, valat)
SetName(w) == Do(w, "setname", IF call[w].v = "keep" THEN "release" ELSE "setval",
                 length, keyat, With(posof, K(w), len[w]), valat)
SetVal(w) == Do(w, "setval", "release", length, keyat, posof, With(valat, at[w], call[w].v))
\* removing
DelKey(w) == Do(w, "delkey", "delname", length, Without(keyat, at[w]), posof, valat)
MoveKey(w) == /\ Last(w) \in DOMAIN keyat
              /\ Do(w, "movekey", "fixname", length, With(keyat, at[w], keyat[Last(w)]), posof, valat)
FixName(w) == Do(w, "fixname", "dellast", length, keyat, With(posof, keyat[Last(w)], at[w]), valat)
DelLast(w) == Do(w, "dellast", "delname", length, Without(keyat, Last(w)), posof, valat)
DelName(w) == Do(w, "delname", IF Bug = "early" THEN "shrinkfree" ELSE "shrink",
                 length, keyat, Without(posof, K(w)), valat)
Shrink(w) == Do(w, "shrink", "moveval", len[w] - 1, keyat, posof, valat)
ShrinkFree(w) == /\ pc[w] = "shrinkfree"
                 /\ lock' = IF lock = w THEN "free" ELSE lock
                 /\ Goto(w, "shrink")
                 /\ UNCHANGED <<mem, loc, abs>>
MoveVal(w) == IF Last(w) \in DOMAIN valat /\ Last(w) # at[w]
              THEN Do(w, "moveval", "delval", length, keyat, posof, With(valat, at[w], valat[Last(w)]))
              ELSE Do(w, "moveval", "release", length, keyat, posof, Without(valat, at[w]))
DelVal(w) == Do(w, "delval", "release", length, keyat, posof, Without(valat, Last(w)))

Release(w) ==
  /\ pc[w] = "release"
  /\ lock' = IF lock = w THEN "free" ELSE lock
  /\ Goto(w, "return")
  /\ UNCHANGED <<mem, loc, abs>>
Return(w) ==
  /\ pc[w] = "return"
  /\ M!Return(w, ret[w])
  /\ Goto(w, "idle")
  /\ UNCHANGED <<mem, lock, loc>>

Next == \E w \in Workers :
  Invoke(w) \/ Acquire(w) \/ Look(w) \/ Grow(w) \/ SetKey(w) \/ SetName(w) \/ SetVal(w)
  \/ DelKey(w) \/ MoveKey(w) \/ FixName(w) \/ DelLast(w) \/ DelName(w) \/ Shrink(w)
  \/ ShrinkFree(w) \/ MoveVal(w) \/ DelVal(w) \/ Release(w) \/ Return(w)
Spec == Init /\ [][Next]_vars

\* --- properties
Resting == \A w \in Workers : pc[w] \in {"idle", "acquire", "return"}
\* whenever nobody is in the middle of a change, the layout is the map
Exact ==
  Resting =>
    /\ length = Cardinality(DOMAIN store)
    /\ DOMAIN keyat = 0..(length - 1)
    /\ DOMAIN posof = DOMAIN store
    /\ \A k \in DOMAIN posof : keyat[posof[k]] = k
    /\ DOMAIN valat \subseteq 0..(length - 1)
    /\ \A k \in DOMAIN store : store[k] = IF posof[k] \in DOMAIN valat THEN valat[posof[k]] ELSE "none"
\* what a call returns is what the map says
Truthful == Bug # "lookfirst" => \A w \in Workers : (ret[w] # "" /\ pc[w] # "idle") => out[w] = ret[w]
NeverStuck == \A w \in Workers : pc[w] = "movekey" => Last(w) \in DOMAIN keyat
MapInit == M!CInit
MapNext == \E w \in Workers : M!TakeEffect(w) \/ M!Return(w, ret[w])
             \/ \E op \in {"put", "del"}, k \in Keys, v \in Vals, x \in BOOLEAN :
                  M!Invoke(w, [op |-> op, k |-> k, v |-> v, x |-> x, no |-> "EXC:FileExistsError"])
ImplementsMap == MapInit /\ [][MapNext]_abs
=============================================================================
