------------------------------ MODULE ConcPad -------------------------------
(***************************************************************************)
(* Notepad assignments and deletions, one shared memory operation at a     *)
(* time.  The index (which keys are listed) changes atomically, as C03     *)
(* establishes; a value's block is replaced without a lock: the old block  *)
(* is opened, unlinked by name, a new one created exclusively, and then    *)
(* written.  Key classes, as in the property: every worker has its own     *)
(* keys; shared keys are only ever overwritten (or tried exclusively when  *)
(* they exist, or only ever tried exclusively).                            *)
(*                                                                         *)
(* Bug: "none" | "inplace" (write into the block found, if any) |          *)
(* "blockfirst" (the exclusive check looks at the value's block only)      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Workers, Shared, Fresh, Calls, Bug
\* Shared keys exist from the start, Fresh ones are only created exclusively
VARIABLES listed, block, bytes, next,   \* key -> chunk or 0; chunk -> value
          pc, job, todo, chunk, seen,   \* per worker
          wrote                         \* history: key -> values of completed or pending writes
vars == <<listed, block, bytes, next, pc, job, todo, chunk, seen, wrote>>

Own(w) == "own" \o ToString(w)
Keys == Shared \cup Fresh \cup {Own(w) : w \in Workers}
Val(w, n) == <<w, n>>

Init == /\ listed = Shared
        /\ next = Cardinality(Shared) + 1
        /\ \E f \in [Shared -> 1..Cardinality(Shared)] :
             /\ \A a, b \in Shared : a # b => f[a] # f[b]
             /\ block = [k \in Keys |-> IF k \in Shared THEN f[k] ELSE 0]
        /\ bytes = [c \in 1..Cardinality(Shared) |-> <<0, 0>>]
        /\ pc = [w \in Workers |-> "idle"]
        /\ job = [w \in Workers |-> [op |-> "none", k |-> "", x |-> TRUE, v |-> <<0, 0>>]]
        /\ todo = [w \in Workers |-> Calls]
        /\ chunk = [w \in Workers |-> 0]
        /\ seen = [w \in Workers |-> "none"]
        /\ wrote = [k \in Keys |-> IF k \in Shared THEN {<<0, 0>>} ELSE {}]

Goto(w, l) == pc' = [pc EXCEPT ![w] = l]
Start(w) ==
  /\ pc[w] = "idle" /\ todo[w] > 0
  /\ todo' = [todo EXCEPT ![w] = @ - 1]
  /\ \E op \in {"set", "del"}, k \in Keys, x \in BOOLEAN :
       /\ (op = "del" => k = Own(w) /\ x)
       /\ (k \in Fresh => ~x)
       /\ (k \in {Own(v) : v \in Workers} => k = Own(w))
       /\ job' = [job EXCEPT ![w] = [op |-> op, k |-> k, x |-> x, v |-> Val(w, todo[w])]]
       /\ Goto(w, IF op = "set" THEN "index" ELSE "unblock")
  /\ seen' = [seen EXCEPT ![w] = "none"]
  /\ UNCHANGED <<listed, block, bytes, next, chunk, wrote>>

J(w) == job[w]
Finish(w, o) == Goto(w, "idle") /\ seen' = [seen EXCEPT ![w] = o]

AddIndex(w) ==
  /\ pc[w] = "index"
  /\ IF J(w).k \in listed /\ ~J(w).x /\ Bug # "blockfirst"
     THEN Finish(w, "refused") /\ UNCHANGED listed
     ELSE listed' = listed \cup {J(w).k} /\ Goto(w, "exists") /\ UNCHANGED seen
  /\ UNCHANGED <<block, bytes, next, job, todo, chunk, wrote>>
LookBlock(w) ==
  /\ pc[w] = "exists"
  /\ IF block[J(w).k] # 0 /\ ~J(w).x
     THEN Finish(w, "refused")
     ELSE Goto(w, "create") /\ UNCHANGED seen
  /\ UNCHANGED <<listed, block, bytes, next, job, todo, chunk, wrote>>
Create(w) ==
  /\ pc[w] = "create"
  /\ IF block[J(w).k] # 0
     THEN IF Bug = "inplace"
          THEN chunk' = [chunk EXCEPT ![w] = block[J(w).k]] /\ Goto(w, "write")
               /\ UNCHANGED <<block, bytes, next>>
          ELSE Goto(w, "unlink") /\ UNCHANGED <<block, bytes, next, chunk>>
     ELSE /\ block' = [block EXCEPT ![J(w).k] = next]
          /\ bytes' = (next :> <<99, 99>>) @@ bytes
          /\ chunk' = [chunk EXCEPT ![w] = next]
          /\ next' = next + 1
          /\ Goto(w, "write")
  /\ UNCHANGED <<listed, job, todo, seen, wrote>>
\* whatever is there by then; if nothing, somebody else unlinked it
Unlink(w) ==
  /\ pc[w] = "unlink"
  /\ block' = [block EXCEPT ![J(w).k] = 0]
  /\ Goto(w, "create")
  /\ UNCHANGED <<listed, bytes, next, job, todo, chunk, seen, wrote>>
\* two words, so that mixtures show
Write(w) ==
  /\ pc[w] = "write"
  /\ bytes' = [bytes EXCEPT ![chunk[w]] = <<J(w).v[1], @[2]>>]
  /\ Goto(w, "write2")
  /\ UNCHANGED <<listed, block, next, job, todo, chunk, seen, wrote>>
Write2(w) ==
  /\ pc[w] = "write2"
  /\ bytes' = [bytes EXCEPT ![chunk[w]] = <<@[1], J(w).v[2]>>]
  /\ wrote' = [wrote EXCEPT ![J(w).k] = @ \cup {J(w).v}]
  /\ Finish(w, "ok")
  /\ UNCHANGED <<listed, block, next, job, todo, chunk>>
Unblock(w) ==
  /\ pc[w] = "unblock"
  /\ IF block[J(w).k] = 0
     THEN Finish(w, "missing") /\ UNCHANGED block
     ELSE block' = [block EXCEPT ![J(w).k] = 0] /\ Goto(w, "unindex") /\ UNCHANGED seen
  /\ UNCHANGED <<listed, bytes, next, job, todo, chunk, wrote>>
Unindex(w) ==
  /\ pc[w] = "unindex"
  /\ listed' = listed \ {J(w).k}
  /\ wrote' = [wrote EXCEPT ![J(w).k] = {}]
  /\ Finish(w, "ok")
  /\ UNCHANGED <<block, bytes, next, job, todo, chunk>>

Next == \E w \in Workers : Start(w) \/ AddIndex(w) \/ LookBlock(w) \/ Create(w) \/ Unlink(w)
          \/ Write(w) \/ Write2(w) \/ Unblock(w) \/ Unindex(w)
Spec == Init /\ [][Next]_vars

\* --- properties
Resting == \A w \in Workers : pc[w] = "idle"
Exact == Resting => \A k \in Keys : /\ (k \in listed) <=> (block[k] # 0)
                                    /\ block[k] # 0 => bytes[block[k]] \in wrote[k]
\* whoever is refused was right to be, whoever succeeds exclusively is the only one
OneWinner == \A k \in Fresh : Cardinality(wrote[k]) <= 1
Refusals == \A w \in Workers : seen[w] = "refused" => ~J(w).x
NoOverwrite == \A w \in Workers : (seen[w] = "ok" /\ pc[w] = "idle" /\ J(w).op = "set" /\ ~J(w).x)
                                     => J(w).k \notin Shared
=============================================================================
