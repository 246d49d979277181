-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* A pool maps a function over records.  A record is [key, args, fail,     *)
(* gives]; its result depends on nothing but the record: a value, or the   *)
(* exception named by fail.  Records finish one at a time, in any order    *)
(* the workers allow; what the pool gives must not depend on that order.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Bug   \* "none" | "byorder" (results are matched to keys in the order they
                \* arrive) | "chunkfails" (a failure hides its chunk) | "keepold"
VARIABLES threads,  \* 0: serial
          recs, jobs, \* jobs: which records are done one after the other by one worker
          done,     \* the records that are done, in order of completion
          prev,     \* results of earlier rounds (only of interest to a broken pool)
          out
vars == <<threads, recs, jobs, done, prev, out>>
Rng(s) == {s[i] : i \in DOMAIN s}
PInit == threads = 0 /\ recs = <<>> /\ jobs = <<>> /\ done = <<>> /\ prev = {} /\ out = {}

Result(r) == IF r.fail # "" THEN "EXC:" \o r.fail \o "[" \o r.args \o "]"
             ELSE IF r.gives # "" THEN "VAL:" \o r.gives   \* nothing, something false, a class, ...
             ELSE "ret[" \o r.args \o "]"
Failed(rs) == {i \in DOMAIN rs : rs[i].fail # ""}
\* the results of a list of records: a set of <<key, result>>
Results(rs) == {<<rs[i].key, Result(rs[i])>> : i \in DOMAIN rs}
Good(rs) == {<<rs[i].key, Result(rs[i])>> : i \in DOMAIN rs \ Failed(rs)}

\* k nearly equal consecutive parts of 1..n, the longer ones first
Part(n, k, j) == LET q == n \div k  m == n % k
                     a == IF j <= m THEN (j - 1) * (q + 1) ELSE m * (q + 1) + (j - 1 - m) * q
                     len == IF j <= m THEN q + 1 ELSE q
                 IN [i \in 1..len |-> a + i]
Jobs(rs, chunked) ==
  IF threads = 0 \/ ~chunked THEN [i \in 1..Len(rs) |-> <<i>>]
  ELSE [j \in 1..threads |-> Part(Len(rs), threads, j)]
AllDone == Rng(done) = DOMAIN recs

New(n) == threads' = n /\ recs' = <<>> /\ jobs' = <<>> /\ done' = <<>> /\ prev' = {} /\ out' = {}
Map(rs, chunked) ==
  /\ recs' = rs /\ jobs' = Jobs(rs, chunked) /\ UNCHANGED threads
  /\ done' = IF threads = 0 THEN [i \in 1..Len(rs) |-> i] ELSE <<>>
  /\ prev' = prev \cup Results(recs) /\ out' = {}
\* a worker takes the next job when it has done its last one
Left(j) == {i \in Rng(jobs[j]) : i \notin Rng(done)}
Running == {j \in DOMAIN jobs : Left(j) # {} /\ Cardinality({k \in 1..(j - 1) : Left(k) # {}}) < threads}
Started == {CHOOSE i \in Left(j) : \A k \in Left(j) : i <= k : j \in Running}
Finish(i) == done' = Append(done, i) /\ out' = {} /\ UNCHANGED <<threads, recs, jobs, prev>>

\* --- what the pool gives
JobOf(i) == CHOOSE j \in DOMAIN jobs : i \in Rng(jobs[j])
Given ==
  CASE Bug = "byorder" -> {<<recs[i].key, Result(recs[done[i]])>> : i \in DOMAIN done}
    [] Bug = "chunkfails" -> {<<recs[i].key, Result(recs[i])>> : i \in
                               {i \in DOMAIN recs : Rng(jobs[JobOf(i)]) \cap Failed(recs) = {}}}
    [] Bug = "keepold" -> prev \cup Results(recs)
    [] OTHER -> Results(recs)
Get == AllDone /\ out' = Given /\ UNCHANGED <<threads, recs, jobs, done, prev>>
\* nothing is left of a pool that was closed and terminated
Stop == recs' = <<>> /\ jobs' = <<>> /\ done' = <<>> /\ out' = {} /\ UNCHANGED <<threads, prev>>
Ready == {recs[i].key : i \in Rng(done)}

\* --- properties
OwnResult == [][out' = {} \/ out' = Results(recs)]_vars
OnceEach == Cardinality(Rng(done)) = Len(done) /\ Rng(done) \subseteq DOMAIN recs
\* the jobs are the records, in order, each once
Divided == LET C[j \in 0..Len(jobs)] == IF j = 0 THEN <<>> ELSE C[j - 1] \o jobs[j]
           IN recs = <<>> \/ C[Len(jobs)] = [i \in 1..Len(recs) |-> i]
\* some record can be done as long as not all are
Moves == AllDone \/ Started # {}
=============================================================================
