------------------------------ MODULE TraceLock ------------------------------
(***************************************************************************)
(* Is a recorded history of processes using shared locks one that Lock.tla *)
(* allows, lock by lock, and is every outcome one that was due?            *)
(*                                                                         *)
(* event: [op, w, l, exc, n]                                               *)
(*   try    w starts acquiring l (n = 1: with a limit on waiting)          *)
(*   throw  exception exc is injected into w while it waits                *)
(*   enter  w holds l                                                      *)
(*   raise  w's block raises exc (while holding)                           *)
(*   leave  w is about to release l                                        *)
(*   out    w's with statement is over; exc is what came out of it ("" ok) *)
(*   over   everybody is done; n is the number of blocks left beyond those *)
(*          of idle locks                                                  *)
(*   hang   the processes did not finish under a fair schedule             *)
(* Judge = "exclusion" looks at enter/leave, and at locks of other names   *)
(* that keep one out; "progress" at the rest.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Judge
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l,
          owner,   \* lock -> set of holders
          busy,    \* worker -> lock it is dealing with (try .. out), or "none"
          got,     \* worker -> it has entered since it tried
          alone,   \* worker -> nobody else wanted its lock since it tried
          due      \* worker -> exception that must come out, or ""
Range(s) == {s[i] : i \in DOMAIN s}
Locks == Range(Data[hist].locks)
Workers == 0..(Data[hist].n - 1)

TInit ==
  /\ hist \in 1..Len(Data)
  /\ l = 1
  /\ owner = [k \in Locks |-> {}]
  /\ busy = [w \in Workers |-> "none"]
  /\ got = [w \in Workers |-> FALSE]
  /\ alone = [w \in Workers |-> TRUE]
  /\ due = [w \in Workers |-> ""]

Others(w) == Workers \ {w}

ElseHeld(k) == \E j \in Locks : j # k /\ owner[j] # {}

Bad(e) ==
  CASE e.op = "enter" /\ Judge = "exclusion" ->
         IF owner[e.l] # {} THEN "entered while another holds it" ELSE ""
    \* locks of different names never exclude each other
    [] e.op = "out" /\ Judge = "exclusion" ->
         IF ~got[e.w] /\ due[e.w] = "" /\ e.exc = "TimeoutError" /\ alone[e.w] /\ ElseHeld(e.l)
         THEN "gave up on a free lock while another is held" ELSE ""
    [] e.op = "hang" /\ Judge = "exclusion" ->
         IF \E w \in Workers :
              /\ busy[w] # "none" /\ ~got[w] /\ alone[w]
              /\ owner[busy[w]] = {} /\ ElseHeld(busy[w])
         THEN "kept out of a free lock while another is held" ELSE ""
    [] e.op = "out" /\ Judge = "progress" ->
         IF e.w \in owner[e.l] THEN "left without having left"
         ELSE IF due[e.w] # "" /\ e.exc # due[e.w]
              THEN "expected " \o due[e.w] \o ", got " \o e.exc
         ELSE IF due[e.w] = "" /\ e.exc # "" /\ got[e.w]
              THEN "an exception from releasing: " \o e.exc
         ELSE IF due[e.w] = "" /\ e.exc # "" /\ alone[e.w]
              THEN "could not take a free lock: " \o e.exc
         ELSE IF due[e.w] = "" /\ e.exc \notin {"", "TimeoutError"}
              THEN "unexpected " \o e.exc
         ELSE IF e.exc = "TimeoutError" /\ due[e.w] = "" /\ e.n = 0
              THEN "timed out without a limit"
         ELSE ""
    [] e.op = "over" /\ Judge = "progress" ->
         IF e.n > 0 THEN "blocks left behind" ELSE ""
    [] e.op = "hang" /\ Judge = "progress" -> "did not finish: " \o e.exc
    [] OTHER -> ""

Step(e) ==
  CASE e.op = "try" ->
        /\ busy' = [busy EXCEPT ![e.w] = e.l]
        /\ got' = [got EXCEPT ![e.w] = FALSE]
        /\ alone' = [w \in Workers |->
             IF w = e.w THEN \A v \in Others(w) : busy[v] # e.l
             ELSE alone[w] /\ busy[w] # e.l]
        /\ due' = [due EXCEPT ![e.w] = ""]
        /\ UNCHANGED owner
    [] e.op \in {"throw", "raise"} ->
        /\ due' = [due EXCEPT ![e.w] = e.exc]
        /\ UNCHANGED <<owner, busy, got, alone>>
    [] e.op = "enter" ->
        /\ owner' = [owner EXCEPT ![e.l] = @ \cup {e.w}]
        /\ got' = [got EXCEPT ![e.w] = TRUE]
        /\ UNCHANGED <<busy, alone, due>>
    [] e.op = "leave" ->
        /\ owner' = [owner EXCEPT ![e.l] = @ \ {e.w}]
        /\ UNCHANGED <<busy, got, alone, due>>
    [] e.op = "out" ->
        /\ busy' = [busy EXCEPT ![e.w] = "none"]
        /\ owner' = [owner EXCEPT ![e.l] = @ \ {e.w}]
        /\ UNCHANGED <<got, alone, due>>
    [] OTHER -> UNCHANGED <<owner, busy, got, alone, due>>

TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     /\ Step(e)
     /\ IF Bad(e) = ""
        THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
        ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, Bad(e), owner>>)

Exclusion == Judge = "exclusion" =>
               (l <= Len(Data[hist].ev) => \A k \in Locks : Cardinality(owner[k]) <= 1)
TSpec == TInit /\ [][TNext]_<<hist, l, owner, busy, got, alone, due>>
=============================================================================
