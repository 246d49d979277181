------------------------------ MODULE SimLock -------------------------------
(* behaviours of the lock model with the schedule that led to them: complete *)
(* ones, and ones where a weakened lock lets two in.  gave: at which of its  *)
(* owner's waits somebody gave up                                            *)
EXTENDS SlidingLock
CONSTANTS p1, p2, p3
VARIABLES sched, waits, gave
SimInit == Init /\ sched = <<>> /\ waits = 0 /\ gave = <<>>
SimNext ==
  \E p \in Procs :
    /\ Mutex
    \* (looking no further is no operation on shared memory)
    /\ sched' = IF pc[p] = "look" /\ look[p] = floor[p] THEN sched
                ELSE Append(sched, ToString(p))
    /\ \/ Step(p) /\ waits' = waits + (IF pc[p] = "wait" THEN 1 ELSE 0) /\ UNCHANGED gave
       \/ GiveUp(p) /\ waits' = waits + 1 /\ gave' = Append(gave, waits + 1)
SchedSpec == SimInit /\ [][SimNext]_<<vars, sched, waits, gave>>
\* one way to each state is enough when all of them are looked for
OneWay == vars
Report == (Finished \/ ~Mutex) => PrintT(<<"SCHED", sched, gave, Mutex>>)
=============================================================================
