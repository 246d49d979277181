------------------------------- MODULE Interp -------------------------------
(* Separate interpreters, their resource trackers, and what is left in       *)
(* shared memory when they end.                                              *)
(*   mode[i]     "none" (not running) | "tracked" | "off" (deactivated)      *)
(*   touched[i]  names i made or opened while its tracker was active         *)
(*   sems        semaphores, which are always tracked                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Procs, Names
VARIABLES mode, touched, exists, sems, last
vars == <<mode, touched, exists, sems, last>>
view == <<mode, touched, exists, sems>>

PInit == /\ mode = [i \in Procs |-> "none"]
         /\ touched = [i \in Procs |-> {}]
         /\ exists = {}
         /\ sems = {}
         /\ last = "init"

Start(i) == /\ mode[i] = "none"
            /\ mode' = [mode EXCEPT ![i] = "tracked"]
            /\ last' = "ok"
            /\ UNCHANGED <<touched, exists, sems>>
\* any number of times
Deactivate(i) == /\ mode[i] # "none"
                 /\ mode' = [mode EXCEPT ![i] = "off"]
                 /\ last' = "ok"
                 /\ UNCHANGED <<touched, exists, sems>>
Touch(i, a) == IF mode[i] = "tracked" THEN [touched EXCEPT ![i] = @ \cup {a}] ELSE touched
Create(i, a) ==
  /\ mode[i] # "none"
  /\ IF a \in exists  \* looking whether it is there opens it
     THEN last' = "EXC:FileExistsError" /\ touched' = Touch(i, a) /\ UNCHANGED exists
     ELSE exists' = exists \cup {a} /\ touched' = Touch(i, a) /\ last' = "ok"
  /\ UNCHANGED <<mode, sems>>
Attach(i, a) ==
  /\ mode[i] # "none"
  /\ IF a \notin exists THEN last' = "EXC:FileNotFoundError" /\ UNCHANGED touched
     ELSE touched' = Touch(i, a) /\ last' = "ok"
  /\ UNCHANGED <<mode, sems, exists>>
Delete(i, a) ==
  /\ mode[i] # "none"
  /\ IF a \notin exists THEN last' = "EXC:FileNotFoundError" /\ UNCHANGED <<exists, touched>>
     ELSE /\ exists' = exists \ {a}
          \* a tracked delete is also unregistered
          /\ touched' = IF mode[i] = "tracked" THEN [touched EXCEPT ![i] = @ \ {a}] ELSE touched
          /\ last' = "ok"
  /\ UNCHANGED <<mode, sems>>
Sem(i) == /\ mode[i] # "none"
          /\ sems' = sems \cup {i}
          /\ last' = "ok"
          /\ UNCHANGED <<mode, touched, exists>>
\* the interpreter ends, in whatever way, and so does its tracker: semaphores
\* go, what was touched under tracking may go, all else stays
End(i, left) ==
  /\ mode[i] # "none"
  /\ left \subseteq exists /\ exists \ touched[i] \subseteq left
  /\ exists' = left
  /\ sems' = sems \ {i}
  /\ mode' = [mode EXCEPT ![i] = "none"]
  /\ touched' = [touched EXCEPT ![i] = {}]
  /\ last' = "ok"

\* --- properties
\* blocks that no tracked interpreter ever touched vanish only when deleted
Survive == [][\A a \in exists \ exists' :
                 (\A i \in Procs : a \notin touched[i])
                   => mode' = mode /\ sems' = sems]_vars
SemsOwned == \A i \in sems : mode[i] # "none"
OffIsClean == [][\A i \in Procs : mode[i] = "off" /\ mode'[i] = "none" /\ touched[i] = {}
                    => exists' = exists]_vars
=============================================================================
