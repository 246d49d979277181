-------------------------------- MODULE Lock --------------------------------
(* what a lock is: at most one owner *)
EXTENDS FiniteSets
CONSTANT Procs
VARIABLE owner
Init == owner = {}
Enter(p) == owner = {} /\ owner' = {p}
Exit(p) == owner = {p} /\ owner' = {}
Next == \E p \in Procs : Enter(p) \/ Exit(p)
Spec == Init /\ [][Next]_owner
=============================================================================
