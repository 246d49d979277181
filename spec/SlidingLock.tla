---------------------------- MODULE SlidingLock -----------------------------
(***************************************************************************)
(* The shared lock, one shared memory operation per step.                  *)
(*                                                                         *)
(* A process takes the first free slot above the last served number,       *)
(* places that slot's lock, waits while a lower slot's lock is in place,   *)
(* then tries to create the `held' block; whoever creates it has the lock. *)
(* A waiter may give up at any wait.  Releasing raises the floor and       *)
(* removes held, lock and slot, in this order.                             *)
(*                                                                         *)
(* Bug selects a weakened lock:                                            *)
(*   "none"                                                                *)
(*   "noheld"   slot order alone decides who enters                        *)
(*   "keeplock" giving up leaves the slot's lock in place                  *)
(*   "keepheld" releasing leaves the held block in place                   *)
(*   "sharedslot" slots are not taken exclusively                          *)
(*   "stealheld" giving up removes the held block, whoever owns it         *)
(*   "heldgap"  nobody is thought to hold it if the slot below is gone     *)
(*   "heldlate" nobody is thought to hold it if the floor has risen since  *)
(*   "heldlow"  a lower slot than the holder's goes first                  *)
(*   "heldover" nobody is thought to hold it if a higher slot is taken     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Procs, Rounds, GiveUps, Bug

VARIABLES pc, floor, number, look,   \* per process
          left,                      \* per process: acquisitions to go
          quits,                     \* how many times someone may still give up
          count, slots, locks, held, \* shared memory
          inside                     \* who is in the critical section
shm == <<count, slots, locks, held>>
vars == <<pc, floor, number, look, left, quits, count, slots, locks, held, inside>>

Init ==
  /\ pc = [p \in Procs |-> "idle"]
  /\ floor = [p \in Procs |-> 0]
  /\ number = [p \in Procs |-> 0]
  /\ look = [p \in Procs |-> 0]
  /\ left = [p \in Procs |-> Rounds]
  /\ quits = GiveUps
  /\ count = 0 /\ slots = {} /\ locks = {} /\ held = {}
  /\ inside = {}

Goto(p, l) == pc' = [pc EXCEPT ![p] = l]

\* read the number last served
Renumber(p) ==
  /\ pc[p] = "idle" /\ left[p] > 0
  /\ left' = [left EXCEPT ![p] = @ - 1]
  /\ floor' = [floor EXCEPT ![p] = count]
  /\ number' = [number EXCEPT ![p] = count + 1]
  /\ Goto(p, "slot")
  /\ UNCHANGED <<look, quits, shm, inside>>

TakeSlot(p) ==
  /\ pc[p] = "slot"
  /\ IF number[p] \in slots /\ Bug # "sharedslot"
     THEN /\ number' = [number EXCEPT ![p] = @ + 1]
          /\ UNCHANGED <<slots, pc>>
     ELSE /\ slots' = slots \cup {number[p]}
          /\ Goto(p, "place") /\ UNCHANGED number
  /\ UNCHANGED <<floor, look, left, quits, count, locks, held, inside>>

PlaceLock(p) ==
  /\ pc[p] = "place"
  /\ locks' = locks \cup {number[p]}
  /\ look' = [look EXCEPT ![p] = number[p]]
  /\ Goto(p, "look")
  /\ UNCHANGED <<floor, number, left, quits, count, slots, held, inside>>

\* look at the next lower slot, down to the floor
Look(p) ==
  /\ pc[p] = "look"
  /\ UNCHANGED <<floor, number, left, quits, shm>>
  /\ IF look[p] = floor[p]
     THEN IF Bug = "noheld"
          THEN inside' = inside \cup {p} /\ Goto(p, "in") /\ UNCHANGED look
          ELSE Goto(p, "grab") /\ UNCHANGED <<look, inside>>
     ELSE /\ UNCHANGED inside
          /\ look' = [look EXCEPT ![p] = @ - 1]
          /\ IF (look[p] - 1) \in locks /\ look[p] - 1 # number[p]
             THEN Goto(p, "wait")
             ELSE UNCHANGED pc

\* a weakened lock's reasons to enter although somebody holds it
Excuse(p) ==
  CASE Bug = "heldgap"    -> number[p] > floor[p] + 1 /\ (number[p] - 1) \notin slots
    [] Bug = "heldlate"   -> count > floor[p]
    [] Bug = "heldlow"    -> \A q \in held : number[p] < number[q]
    [] Bug = "heldover"   -> \E n \in slots : n > number[p]
    [] OTHER -> FALSE
Grab(p) ==
  /\ pc[p] = "grab"
  /\ UNCHANGED <<floor, number, look, left, quits, count, slots, locks>>
  /\ IF held # {} /\ ~Excuse(p)
     THEN Goto(p, "wait") /\ UNCHANGED <<held, inside>>
     ELSE held' = {p} /\ inside' = inside \cup {p} /\ Goto(p, "in")

Wait(p) ==
  /\ pc[p] = "wait"
  /\ look' = [look EXCEPT ![p] = number[p]]
  /\ Goto(p, "look")
  /\ UNCHANGED <<floor, number, left, quits, shm, inside>>

\* a timeout or an interrupt
GiveUp(p) ==
  /\ pc[p] = "wait" /\ quits > 0
  /\ quits' = quits - 1
  /\ Goto(p, IF Bug = "keeplock" THEN "unslot"
             ELSE IF Bug = "stealheld" THEN "unheld" ELSE "unlock")
  /\ UNCHANGED <<floor, number, look, left, shm, inside>>

Leave(p) ==
  /\ pc[p] = "in"
  /\ inside' = inside \ {p}
  /\ Goto(p, "raise")
  /\ UNCHANGED <<floor, number, look, left, quits, shm>>
RaiseFloor(p) ==
  /\ pc[p] = "raise"
  /\ count' = number[p]
  /\ Goto(p, IF Bug \in {"keepheld", "noheld"} THEN "unlock" ELSE "unheld")
  /\ UNCHANGED <<floor, number, look, left, quits, slots, locks, held, inside>>
UnHeld(p) ==
  /\ pc[p] = "unheld"
  /\ held' = {}
  /\ Goto(p, "unlock")
  /\ UNCHANGED <<floor, number, look, left, quits, count, slots, locks, inside>>
UnLock(p) ==
  /\ pc[p] = "unlock"
  /\ locks' = locks \ {number[p]}
  /\ Goto(p, "unslot")
  /\ UNCHANGED <<floor, number, look, left, quits, count, slots, held, inside>>
UnSlot(p) ==
  /\ pc[p] = "unslot"
  /\ slots' = slots \ {number[p]}
  /\ Goto(p, "idle")
  /\ UNCHANGED <<floor, number, look, left, quits, count, locks, held, inside>>

Step(p) == Renumber(p) \/ TakeSlot(p) \/ PlaceLock(p) \/ Look(p) \/ Grab(p)
           \/ Wait(p) \/ Leave(p) \/ RaiseFloor(p) \/ UnHeld(p) \/ UnLock(p) \/ UnSlot(p)
Next == \E p \in Procs : Step(p) \/ GiveUp(p)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A p \in Procs : WF_vars(Step(p))

\* --- properties
Mutex == Cardinality(inside) <= 1
Trying(p) == pc[p] \notin {"idle", "in"}
\* when everybody is done, nothing but the counter is left
Clean == (\A p \in Procs : pc[p] = "idle") => slots = {} /\ locks = {} /\ held = {}
\* nobody waits for ever (a fair schedule ends, whoever gave up)
Progress == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] = "idle")
Finished == \A p \in Procs : pc[p] = "idle" /\ left[p] = 0
AllServed == <>Finished
\* slots are never shared
OwnSlot == \A p, q \in Procs : p # q /\ pc[p] \notin {"idle", "slot"} /\ pc[q] \notin {"idle", "slot"}
              => number[p] # number[q]

\* the abstract lock that this implements
Abs == INSTANCE Lock WITH owner <- inside
ImplementsLock == Abs!Spec
=============================================================================
