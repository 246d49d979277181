-------------------------------- MODULE Grid --------------------------------
(* A pad of arrays: a Notepad whose reads hand out copies that callers keep, *)
(* or views of the entries themselves.                                       *)
EXTENDS Notepad

CONSTANT Slots

VARIABLES held,   \* slot -> the array a caller read and kept, or "nothing"; "?": a
                  \* view of an entry that was overwritten shows the old or the new
          link    \* slot -> <<pad, key>> that it is a view of, or Copy, or Gone: a
                  \* view of an entry that was deleted, which outlives it

gvars == <<vars, held, link>>
gview == <<view, held, link>>
Copy == <<"", "copy">>
Gone == <<"", "gone">>

GInit == Init /\ held = [s \in Slots |-> "nothing"] /\ link = [s \in Slots |-> Copy]

\* everything a Notepad does: what callers have kept does not change
Pad(A) ==
  /\ A
  /\ link' = [s \in DOMAIN link |->
                IF link[s] \in {Copy, Gone} THEN link[s]
                ELSE IF link[s][2] \in DOMAIN store'[link[s][1]] THEN link[s] ELSE Gone]
  /\ UNCHANGED held
\* .. unless it is a view of an entry that is overwritten
Over(h, k, A) ==
  /\ A
  /\ held' = [s \in DOMAIN held |-> IF last'.out = "ok" /\ link[s] = <<at[h], k>> THEN "?" ELSE held[s]]
  /\ UNCHANGED link

Hold(h, k, s, isview) ==
  /\ Item(h, k)
  /\ IF k \in DOMAIN store[at[h]]
     THEN held' = [held EXCEPT ![s] = store[at[h]][k]] /\ link' = [link EXCEPT ![s] = IF isview THEN <<at[h], k>> ELSE Copy]
     ELSE UNCHANGED <<held, link>>

Inspect(s) ==
  /\ last' = Saw(held[s])
  /\ UNCHANGED <<view, held, link>>

\* a caller writes v into an array it has kept. into a view: into the entry
Writable(s) == held[s] \notin {"nothing", "?"} /\ link[s] # Gone
Poke(s, v) ==
  /\ Writable(s)
  /\ last' = Saw(v)
  /\ UNCHANGED <<live, listed, at, link>>
  /\ LET all == IF link[s] = Copy THEN {s} ELSE {t \in DOMAIN link : link[t] = link[s] /\ held[t] # "?"} IN
     held' = [t \in DOMAIN held |-> IF t \in all THEN v ELSE held[t]]
  /\ store' = IF link[s] = Copy THEN store
              ELSE [store EXCEPT ![link[s][1]] = Put(@, link[s][2], v)]

\* what is done to a copy changes no entry, and what is done to entries no copy
CopiesStay ==
  [][\A s \in DOMAIN held : link[s] \in {Copy, Gone} /\ held'[s] # held[s] => UNCHANGED view]_gvars
\* a view shows its entry
ViewsShow ==
  \A s \in DOMAIN held : link[s] \notin {Copy, Gone} /\ held[s] # "?" =>
    link[s][2] \in DOMAIN store[link[s][1]] /\ store[link[s][1]][link[s][2]] = held[s]
=============================================================================
