----------------------------- MODULE TraceClean -----------------------------
(* recorded histories of notepads, array pads and indexes (as pads whose     *)
(* values are all "in"), with what is left in shared memory observed:        *)
(* event residue lists the pads that own any block at all; every other event *)
(* carries the number of blocks its pad gained or lost (blk).                *)
EXTENDS Notepad, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l

Range(s) == {s[i] : i \in DOMAIN s}

TInit ==
  /\ hist \in 1..Len(Data)
  /\ l = 1
  /\ live = [p \in Range(Data[hist].pads) |-> FALSE]
  /\ store = [p \in Range(Data[hist].pads) |-> Empty]
  /\ listed = [p \in Range(Data[hist].pads) |-> {}]
  /\ at = [h \in Range(Data[hist].handles) |-> "none"]
  /\ last = Saw("init")

Residue ==
  /\ last' = Lst({<<p>> : p \in {q \in DOMAIN live : live[q]}})
  /\ UNCHANGED view

\* a process ends: pads its handles were told to clean up on exit go away
Exit(ps) ==
  /\ live' = [p \in DOMAIN live |-> live[p] /\ p \notin ps]
  /\ store' = [p \in DOMAIN store |-> IF p \in ps THEN Empty ELSE store[p]]
  /\ listed' = [p \in DOMAIN listed |-> IF p \in ps THEN {} ELSE listed[p]]
  /\ at' = [h \in DOMAIN at |-> IF at[h] \in ps THEN "none" ELSE at[h]]
  /\ last' = Saw("ok")

Act(e) ==
  CASE e.op = "open"  -> Open(e.h, e.p, e.x)
    [] e.op = "close" -> Close(e.h)
    [] e.op = "clear" -> Clear(e.h)
    [] e.op = "set"   -> Set(e.h, e.k, e.v, e.x, e.res, e.bad)
    [] e.op = "del"   -> Del(e.h, e.k, e.res)
    [] e.op = "item"  -> Item(e.h, e.k)
    [] e.op = "get"   -> Get(e.h, e.k)
    [] e.op = "keys"  -> KeyList(e.h)
    [] e.op = "items" -> ValList(e.h)
    [] e.op = "residue" -> Residue
    [] e.op = "exit"  -> Exit(Range(e.pads))

Failed == last'.out \in {"EXC:KeyError", "EXC:*", "EXC:FileExistsError",
                         "EXC:FileNotFoundError", "DEFAULT"}

Clause(e) ==
  IF last'.out = "EXC:*" /\ ~e.exc THEN "the call should have raised"
  ELSE IF last'.out = "EXC:KeyError" /\ e.op = "set" /\ e.exc /\ e.blk = 0 THEN ""
  ELSE IF last'.out # "EXC:*" /\ e.out # last'.out THEN "outcome"
  ELSE IF last'.out # "EXC:*" /\ Len(e.lst) # Cardinality(last'.lst)
       THEN "number of entries listed"
  ELSE IF last'.out # "EXC:*" /\ Range(e.lst) # last'.lst THEN "entries listed"
  ELSE IF Failed /\ e.blk # 0 THEN "blocks left or lost by a failed call"
  ELSE IF e.op \in {"item", "get", "keys", "items"} /\ e.blk # 0
       THEN "blocks left or lost by a read"
  ELSE ""

TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     /\ Act(e)
     /\ IF Clause(e) = ""
        THEN /\ l' = l + 1
             /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
        ELSE /\ l' = Len(H.ev) + 2
             /\ PrintT(<<"BAD", hist, l, Clause(e) \o " of " \o e.op,
                         last'.out, last'.lst>>)

TraceInv == IndexIsExact /\ DeadIsEmpty
TSpec == TInit /\ [][TNext]_<<vars, hist, l>>
=============================================================================
