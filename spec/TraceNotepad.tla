---------------------------- MODULE TraceNotepad ----------------------------
(* is a recorded history of real Notepad calls a behaviour of Notepad?      *)
(* history: [pads, handles, keys: seqs of strings; ev: seq of events]       *)
(* event: [op, h, p, k, v, x, res, bad, out, lst]                           *)
EXTENDS Notepad, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l

Range(s) == {s[i] : i \in DOMAIN s}

TInit ==
  /\ hist \in 1..Len(Data)
  /\ l = 1
  /\ live = [p \in Range(Data[hist].pads) |-> FALSE]
  /\ store = [p \in Range(Data[hist].pads) |-> Empty]
  /\ listed = [p \in Range(Data[hist].pads) |-> {}]
  /\ at = [h \in Range(Data[hist].handles) |-> "none"]
  /\ last = Saw("init")

Act(e) ==
  CASE e.op = "open"  -> Open(e.h, e.p, e.x)
    [] e.op = "close" -> Close(e.h)
    [] e.op = "clear" -> Clear(e.h)
    [] e.op = "set"   -> Set(e.h, e.k, e.v, e.x, e.res, e.bad)
    [] e.op = "del"   -> Del(e.h, e.k, e.res)
    [] e.op = "item"  -> Item(e.h, e.k)
    [] e.op = "get"   -> Get(e.h, e.k)
    [] e.op = "keys"  -> KeyList(e.h)
    [] e.op = "items" -> ValList(e.h)

IsExc(o) == o \in {"EXC:KeyError", "EXC:FileExistsError",
                   "EXC:FileNotFoundError", "EXC:*"}

\* the clause of the specification that the event contradicts, or ""
Clause(e) ==
  IF last'.out = "EXC:*"
  THEN IF e.exc THEN "" ELSE "the call should have raised"
  ELSE IF e.out # last'.out THEN "outcome"
  ELSE IF Len(e.lst) # Cardinality(last'.lst) THEN "number of entries listed"
  ELSE IF Range(e.lst) # last'.lst THEN "entries listed"
  ELSE ""

TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     /\ Act(e)
     /\ IF Clause(e) = ""
        THEN /\ l' = l + 1
             /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
        ELSE /\ l' = Len(H.ev) + 2
             /\ PrintT(<<"BAD", hist, l, Clause(e) \o " of " \o e.op,
                         last'.out, last'.lst>>)

TraceInv == IndexIsExact /\ DeadIsEmpty
TSpec == TInit /\ [][TNext]_<<vars, hist, l>>
=============================================================================
