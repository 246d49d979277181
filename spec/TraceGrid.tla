----------------------------- MODULE TraceGrid ------------------------------
(* as TraceNotepad, for pads of arrays; events also have a field s (slot)    *)
EXTENDS Grid, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l

Range(s) == {s[i] : i \in DOMAIN s}

TInit ==
  /\ hist \in 1..Len(Data)
  /\ l = 1
  /\ live = [p \in Range(Data[hist].pads) |-> FALSE]
  /\ store = [p \in Range(Data[hist].pads) |-> Empty]
  /\ listed = [p \in Range(Data[hist].pads) |-> {}]
  /\ at = [h \in Range(Data[hist].handles) |-> "none"]
  /\ held = [s \in Range(Data[hist].slots) |-> "nothing"]
  /\ link = [s \in Range(Data[hist].slots) |-> Copy]
  /\ last = Saw("init")

Act(e) ==
  CASE e.op = "open"  -> Pad(Open(e.h, e.p, e.x))
    [] e.op = "close" -> Pad(Close(e.h))
    [] e.op = "clear" -> Pad(Clear(e.h))
    [] e.op = "set"   -> Over(e.h, e.k, Set(e.h, e.k, e.v, e.x, e.res, e.bad))
    [] e.op = "del"   -> Pad(Del(e.h, e.k, e.res))
    [] e.op = "item"  -> Pad(Item(e.h, e.k))
    [] e.op = "get"   -> Pad(Get(e.h, e.k))
    [] e.op = "keys"  -> Pad(KeyList(e.h))
    [] e.op = "items" -> Pad(ValList(e.h))
    [] e.op = "hold"  -> Hold(e.h, e.k, e.s, e.x)
    [] e.op = "inspect" -> Inspect(e.s)
    [] e.op = "poke" -> Poke(e.s, e.v)

Clause(e) ==
  IF last'.out = "EXC:*"
  THEN IF e.exc THEN "" ELSE "the call should have raised"
  ELSE IF last'.out = "?"
  THEN IF e.exc \/ e.out \in {"DIED", "HANG"} THEN "outcome" ELSE ""
  ELSE IF e.out # last'.out THEN "outcome"
  ELSE IF Len(e.lst) # Cardinality(last'.lst) THEN "number of entries listed"
  ELSE IF Range(e.lst) # last'.lst THEN "entries listed"
  ELSE ""

TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     /\ Act(e)
     /\ IF Clause(e) = ""
        THEN /\ l' = l + 1
             /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
        ELSE /\ l' = Len(H.ev) + 2
             /\ PrintT(<<"BAD", hist, l, Clause(e) \o " of " \o e.op,
                         last'.out, last'.lst>>)

TraceInv == ViewsShow /\ IndexIsExact /\ DeadIsEmpty
TSpec == TInit /\ [][TNext]_<<gvars, hist, l>>
=============================================================================
