---------------------------- MODULE TraceBlocks -----------------------------
(* recorded raw block calls.  event: [op,h,a,n,sz,x,y,b,out,lst,exc]         *)
EXTENDS Blocks, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
Range(s) == {s[i] : i \in DOMAIN s}
TInit ==
  /\ hist \in 1..Len(Data)
  /\ l = 1
  /\ name = [a \in Range(Data[hist].addresses) |-> 0]
  /\ held = [h \in Range(Data[hist].handles) |-> 0]
  /\ mem = [c \in {} |-> <<>>]
  /\ last = Saw("init", <<>>)
Act(e) ==
  CASE e.op = "open" -> Open(e.h, e.a, e.n, e.sz, e.x, e.y)
    [] e.op = "write" -> Write(e.h, e.n, e.b)
    [] e.op = "look" -> Look(e.h)
    [] e.op = "fetch" -> Fetch(e.a)
    [] e.op = "exists" -> Exists(e.a)
    [] e.op = "delete" -> Delete(e.a, e.x)
    [] e.op = "memorize" -> Memorize(e.a, e.b, e.x, e.y)
Clause(e) ==
  IF last'.out = "EXC:*" THEN (IF e.exc THEN "" ELSE "the call should have raised")
  ELSE IF e.out # last'.out THEN "outcome"
  ELSE IF e.op = "open" /\ e.out = "ok" /\ Len(e.lst) < e.n /\ last'.lst # e.lst THEN "size"
  ELSE IF e.lst # last'.lst THEN "contents" ELSE ""
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     /\ Act(e)
     /\ IF Clause(e) = ""
        THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
        ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, Clause(e) \o " of " \o e.op, last'.out>>)
TraceInv == Distinct /\ NoGarbage
TSpec == TInit /\ [][TNext]_<<vars, hist, l>>
=============================================================================
