----------------------------- MODULE TraceConc ------------------------------
(* is there an order of the calls of a recorded concurrent history, in      *)
(* keeping with their real-time order, that explains all their outcomes and *)
(* what is found afterwards?                                                *)
(* event: [op: inv|ret|keys|value|absent|positions, w, c, out, lst]         *)
EXTENDS ConcMap, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
Range(s) == {s[i] : i \in DOMAIN s}
TInit ==
  /\ hist \in 1..Len(Data)
  /\ l = 1
  /\ store = [k \in {p[1] : p \in Range(Data[hist].start)} |->
               (CHOOSE p \in Range(Data[hist].start) : p[1] = k)[2]]
  /\ call = [w \in 0..Data[hist].n |-> NoCall]
  /\ ret = [w \in 0..Data[hist].n |-> ""]

See(e) ==
  CASE e.op = "keys" -> /\ Len(e.lst) = Cardinality(DOMAIN store)
                        /\ Range(e.lst) = DOMAIN store
    [] e.op = "value" -> e.c.k \in DOMAIN store /\ store[e.c.k] = e.out
    [] e.op = "absent" -> e.c.k \notin DOMAIN store
    \* the keys have the positions 0..n-1 (given as strings)
    [] e.op = "positions" -> /\ Len(e.lst) = Cardinality(DOMAIN store)
                             /\ Range(e.lst) = {ToString(i) : i \in 0..(Cardinality(DOMAIN store) - 1)}
    [] OTHER -> FALSE

TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     \/ /\ l' = l + 1
        /\ CASE e.op = "inv" -> Invoke(e.w, e.c)
             [] e.op = "ret" -> Return(e.w, e.out)
             [] OTHER -> See(e) /\ UNCHANGED vars
        /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
     \* effects need not happen before somebody returns
     \/ e.op = "ret" /\ l' = l /\ \E w \in DOMAIN call : TakeEffect(w)
TSpec == TInit /\ [][TNext]_<<vars, hist, l>>
=============================================================================
