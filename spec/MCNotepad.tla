----------------------------- MODULE MCNotepad -----------------------------
(* exhaustive configuration; prints its whole labelled state graph. *)
EXTENDS Notepad, Json

IsReserved(k) == k = "index"
St == [live |-> live, store |-> store, listed |-> listed, at |-> at]

Ev(op, h, p, k, v, x) ==
  [op |-> op, h |-> h, p |-> p, k |-> k, v |-> v, x |-> x, out |-> last'.out,
   lst |-> last'.lst]

Edge(e) == PrintT(<<"EDGE", ToJson([f |-> St, t |-> St', e |-> e])>>)

MCInit == Init /\ PrintT(<<"INIT", ToJson(St)>>)

MCNext ==
  \E h \in Handles :
    \/ \E p \in Pads, c \in BOOLEAN :
         Open(h, p, c) /\ Edge(Ev("open", h, p, "", "", c))
    \/ Close(h) /\ Edge(Ev("close", h, "", "", "", FALSE))
    \/ Clear(h) /\ Edge(Ev("clear", h, "", "", "", FALSE))
    \/ KeyList(h) /\ Edge(Ev("keys", h, "", "", "", FALSE))
    \/ ValList(h) /\ Edge(Ev("items", h, "", "", "", FALSE))
    \/ \E k \in Keys :
         \/ \E v \in Vals, x \in BOOLEAN :
              /\ Set(h, k, v, x, IsReserved(k), v = "bad")
              /\ Edge(Ev("set", h, "", k, v, x))
         \/ Del(h, k, IsReserved(k)) /\ Edge(Ev("del", h, "", k, "", FALSE))
         \/ (~IsReserved(k) /\ Item(h, k) /\ Edge(Ev("item", h, "", k, "", FALSE)))
         \/ (~IsReserved(k) /\ Get(h, k) /\ Edge(Ev("get", h, "", k, "", FALSE)))

MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
