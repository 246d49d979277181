------------------------------- MODULE MCGrid -------------------------------
EXTENDS Grid, Json

IsReserved(k) == k = "index"
St == [live |-> live, store |-> store, listed |-> listed, at |-> at, held |-> held, link |-> link]
Ev(op, h, p, k, v, x, s) ==
  [op |-> op, h |-> h, p |-> p, k |-> k, v |-> v, x |-> x, s |-> s,
   out |-> last'.out, lst |-> last'.lst]
Edge(e) == PrintT(<<"EDGE", ToJson([f |-> St, t |-> St', e |-> e])>>)

MCInit == GInit /\ PrintT(<<"INIT", ToJson(St)>>)
MCNext ==
  \/ \E h \in Handles :
    \/ \E p \in Pads, c \in BOOLEAN :
         Pad(Open(h, p, c)) /\ Edge(Ev("open", h, p, "", "", c, ""))
    \/ Pad(Close(h)) /\ Edge(Ev("close", h, "", "", "", FALSE, ""))
    \/ Pad(Clear(h)) /\ Edge(Ev("clear", h, "", "", "", FALSE, ""))
    \/ Pad(KeyList(h)) /\ Edge(Ev("keys", h, "", "", "", FALSE, ""))
    \/ Pad(ValList(h)) /\ Edge(Ev("items", h, "", "", "", FALSE, ""))
    \/ \E k \in Keys :
         \/ \E v \in Vals, x \in BOOLEAN :
              /\ Over(h, k, Set(h, k, v, x, IsReserved(k), v = "bad"))
              /\ Edge(Ev("set", h, "", k, v, x, ""))
         \/ Pad(Del(h, k, IsReserved(k))) /\ Edge(Ev("del", h, "", k, "", FALSE, ""))
         \/ ~IsReserved(k) /\ Pad(Get(h, k)) /\ Edge(Ev("get", h, "", k, "", FALSE, ""))
         \/ \E s \in Slots, w \in BOOLEAN :
              /\ ~IsReserved(k) /\ Hold(h, k, s, w)
              /\ Edge(Ev("hold", h, "", k, "", w, s))
  \/ \E s \in Slots : Inspect(s) /\ Edge(Ev("inspect", "", "", "", "", FALSE, s))
  \/ \E s \in Slots, v \in Vals \ {"bad"} : Poke(s, v) /\ Edge(Ev("poke", "", "", "", v, FALSE, s))
MCSpec == MCInit /\ [][MCNext]_gvars
=============================================================================
