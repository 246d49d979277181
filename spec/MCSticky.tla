------------------------------ MODULE MCSticky ------------------------------
EXTENDS Sticky, Json
St == [note |-> note, on |-> on, cache |-> cache]
Edge(e) == PrintT(<<"EDGE", ToJson([f |-> St, t |-> St', e |-> e])>>)
Ev(op, h, a, v, x) == [op |-> op, h |-> h, a |-> a, v |-> v, x |-> x]
MCInit == SInit /\ PrintT(<<"INIT", ToJson(St)>>)
MCNext ==
  \/ \E h \in Handles :
       \/ \E a \in Addresses :
            \/ New(h, a) /\ Edge(Ev("new", h, a, "", FALSE))
            \/ \E v \in Vals : Note(h, a, v, v = "bad") /\ Edge(Ev("note", h, a, v, FALSE))
       \/ \E v \in Vals : Stick(h, v, v = "bad") /\ Edge(Ev("stick", h, "", v, FALSE))
       \/ \E x \in BOOLEAN : Read(h, x) /\ Edge(Ev("read", h, "", "", x))
       \/ Pull(h) /\ Edge(Ev("pull", h, "", "", FALSE))
  \/ \E a \in Addresses : Peek(a) /\ Edge(Ev("peek", "", a, "", FALSE))
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
