------------------------------ MODULE MCBlocks ------------------------------
EXTENDS Blocks, Json
\* chunk numbers are arbitrary, so states are told apart up to renaming in
\* the printed graph: name/held are shown through the chunks' least owners
St == [name |-> name, mem |-> [c \in {ToString(d) : d \in DOMAIN mem} |->
                                mem[CHOOSE d \in DOMAIN mem : ToString(d) = c]],
       held |-> held]
Edge(e) == PrintT(<<"EDGE", ToJson([f |-> St, t |-> St', e |-> e])>>)
Ev(op, h, a, n, x, y, b) == [op |-> op, h |-> h, a |-> a, n |-> n, x |-> x, y |-> y, b |-> b]
MCInit == BInit /\ PrintT(<<"INIT", ToJson(St)>>)
MCNext ==
  \/ \E h \in Handles, a \in Addresses, n \in {0, 1, 2}, m \in {"new", "over", "old"} :
       /\ (n = 0 => m = "new") /\ (m = "old" => n = 2)
       /\ Open(h, a, n, n, m # "old", m = "over")
       /\ Edge(Ev("open", h, a, n, m # "old", m = "over", <<>>))
  \/ \E h \in Handles : \/ held[h] # 0 /\ Write(h, Len(mem[held[h]]) - 1, <<7>>) /\ Edge(Ev("write", h, "", Len(mem[held[h]]) - 1, FALSE, FALSE, <<7>>))
                        \/ Look(h) /\ Edge(Ev("look", h, "", 0, FALSE, FALSE, <<>>))
  \/ \E a \in Addresses : \/ Fetch(a) /\ Edge(Ev("fetch", "", a, 0, FALSE, FALSE, <<>>))
                          \/ Exists(a) /\ Edge(Ev("exists", "", a, 0, FALSE, FALSE, <<>>))
                          \/ \E x \in BOOLEAN : Delete(a, x) /\ Edge(Ev("delete", "", a, 0, x, FALSE, <<>>))
                          \/ \E x, bad \in BOOLEAN : (bad => x) /\ Memorize(a, <<7>>, x, bad) /\ Edge(Ev("memorize", "", a, 0, x, bad, <<7>>))
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
