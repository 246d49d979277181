------------------------------- MODULE MCColl -------------------------------
(* a hash dictionary as it is used; and laws of the other helpers            *)
EXTENDS Coll, Json
VARIABLES hd, last, log  \* last: key -> class of what was last assigned
Keys == {"k1", "k2"}
Items == {<<"a", "1">>, <<"A", "1">>, <<"b", "2">>, <<"c", "3">>}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Edge(e) == PrintT(<<"EDGE", ToJson([f |-> <<hd.map, hd.rep>>, t |-> <<hd.map, hd.rep>>', e |-> e])>>)
Init == /\ hd = Empty /\ last = NoFun /\ log = {}
        /\ PrintT(<<"INIT", ToJson(<<hd.map, hd.rep>>)>>)
        \* laws are checked once
        /\ \A s \in Seqs({"p", "q", "r"}, 4), yes \in SUBSET {"p", "q", "r"} : Assert(Separated(s, yes), "separated")
        /\ \A s \in Seqs({<<"p", "1">>, <<"q", "1">>, <<"r", "2">>}, 3), k \in {"p", "q", "z"} :
             (\A i, j \in DOMAIN s : i # j => s[i][1] # s[j][1])
                => Assert(Inserted(s, k, <<"new", "9">>), "inserted")
Next == \E k \in Keys, i \in Items :
  /\ hd' = Assign(hd, k, i[1], i[2])
  /\ last' = Over(last, k :> i[2])
  /\ log' = log \cup {i}
  /\ Edge([key |-> k, item |-> i[1], class |-> i[2]])
Spec == Init /\ [][Next]_<<hd, last, log>>
\* what a key gives is equivalent to what was last assigned to it
Equivalent == \A k \in DOMAIN last : \E i \in log : i[1] = Got(hd, k) /\ i[2] = last[k]
\* equivalent items are one
Once == \A k, j \in DOMAIN last : last[k] = last[j] => Got(hd, k) = Got(hd, j)
\* and stay the first of them
Stays == [][\A c \in DOMAIN hd.rep : c \in DOMAIN hd'.rep /\ hd'.rep[c] = hd.rep[c]]_<<hd, last, log>>
=============================================================================
