------------------------------- MODULE MCPool -------------------------------
EXTENDS Pool, Json
CONSTANTS Most, Threads, Rounds
VARIABLES round
Rec(i, f) == [key |-> ToString(i), args |-> ToString(round) \o "-" \o ToString(i), fail |-> f, gives |-> ""]
St == <<threads, round, [i \in DOMAIN recs |-> <<recs[i].key, recs[i].args, recs[i].fail>>], jobs,
        [i \in DOMAIN recs |-> i \in Rng(done)], out # {}>>
Edge(e) == PrintT(<<"EDGE", ToJson([f |-> St, t |-> St', e |-> e])>>)
Ev(op, n, rs, x) == [op |-> op, n |-> n, recs |-> rs, x |-> x]
MCInit == PInit /\ round = 0 /\ PrintT(<<"INIT", ToJson(St)>>)
MCNext ==
  \/ /\ round = 0 /\ round' = 1
     /\ \E n \in Threads : New(n) /\ Edge(Ev("new", n, <<>>, FALSE))
  \/ /\ round \in 1..Rounds /\ AllDone /\ round' = round + 1
     /\ \E n \in 0..Most : \E fails \in [1..n -> {"", "KeyError"}] : \E c \in BOOLEAN :
          LET rs == [i \in 1..n |-> Rec(i, fails[i])] IN Map(rs, c) /\ Edge(Ev("map", 0, rs, c))
  \/ UNCHANGED round /\ \E i \in Started : Finish(i) /\ Edge(Ev("fin", i, <<>>, FALSE))
  \/ round' = Rounds + 1 /\ round > 1 /\ AllDone /\ recs # <<>> /\ Stop /\ Edge(Ev("stop", 0, <<>>, FALSE))
  \/ UNCHANGED round /\ round > 1 /\ out = {} /\ Get /\ Edge(Ev("get", 0, <<>>, FALSE))
MCSpec == MCInit /\ [][MCNext]_<<vars, round>>
\* the order of completion and old results do not matter
View == <<threads, round, recs, jobs, Rng(done), out>>
=============================================================================
