----------------------------- MODULE MCTracker ------------------------------
EXTENDS Tracker, Json
CONSTANTS Most   \* records per history, dumps per file
\* states in one fixed written form
Keys == <<"caller", "lineno", "m", "q", "target", "trackcount">>
Fun(f) == [i \in 1..Len(Keys) |-> IF Keys[i] \in DOMAIN f THEN f[Keys[i]] ELSE "-"]
Hist(h) == [i \in 1..Len(h) |-> Fun(h[i])]
St == [trk |-> [t \in DOMAIN trk |-> <<trk[t].name, Fun(trk[t].meta), trk[t].n, Hist(trk[t].hist), trk[t].paused>>],
       file |-> [p \in DOMAIN file |-> <<file[p].there, file[p].ok,
                   [i \in 1..Len(file[p].dumps) |-> <<file[p].dumps[i].name, Hist(file[p].dumps[i].hist)>>]>>]]
Edge(e) == PrintT(<<"EDGE", ToJson([f |-> St, t |-> St', e |-> e])>>)
Ev(op, t, kw, x) == [op |-> op, t |-> t, kw |-> kw, x |-> x]
Ts == {"a", "b"}
MCInit ==
  /\ trk = [t \in Ts |-> [name |-> "n" \o t, path |-> "p", meta |-> NoFun, n |-> 0, hist |-> <<>>, paused |-> FALSE]]
  /\ file = [p \in {"p"} |-> Absent]
  /\ out = ""
  /\ PrintT(<<"INIT", ToJson(St)>>)
Metas == {<<"m", "1">>, <<"m", "!o">>}
Kw(p) == p[1] :> p[2]
MCNext == \E t \in Ts :
  \/ /\ Len(trk[t].hist) < Most
     /\ \/ Track(t, "f", "caller", "0", NoFun) /\ Edge(Ev("track", t, <<>>, FALSE))
        \/ \E k \in {<<"m", "2">>, <<"q", "!c">>} :
             t = "a" /\ Track(t, "f", "caller", "0", Kw(k)) /\ Edge(Ev("track", t, <<k>>, FALSE))
  \/ t = "a" /\ \E k \in Metas : SetMeta(t, Kw(k)) /\ Edge(Ev("set", t, <<k>>, FALSE))
  \/ t = "a" /\ \E b \in BOOLEAN : Pause(t, b) /\ Edge(Ev("pause", t, <<>>, b))
  \/ Clear(t) /\ Edge(Ev("clear", t, <<>>, FALSE))
  \/ /\ Len(file["p"].dumps) < Most \/ trk[t].paused
     /\ Dump(t) /\ Edge(Ev("dump", t, <<>>, FALSE))
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
