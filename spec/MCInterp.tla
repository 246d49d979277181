------------------------------ MODULE MCInterp ------------------------------
EXTENDS Interp, Json
St == [mode |-> mode, exists |-> exists, sems |-> sems]
Edge(e) == PrintT(<<"EDGE", ToJson([f |-> St, t |-> St', e |-> e])>>)
Ev(op, i, a) == [op |-> op, i |-> i, a |-> a]
MCInit == PInit /\ PrintT(<<"INIT", ToJson(St)>>)
\* here blocks are used by deactivated interpreters only, which makes the
\* outcome of every end certain
MCNext ==
  \E i \in Procs :
    \/ Start(i) /\ Edge(Ev("start", i, ""))
    \/ Deactivate(i) /\ Edge(Ev("off", i, ""))
    \/ Sem(i) /\ Edge(Ev("sem", i, ""))
    \/ \E a \in Names : /\ mode[i] = "off"
                        /\ \/ Create(i, a) /\ Edge(Ev("create", i, a))
                           \/ Attach(i, a) /\ Edge(Ev("attach", i, a))
                           \/ Delete(i, a) /\ Edge(Ev("delete", i, a))
    \/ End(i, exists) /\ Edge(Ev("end", i, ""))
MCSpec == MCInit /\ [][MCNext]_vars
\* with tracked use as well, checked but not replayed
AnyNext ==
  \E i \in Procs :
    \/ Start(i) \/ Deactivate(i) \/ Sem(i)
    \/ \E a \in Names : Create(i, a) \/ Attach(i, a) \/ Delete(i, a)
    \/ \E S \in SUBSET exists : End(i, S)
AnySpec == PInit /\ [][AnyNext]_vars
=============================================================================
