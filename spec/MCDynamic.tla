----------------------------- MODULE MCDynamic ------------------------------
EXTENDS Dynamic, Json
CONSTANTS Most, Mode  \* reports per instance; "cycle": one instance, everything;
                      \* "two": two instances, fewer operations, nothing printed
D(d) == <<d.src, d.glob, d.code, d.func, [k \in 1..Len(d.errs) |-> <<d.errs[k].cat, d.errs[k].exc>>],
          d.cfail, d.kfail, d.opt, d.loc>>
Is == IF Mode = "two" THEN {"a", "b"} ELSE {"a"}
St == [i \in Is |-> IF i \in DOMAIN dyn THEN D(dyn[i]) ELSE <<>>]
Ev(op, i, s, x, b, o) == [op |-> op, i |-> i, s |-> s, x |-> x, b |-> b, o |-> o]
Edge(e) == Mode = "two" \/ PrintT(<<"EDGE", ToJson([f |-> St, t |-> St', e |-> e])>>)
MCInit == DInit /\ PrintT(<<"INIT", ToJson(St)>>)
Srcs == IF Mode = "two" THEN {"v1", "bad"} ELSE {"v1", "v2", "bad"}
Half(i) == dyn[i].func = Nil /\ dyn[i].code # Nil   \* compiled, never defined
Room(i) == Len(dyn[i].errs) < Most
MCNext == \E i \in Is :
  \/ /\ i \notin DOMAIN dyn
     /\ \/ \E s \in Srcs, opt, lazy, loc \in BOOLEAN :
             /\ New(i, s, "g", opt, lazy, loc)
             /\ Edge([Ev("new", i, s, "", opt, "") EXCEPT !.x = ToString(lazy) \o ToString(loc)])
        \/ \E opt \in BOOLEAN : FromFunction(i, "h1", "", opt, TRUE) /\ Edge(Ev("from", i, "h1", "", opt, ""))
  \/ /\ i \in DOMAIN dyn
     /\ \/ Unload(i) /\ Edge(Ev("unload", i, "", "", FALSE, ""))
        \/ \E s \in Srcs : dyn[i].src # s /\ SetSrc(i, s) /\ Edge(Ev("src", i, s, "", FALSE, ""))
        \/ \E b \in BOOLEAN : Room(i) /\ (b \/ ~Half(i)) /\ DoLoad(i, b) /\ Edge(Ev("load", i, "", "", b, ""))
        \/ /\ Mode = "cycle"
           /\ \/ \E b \in BOOLEAN : dyn[i].opt # b /\ SetOpt(i, b) /\ Edge(Ev("opt", i, "", "", b, ""))
              \/ \E b \in BOOLEAN : dyn[i].loc # b /\ SetLoc(i, b) /\ Edge(Ev("loc", i, "", "", b, ""))
              \/ \E b \in BOOLEAN : Room(i) /\ DoCompile(i, b) /\ Edge(Ev("compile", i, "", "", b, ""))
              \/ \E b \in BOOLEAN : DoDefine(i, b) /\ Edge(Ev("define", i, "", "", b, ""))
        \/ \E x \in {"fine", "val", "kbd"}, o \in {"", "yes", "no"} :
             /\ Mode = "cycle" \/ o # "no"
             /\ Room(i) /\ ~Half(i)
             /\ Call(i, "one", x, o) /\ Edge(Ev("call", i, "", x, FALSE, o))
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
