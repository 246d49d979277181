------------------------------ MODULE MCTrees -------------------------------
(* all trees up to a bound: laws hold of each, each is printed for replay    *)
EXTENDS Trees, Json
CONSTANTS Depth, Kds, Lvs, Law  \* Law: "one": one tree at a time, "two": pairs and triples, "long": one, deeper
VARIABLES t, u, w
Ks == {<<"s'a'", "a">>, <<"s'b'", "b">>}
RECURSIVE Nodes(_)
Below(d) == IF d = 0 THEN {Leaf(v) : v \in Lvs} ELSE {Leaf(v) : v \in Lvs} \cup Nodes(d - 1)
Nodes(d) ==
  LET B == Below(d)
      es == {<<>>} \cup {<<Entry(k[1], k[2], x)>> : k \in Ks, x \in B}
            \cup {<<Entry(k[1], k[2], x), Entry(l[1], l[2], y)>> : k \in Ks, l \in Ks, x \in B, y \in B}
      ok == {e \in es : Len(e) = 2 => e[1].key # e[2].key}
  IN {[k |-> kd, v |-> "", id |-> "x", es |-> e] : kd \in Kds, e \in ok}
Roots(d) == {n \in Nodes(d) : n.k = "dict"}
Small == Roots(0) \cup {Dict(<<Entry("s'a'", "a", n)>>) : n \in {Dict(<<>>), Dict(<<Entry("s'b'", "b", Leaf("2"))>>)}}
\* long and thin: below the top, at most one entry each
RECURSIVE Thin(_)
Slim(d) == {Leaf(v) : v \in Lvs} \cup IF d = 0 THEN {} ELSE Thin(d - 1)
Thin(d) == {[k |-> kd, v |-> "", id |-> "x", es |-> e] : kd \in Kds,
            e \in {<<>>} \cup {<<Entry(k[1], k[2], x)>> : k \in Ks, x \in Slim(d)}}
Long(d) == {Dict(<<Entry("s'a'", "a", x), Entry("s'b'", "b", y)>>) : x \in Slim(d), y \in Slim(d)}
Init == IF Law = "long" THEN t \in Long(Depth) /\ u = t /\ w = t /\ PrintT(<<"TREE", ToJson(t)>>)
        ELSE IF Law = "one" THEN /\ t \in Roots(Depth) /\ u = t /\ w = t
                            /\ PrintT(<<"TREE", ToJson(t)>>)
        ELSE t \in Roots(Depth) /\ u \in Roots(Depth) /\ w \in Small
Next == FALSE /\ UNCHANGED <<t, u, w>>
Spec == Init /\ [][Next]_<<t, u, w>>
Mts == {{"dict"}, {"od"}, {"dict", "ud"}, {"Mapping"}}
One(P(_, _)) == \A m \in Mts : P(t, m)
DigTotals == One(DigTotal)
DigSplits == One(DigSplit)
DigLevelsFirst == One(DigLevels)
EditNones == One(EditNone)
EditLeavesAll == One(EditLeaves)
EditDeeps == One(EditDeep)
UnnestAlls == One(UnnestAll)
MergeSames == One(MergeSame)
MergeSeconds == MergeSecond(t, u, {"dict"}) /\ MergeSecond(t, u, {"od"})
MergeFirsts == MergeFirst(t, u, {"dict"}) /\ MergeFirst(t, u, {"od"})
MergeAssocs == (\A key \in Keys(t) \cup Keys(u) \cup Keys(w) : \A a, b \in {t, u, w} :
   key \in Keys(a) \cap Keys(b) => (At(a, key).val.k = "leaf" <=> At(b, key).val.k = "leaf"))
   => Content(Merge(Merge(t, u, {"dict"}), w, {"dict"})) = Content(Merge(t, Merge(u, w, {"dict"}), {"dict"}))
=============================================================================
