------------------------------ MODULE MCLookup ------------------------------
EXTENDS Lookup, Json
CONSTANTS Depth
VARIABLES n, path
Keys == {"s'a'", "0", "-1", "s'x'"}
Node(k) == [k |-> k, v |-> "", id |-> "n", items |-> <<>>, seq |-> <<>>, attrs |-> <<>>]
Leafs == {[Node("leaf") EXCEPT !.v = v] : v \in {"1", "None", "s''"}}
E(key, x) == [key |-> key, val |-> x]
RECURSIVE Nodes(_)
Nodes(d) ==
  LET B == IF d = 0 THEN Leafs ELSE Leafs \cup Nodes(d - 1) IN
  {Node("dict"), Node("list"), Node("obj")}
  \cup {[Node("dict") EXCEPT !.items = <<E(key, x)>>] : key \in {"s'a'", "0"}, x \in B}
  \cup {[Node("list") EXCEPT !.seq = <<x>>] : x \in B}
  \cup {[Node("tuple") EXCEPT !.seq = <<x, y>>] : x \in Leafs, y \in B}
  \cup {[Node("nt") EXCEPT !.seq = <<x>>, !.attrs = <<E("s'a'", x)>>] : x \in B}
  \cup {[Node("obj") EXCEPT !.attrs = <<E("s'a'", x)>>] : x \in B}
  \* items and attributes of the same name
  \cup {[Node("both") EXCEPT !.items = <<E("s'a'", x)>>, !.attrs = <<E("s'a'", y), E("s'x'", x)>>] : x \in B, y \in Leafs}
Init == n \in Nodes(Depth) /\ path = <<>> /\ PrintT(<<"NODE", ToJson(n)>>)
Next == FALSE /\ UNCHANGED <<n, path>>
Spec == Init /\ [][Next]_<<n, path>>
Exactly == Exact(n, Keys)
=============================================================================
