------------------------------- MODULE Lookup -------------------------------
(***************************************************************************)
(* Nested lookup.  A node is [k, v, id, items, seq, attrs]: items are the  *)
(* keyed entries, seq those with a position, attrs those with a name.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Bug \* "none" | "attrfirst" | "falsy" (what is falsy counts as missing) | "nonegative"
Has(es, key) == \E i \in DOMAIN es : es[i].key = key
Val(es, key) == es[CHOOSE i \in DOMAIN es : es[i].key = key].val
\* positions count from either end
Place(s, key) == {i \in DOMAIN s : key = ToString(i - 1)
                                    \/ (Bug # "nonegative" /\ key = "-" \o ToString(Len(s) + 1 - i))}
Missing == [k |-> "missing", v |-> "", id |-> "", items |-> <<>>, seq |-> <<>>, attrs |-> <<>>]
Item(n, key) == IF Has(n.items, key) THEN Val(n.items, key)
                ELSE IF Place(n.seq, key) # {} THEN n.seq[CHOOSE i \in Place(n.seq, key) : TRUE]
                ELSE Missing
Attr(n, key) == IF Has(n.attrs, key) THEN Val(n.attrs, key) ELSE Missing
Step(n, key) ==
  LET a == IF Bug = "attrfirst" THEN Attr(n, key) ELSE Item(n, key)
      b == IF Bug = "attrfirst" THEN Item(n, key) ELSE Attr(n, key)
      r == IF a # Missing THEN a ELSE b
  IN IF Bug = "falsy" /\ r.v \in {"None", "0", "s''"} THEN Missing ELSE r
Ref(n) == IF n.k \in {"leaf", "str"} THEN n.v ELSE n.id
RECURSIVE Get(_, _)
Get(n, path) == IF path = <<>> \/ n = Missing THEN n ELSE Get(Step(n, Head(path)), Tail(path))
Lookup(n, path, default) == LET r == Get(n, path) IN IF r = Missing THEN default ELSE Ref(r)

\* --- what follows
RECURSIVE Paths(_)
\* all the ways to something, and what is there
Direct(n) == {<<n.items[i].key, n.items[i].val>> : i \in DOMAIN n.items}
             \cup {<<ToString(i - 1), n.seq[i]>> : i \in DOMAIN n.seq}
             \cup {<<"-" \o ToString(Len(n.seq) + 1 - i), n.seq[i]>> : i \in DOMAIN n.seq}
             \cup {<<n.attrs[i].key, n.attrs[i].val>> : i \in {j \in DOMAIN n.attrs : ~Has(n.items, n.attrs[j].key)
                                                                /\ Place(n.seq, n.attrs[j].key) = {}}}
Paths(n) == {<< <<>>, Ref(n)>>} \cup UNION {{<< <<d[1]>> \o p[1], p[2]>> : p \in Paths(d[2])} : d \in Direct(n)}
\* lookup finds what is there, and nothing else
Exact(n, keys) == LET ps == Paths(n) IN
  /\ \A p \in ps : Lookup(n, p[1], "D") = p[2]
  /\ \A p \in ps : \A key \in keys : (\A q \in ps : q[1] # Append(p[1], key)) => Lookup(n, Append(p[1], key), "D") = "D"
=============================================================================
