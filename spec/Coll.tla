-------------------------------- MODULE Coll --------------------------------
(***************************************************************************)
(* Helpers for collections. Things are tokens, collections sequences of    *)
(* tokens, mappings sequences of pairs.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Bug \* "none" | "replace" | "noshare"
Listify(kind, x, els) == IF kind \in {"str", "atom"} THEN <<x>> ELSE els
Numbered(s) == [i \in DOMAIN s |-> <<ToString(i - 1), s[i]>>]
Reindex(ps) == [i \in DOMAIN ps |-> <<ToString(i - 1), ps[i][2]>>]
Enumerate(kind, els, ps) == CASE kind = "none" -> <<>> [] kind = "map" -> ps [] OTHER -> Numbered(els)
RECURSIVE After(_, _, _)
After(ps, prior, new) == IF ps = <<>> THEN <<>>
  ELSE IF Head(ps)[1] = prior THEN <<Head(ps), new>> \o Tail(ps)
  ELSE <<Head(ps)>> \o After(Tail(ps), prior, new)
Has(ps, key) == \E i \in DOMAIN ps : ps[i][1] = key
Val(ps, key) == ps[CHOOSE i \in DOMAIN ps : ps[i][1] = key][2]
GetAll(key, ms, default) == [i \in DOMAIN ms |-> IF Has(ms[i], key) THEN Val(ms[i], key) ELSE default]
Hits(s, yes) == SelectSeq(s, LAMBDA x : x \in yes)
Misses(s, yes) == SelectSeq(s, LAMBDA x : x \notin yes)

\* --- laws
Pair(a, b) == <<a, b>>
Separated(s, yes) ==
  /\ Len(Hits(s, yes)) + Len(Misses(s, yes)) = Len(s)
  /\ {Hits(s, yes)[i] : i \in DOMAIN Hits(s, yes)} \cap {Misses(s, yes)[i] : i \in DOMAIN Misses(s, yes)} = {}
Inserted(ps, prior, new) == LET r == After(ps, prior, new) IN
  /\ SelectSeq(r, LAMBDA p : p # new) = SelectSeq(ps, LAMBDA p : p # new)
  /\ Len(r) = Len(ps) + IF Has(ps, prior) THEN 1 ELSE 0

\* --- dictionaries that store equivalent items once
\* hd: [map |-> key -> class, rep |-> class -> item]
NoFun == [x \in {} |-> ""]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Empty == [map |-> NoFun, rep |-> NoFun]
Assign(hd, key, item, class) ==
  [map |-> Over(hd.map, key :> class),
   rep |-> IF class \in DOMAIN hd.rep /\ Bug # "replace" THEN hd.rep
           ELSE IF Bug = "noshare" /\ hd.rep # NoFun THEN Over(hd.rep, (CHOOSE c \in DOMAIN hd.rep : TRUE) :> item @@ class :> item)
           ELSE Over(hd.rep, class :> item)]
Got(hd, key) == IF key \in DOMAIN hd.map THEN hd.rep[hd.map[key]] ELSE "EXC:KeyError"
=============================================================================
