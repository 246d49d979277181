------------------------------- MODULE Scrape -------------------------------
(* Texts are sequences of characters; a name of more than one character      *)
(* stands for a stretch of text: "V..." for a literal of another kind (a     *)
(* dictionary, say), "N..." for one that is no literal, "S..." for one that  *)
(* keeps any text it is in from being one. A pattern is                      *)
(*   [pre, neg, set, quant, opt, post]                                       *)
(* -- the literal text pre, then a group of characters (not) in set, as many *)
(* as quant says, then the literal text post; with opt, the group may also   *)
(* be left out.                                                              *)
EXTENDS Literals
CONSTANT Bug
InClass(p, c) == IF p.neg THEN c \notin Rng(p.set) ELSE c \in Rng(p.set)
StartsAt(t, i, w) == i + Len(w) - 1 <= Len(t) /\ \A q \in DOMAIN w : t[i + q - 1] = w[q]
Least(q) == IF q \in {"+", "+?"} THEN 1 ELSE IF q = "2" THEN 2 ELSE 0
Most(q, n) == IF q \in {"?", "??"} THEN (IF n > 1 THEN 1 ELSE n) ELSE IF q = "2" THEN (IF n > 2 THEN 2 ELSE n) ELSE n
Lazy(q) == q \in {"*?", "+?", "??"}
Run(p, t, i) == LET m == {j \in i..Len(t) : ~InClass(p, t[j])} IN
  IF m = {} THEN Len(t) - i + 1 ELSE (CHOOSE j \in m : \A k \in m : j <= k) - i
Lengths(p, t, i) == {n \in Least(p.quant)..Most(p.quant, Run(p, t, i)) : StartsAt(t, i + n, p.post)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
\* starts at which the pattern matches
Matches(p, t, i) == StartsAt(t, i, p.pre) /\
  LET a == i + Len(p.pre) IN Lengths(p, t, a) # {} \/ (p.opt /\ StartsAt(t, a, p.post))
Starts(p, t) == {i \in 1..(Len(t) + 1) : Matches(p, t, i)}
\* [hit, has, g]: did it match, does the group take part, and with which text
Search(p, t) ==
  IF Starts(p, t) = {} THEN [hit |-> FALSE, has |-> FALSE, g |-> <<>>]
  ELSE LET i == IF Bug = "last" THEN Max(Starts(p, t)) ELSE Min(Starts(p, t))
           a == i + Len(p.pre)  L == Lengths(p, t, a)
       IN IF L = {} THEN [hit |-> TRUE, has |-> FALSE, g |-> <<>>]
          ELSE LET n == IF Lazy(p.quant) THEN Min(L) ELSE Max(L) IN [hit |-> TRUE, has |-> TRUE, g |-> Slice(t, a, a + n)]
IsOpaque(c) == Len(c) > 1
Kind(c) == SubSeq(c, 1, 1)
Verdict(g) ==
  IF \E c \in Rng(g) : IsOpaque(c) /\ Kind(c) = "S" THEN No
  ELSE IF Len(g) = 1 /\ IsOpaque(g[1]) THEN (IF Kind(g[1]) = "V" THEN Yes(Val("other", g[1], <<>>), 0, FALSE) ELSE No)
  ELSE IF \E c \in Rng(g) : IsOpaque(c) THEN Open
  ELSE IF g = <<>> THEN No
  ELSE Literal(g)
\* values the scraper may give for a pattern
Found(p, t) ==
  LET s == Search(p, t) IN
  IF ~s.has THEN [any |-> FALSE, v |-> Null]
  ELSE LET r == Verdict(s.g) IN
    IF r.k = "open" THEN [any |-> TRUE, v |-> Null]
    ELSE [any |-> FALSE, v |-> IF r.k = "yes" THEN (IF Bug = "falsy" /\ r.v.s = "" THEN Null ELSE r.v) ELSE Text(s.g)]
Agrees(f, v) == f.any \/ f.v = v
=============================================================================
