------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Tables: [names, idx, cols] -- the names of the columns, the labels of   *)
(* the rows (either may repeat) and the columns' cells.  A cell is a token; *)
(* equal tokens are equal values, "~" is a null.                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Bug   \* "none" | "nullfirst" (a constant's value is its first entry, null or not)
                \* | "nullscount" | "tile" (repeats the table, not the rows)
                \* | "forget" (duplicates are dropped unseen) | "byrow" (labels and values run apart)
Rng(s) == {s[i] : i \in DOMAIN s}
Null == "~"
Width(T) == Len(T.names)
Height(T) == Len(T.idx)
Table(names, idx, cols) == [names |-> names, idx |-> idx, cols |-> cols]
Only(s, is) == [k \in DOMAIN is |-> s[is[k]]]
\* the elements of a set of positions, in order
Ordered(S) == IF S = {} THEN <<>>
              ELSE LET n == CHOOSE i \in S : \A j \in S : j <= i IN SelectSeq([i \in 1..n |-> i], LAMBDA i : i \in S)
TakeCols(T, S) == LET js == Ordered(S) IN Table(Only(T.names, js), T.idx, Only(T.cols, js))
TakeRows(T, is) == Table(T.names, Only(T.idx, is), [j \in DOMAIN T.cols |-> Only(T.cols[j], is)])
Transposed(T) == Table(T.idx, T.names, [i \in 1..Height(T) |-> [j \in 1..Width(T) |-> T.cols[j][i]]])
Row(T, i) == [j \in 1..Width(T) |-> T.cols[j][i]]

\* --- constants: lines are columns (how = "rows": the same in each row) or rows
Lines(T, how) == IF how = "rows" THEN T ELSE Transposed(T)
Present(s) == SelectSeq(s, LAMBDA c : c # Null)
IsConstant(s, dropna) ==
  IF dropna /\ Bug # "nullscount" THEN Cardinality(Rng(Present(s))) <= 1
  ELSE Cardinality(Rng(s)) <= 1 /\ Null \notin Rng(s)
\* nothing but nulls, and nulls count: nobody can say
Moot(s, dropna) == ~dropna /\ s # <<>> /\ Rng(s) = {Null}
Value(s) == IF Present(s) = <<>> THEN Null ELSE IF Bug = "nullfirst" THEN s[1] ELSE Present(s)[1]
Constants(T, how, dropna) == LET L == Lines(T, how) IN {k \in DOMAIN L.cols : IsConstant(L.cols[k], dropna)}
Moots(T, how, dropna) == LET L == Lines(T, how) IN {k \in DOMAIN L.cols : Moot(L.cols[k], dropna)}
Values(T, how, K) == LET L == Lines(T, how) IN {<<L.names[k], Value(L.cols[k])>> : k \in K}
Extract(T, how, K) == IF how = "rows" THEN TakeCols(T, K) ELSE TakeRows(T, Ordered(K))

\* --- reshaping
SplitOn(T, mask) == <<TakeRows(T, Ordered({i \in DOMAIN mask : mask[i]})), TakeRows(T, Ordered({i \in DOMAIN mask : ~mask[i]}))>>
Repeated(T, k) ==
  LET n == Height(T) * k
      is == [i \in 1..n |-> IF Bug = "tile" THEN ((i - 1) % Height(T)) + 1 ELSE ((i - 1) \div k) + 1]
  IN [TakeRows(T, is) EXCEPT !.idx = [i \in 1..n |-> "n" \o ToString(i - 1)]]
\* lists: per row [null, els]
Most(ls) == LET S == {Len(ls[i].els) : i \in {i \in DOMAIN ls : ~ls[i].null}} IN
            IF S = {} THEN 0 ELSE CHOOSE n \in S : \A m \in S : m <= n
Element(r, j) == IF r.null \/ j > Len(r.els) THEN Null ELSE r.els[j]
Unpacked(name, ls) == Table([j \in 1..Most(ls) |-> name \o "_" \o ToString(j - 1)], <<>>,
                            [j \in 1..Most(ls) |-> [i \in DOMAIN ls |-> Element(ls[i], j)]])
UnpackSeries(name, idx, ls) ==
  LET is == Ordered({i \in DOMAIN ls : ~ls[i].null}) IN TakeRows([Unpacked(name, ls) EXCEPT !.idx = idx], is)
UnpackColumn(T, at, name, ls) ==
  LET rest == TakeCols(T, DOMAIN T.cols \ {at})  u == Unpacked(name, ls)
  IN Table(rest.names \o u.names, T.idx, rest.cols \o u.cols)
\* texts: what the by-columns and the others' names look like in labels
RECURSIVE Joined(_)
Joined(ss) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "_" \o Joined(Tail(ss))
Kept(T, by, all, vals) == Ordered({i \in 1..Height(T) : all \/ \A b \in Rng(by) : T.cols[b][i] \in vals})
Smash(T, by, texts, names, kept) ==
  LET vs == Ordered(DOMAIN T.cols \ Rng(by))  n == Len(kept)
      At(k) == LET r == ((k - 1) % n) + 1  c == ((k - 1) \div n) + 1 IN <<kept[r], vs[c]>>
      Lab(k) == IF Bug = "byrow" THEN LET m == Len(vs) IN <<kept[((k - 1) \div m) + 1], vs[((k - 1) % m) + 1]>> ELSE At(k)
  IN [k \in 1..(n * Len(vs)) |->
        <<"s" \o Joined([b \in DOMAIN by |-> texts[b][Lab(k)[1]]] \o <<names[Lab(k)[2]]>>), T.cols[At(k)[2]][At(k)[1]]>>]
\* a series: labels and cells
Firsts(labels) == Ordered({i \in DOMAIN labels : \A j \in 1..(i - 1) : labels[j] # labels[i]})
SqueezeFirst(labels, cells) == [k \in DOMAIN Firsts(labels) |-> <<labels[Firsts(labels)[k]], cells[Firsts(labels)[k]]>>]
Of(labels, x) == {i \in DOMAIN labels : labels[i] = x}
RECURSIVE Total(_, _)
Total(nums, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN nums[i] + Total(nums, S \ {i})
Aggregate(agg, labels, cells, nums, x) ==
  LET S == Of(labels, x)  here == {i \in S : cells[i] # Null} IN
  CASE agg = "any" -> IF \E i \in S : cells[i] = "n1" THEN "n1" ELSE "n0"
    [] agg = "all" -> IF \A i \in S : cells[i] = "n1" THEN "n1" ELSE "n0"
    [] agg = "sum" -> "n" \o ToString(Total(nums, here))
    [] agg = "count" -> "n" \o ToString(Cardinality(here))
    [] agg = "max" -> IF here = {} THEN Null ELSE cells[CHOOSE i \in here : \A j \in here : nums[j] <= nums[i]]
    [] agg = "min" -> IF here = {} THEN Null ELSE cells[CHOOSE i \in here : \A j \in here : nums[j] >= nums[i]]
    [] agg = "first" -> IF here = {} THEN Null ELSE cells[CHOOSE i \in here : \A j \in here : i <= j]
    [] agg = "last" -> IF here = {} THEN Null ELSE cells[CHOOSE i \in here : \A j \in here : i >= j]
Squeeze(agg, labels, cells, nums) == {<<x, Aggregate(agg, labels, cells, nums, x)>> : x \in Rng(labels)}
\* duplicate names
Earlier(T, j) == {k \in 1..(j - 1) : T.names[k] = T.names[j]}
Clashes(T) == Bug # "forget" /\ \E j \in DOMAIN T.cols : \E k \in Earlier(T, j) : T.cols[j] # T.cols[k]
Deduped(T) == TakeCols(T, {j \in DOMAIN T.cols : Earlier(T, j) = {}})
\* keys: the rows of some columns
KeyRows(T, js) == {Only(Row(T, i), js) : i \in 1..Height(T)}
Junction(A, B, method) ==
  CASE method = "difference" -> A \ B [] method = "union" -> A \cup B [] method = "intersection" -> A \cap B
    [] method = "symmetric_difference" -> (A \ B) \cup (B \ A)
\* columns by type: the type's name begins with one of the patterns, or "u" and it
Begins(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Typed(T, kinds, pats) == TakeCols(T, {j \in DOMAIN T.cols : \E p \in pats : Begins(kinds[j], p) \/ Begins(kinds[j], "u" \o p)})
\* what a function of text (as pairs) makes of cells; nothing of nothing
Mapped(cells, f) == [i \in DOMAIN cells |-> IF cells[i] = Null THEN Null ELSE f[CHOOSE k \in DOMAIN f : f[k][1] = cells[i]][2]]
\* numpy's scalars as python's: [type, value]
Plain(t) == CASE t = "numpy bool" -> "bool" [] t = "numpy int" -> "int" [] t = "numpy float" -> "float" [] t = "numpy complex" -> "complex"
              [] t = "numpy str" -> "str" [] t = "numpy bytes" -> "bytes" [] t = "numpy void" -> "bytes" [] OTHER -> t

\* --- laws
LawMapped(T) == \A j \in DOMAIN T.cols :
  LET c == T.cols[j]  f == <<<<"n1", "n2">>, <<"n2", "n1">>>>  m == Mapped(c, f)
  IN Len(m) = Len(c) /\ Mapped(m, f) = c /\ \A i \in DOMAIN c : (m[i] = Null) = (c[i] = Null)
Bools == BOOLEAN
LawTurn(T) == \A d \in Bools : Constants(T, "columns", d) = Constants(Transposed(T), "rows", d)
LawNulls(T) == \A h \in {"rows", "columns"} : Constants(T, h, FALSE) \subseteq Constants(T, h, TRUE)
LawDef(T) == \A h \in {"rows", "columns"} : \A k \in DOMAIN Lines(T, h).cols : LET s == Lines(T, h).cols[k] IN
  /\ k \in Constants(T, h, TRUE) <=> \E v \in Rng(s) \cup {Null} : Rng(s) \subseteq {v, Null}
  /\ k \in Constants(T, h, FALSE) => \E v \in Rng(s) : Rng(s) = {v}
LawAgain(T) == \A h \in {"rows", "columns"}, d \in Bools :
  LET K == Constants(T, h, d)  all == DOMAIN Lines(T, h).cols  V == Extract(T, h, all \ K)
  IN /\ Constants(V, h, d) = {}
     /\ Len(Lines(Extract(T, h, K), h).cols) + Len(Lines(V, h).cols) = Len(Lines(T, h).cols)
LawValue(T) == \A h \in {"rows", "columns"} : LET L == Lines(T, h) IN
  \A k \in Constants(T, h, TRUE) : \A c \in Rng(L.cols[k]) : c # Null => Value(L.cols[k]) = c
LawSplit(T) == \A m \in [1..Height(T) -> Bools] :
  LET s == SplitOn(T, m) IN /\ Height(s[1]) + Height(s[2]) = Height(T)
    /\ \A i \in 1..Height(T) : \E k \in 1..2 : \E r \in 1..Height(s[k]) :
         Row(s[k], r) = Row(T, i) /\ s[k].idx[r] = T.idx[i] /\ (k = 1 <=> m[i])
LawRepeat(T) == /\ Repeated(T, 1).cols = T.cols
                /\ Repeated(Repeated(T, 2), 2) = Repeated(T, 4)
                /\ \A i \in 1..Height(T) : Row(Repeated(T, 2), 2 * i) = Row(T, i) /\ Row(Repeated(T, 2), 2 * i - 1) = Row(T, i)
LawSmash(T) ==
  LET s == Smash(T, <<1>>, <<T.cols[1]>>, T.names, [i \in 1..Height(T) |-> i]) IN
  /\ Len(s) = Height(T) * (Width(T) - 1)
  /\ \A j \in 2..Width(T), i \in 1..Height(T) : <<"s" \o T.cols[1][i] \o "_" \o T.names[j], T.cols[j][i]>> \in Rng(s)
LawSqueeze(T) == Height(T) > 0 =>
  LET f == SqueezeFirst(T.cols[1], T.cols[2])  ls == [k \in DOMAIN f |-> f[k][1]]  cs == [k \in DOMAIN f |-> f[k][2]]
  IN /\ Rng(ls) = Rng(T.cols[1]) /\ SqueezeFirst(ls, cs) = f
     /\ \A k \in DOMAIN f : f[k][2] = T.cols[2][CHOOSE i \in Of(T.cols[1], f[k][1]) : \A j \in Of(T.cols[1], f[k][1]) : i <= j]
     /\ {p[1] : p \in Squeeze("count", T.cols[1], T.cols[2], [i \in 1..Height(T) |-> 0])} = Rng(ls)
LawDedupe(T) == \A n \in [1..Width(T) -> {"x", "y"}] : LET S == [T EXCEPT !.names = n] IN
  Clashes(S) \/ LET D == Deduped(S) IN
    /\ Cardinality(Rng(D.names)) = Width(D) /\ Rng(D.names) = Rng(n) /\ Deduped(D) = D
    /\ \A j \in 1..Width(S) : \E k \in 1..Width(D) : D.names[k] = n[j] /\ D.cols[k] = S.cols[j]
LawJunction(T) == LET A == {<<c>> : c \in Rng(T.cols[1])}  B == {<<c>> : c \in Rng(T.cols[2])} IN
  /\ Junction(A, B, "difference") \cup Junction(A, B, "intersection") = A
  /\ Junction(A, B, "symmetric_difference") = Junction(A, B, "union") \ Junction(A, B, "intersection")
=============================================================================
