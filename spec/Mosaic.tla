------------------------------- MODULE Mosaic -------------------------------
(***************************************************************************)
(* Files of rows in groups.  A row is [id, key, null]; keys are numbers in *)
(* their order, ids tell rows apart (and stand for their other columns).   *)
(* Reading between bounds, and sorting by windows of the sort column.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Bug    \* "none" | "open" (the last window ends before the largest value) | "closed" (windows overlap)
                \* | "nulls" (rows without a value are lost) | "forward" (windows always ascend)
                \* | "prune" (groups that end where the window starts are skipped) | "unsorted"
Rng(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Flat(_)
Flat(gs) == IF gs = <<>> THEN <<>> ELSE gs[1] \o Flat(Tail(gs))
Keys(rows) == {r.key : r \in {r \in Rng(rows) : ~r.null}}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : y <= x
\* bounds: [lo, hi, from, to]; from/to: is there such a bound?
In(r, b) == ~r.null /\ (b.from => r.key >= b.lo) /\ (b.to => r.key < b.hi \/ (Bug = "closed" /\ r.key = b.hi))
\* may a group hold such rows, going by its least and most value?
May(g, b) == Keys(g) # {} /\ (b.from => IF Bug = "prune" THEN Most(Keys(g)) > b.lo ELSE Most(Keys(g)) >= b.lo)
                          /\ (b.to => Least(Keys(g)) <= b.hi)
Between(gs, b) == Flat([g \in DOMAIN gs |-> IF May(gs[g], b) THEN SelectSeq(gs[g], LAMBDA r : In(r, b)) ELSE <<>>])
Before(r, q, dir) == IF dir = "ascending" THEN r.key <= q.key ELSE r.key >= q.key
\* --- what a sorted file is
Permutes(out, rows) == Len(out) = Len(rows) /\ Rng(out) = Rng(rows) /\ Cardinality(Rng(out)) = Len(out)
Sorted(out, dir) == \A i \in 1..(Len(out) - 1) :
  \/ out[i + 1].null
  \/ ~out[i].null /\ Before(out[i], out[i + 1], dir)
IsSorted(out, rows, dir) == Permutes(out, rows) /\ Sorted(out, dir)
\* --- windows: n - 1 of the same size; keys are scaled by n - 1 so that edges are whole
Windows(least, most, n) == [w \in 1..(n - 1) |->
  [lo |-> least * (n - 1) + (most - least) * (w - 1), hi |-> least * (n - 1) + (most - least) * w,
   from |-> w > 1, to |-> w < n - 1 \/ Bug = "open"]]
Backwards(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
InOrder(least, most, n, dir) == LET W == Windows(least, most, n) IN
                                IF dir = "descending" /\ Bug # "forward" THEN Backwards(W) ELSE W
Scaled(gs, n) == [g \in DOMAIN gs |-> [i \in DOMAIN gs[g] |-> [gs[g][i] EXCEPT !.key = gs[g][i].key * (n - 1)]]]
Insert(s, r, dir) ==   \* behind equal ones
  LET k == Cardinality({i \in DOMAIN s : Before(s[i], r, dir)}) IN SubSeq(s, 1, k) \o <<r>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE Sort(_, _)
Sort(s, dir) == IF s = <<>> \/ Bug = "unsorted" THEN s ELSE Insert(Sort(SubSeq(s, 1, Len(s) - 1), dir), s[Len(s)], dir)
Nulls(gs) == SelectSeq(Flat(gs), LAMBDA r : r.null)
\* --- metadata: records of a column in a group
Records(cols, groups) == {<<c, g>> : c \in cols, g \in groups}
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
=============================================================================
