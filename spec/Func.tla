-------------------------------- MODULE Func --------------------------------
(***************************************************************************)
(* Functional helpers.  Functions are a stack of wrappers (outermost       *)
(* first) around a base function; calling one gives the calls of the base  *)
(* function it makes, what callbacks are told, and how it ends.            *)
(* Values are [s |-> is it a sequence, v |-> token, es |-> its elements].  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Bug \* "none" | "twice" | "swallow" | "nostop" | "eager"
Atom(v) == [s |-> FALSE, v |-> v, es |-> <<>>]
Seq1(es) == [s |-> TRUE, v |-> "", es |-> es]
RECURSIVE Text(_)
Commas(ss) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o "," \o b, ss[1], Tail(ss))
Text(x) == IF x.s THEN "(" \o Commas([i \in DOMAIN x.es |-> Text(x.es[i])]) \o ")" ELSE x.v
Texts(xs) == Commas([i \in DOMAIN xs |-> Text(xs[i])])
\* keyword arguments: sequences of <<name, token>>, sorted by name
Kw(kw) == Commas([i \in DOMAIN kw |-> kw[i][1] \o "=" \o kw[i][2]])
\* a wrapper: [w, n, b, v]
Wr(w, n, b, v) == [w |-> w, n |-> n, b |-> b, v |-> v]
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
None == Atom("None")
\* [calls, told, val, exc]
Ret(x) == [calls |-> <<>>, told |-> <<>>, val |-> x, exc |-> ""]
Exc(e) == [calls |-> <<>>, told |-> <<>>, val |-> None, exc |-> e]
\* what passes through the optional form
Passing == {"KeyboardInterrupt", "SystemExit"}
\* base: how the base function ends: "" or the exception it raises
RECURSIVE Run(_, _, _, _)
Run(stack, base, args, kw) ==
  IF stack = <<>>
  THEN LET c == Texts(args) \o "|" \o Kw(kw) IN
       [calls |-> <<c>>, told |-> <<>>, val |-> Atom("ret[" \o c \o "]"), exc |-> base]
  ELSE LET h == Head(stack)
           t == Tail(stack)
       IN CASE
         h.w = "argstop" ->
           IF Len(args) = 1 /\ h.b
           THEN IF args[1].s THEN Run(t, base, Take(args[1].es, IF Bug = "nostop" THEN 9 ELSE h.n), kw)
                ELSE Exc("TypeError")
           ELSE Run(t, base, Take(args, h.n), kw)
         [] h.w = "splat" ->
           IF Len(args) = 1 /\ kw = <<>> /\ args[1].s THEN Run(t, base, args[1].es, <<>>) ELSE Exc("TypeError")
         [] h.w = "optional" ->
           LET r == Run(t, base, args, kw) IN
           IF r.exc = "" \/ r.exc \in Passing THEN
             (IF Bug = "swallow" /\ r.exc # "" THEN [r EXCEPT !.exc = "", !.val = None] ELSE r)
           ELSE [r EXCEPT !.told = IF h.b THEN Append(@, r.exc) ELSE @, !.val = None, !.exc = ""]
         [] h.w = "trigger" ->
           IF Len(args) > 1 \/ kw # <<>> THEN Exc("TypeError")
           ELSE LET r == Run(t, base, <<>>, <<>>) IN
                IF r.exc # "" THEN r
                ELSE [r EXCEPT !.val = IF args = <<>> THEN None ELSE args[1],
                               !.calls = IF Bug = "twice" THEN @ \o @ ELSE @]
         [] h.w = "pass" -> Run(t, base, args, kw)
         [] h.w = "catch" -> IF h.b /\ Bug # "eager" THEN Ret(Atom(h.v)) ELSE Run(t, base, args, kw)
         [] h.w = "constant" -> Ret(Atom(h.v))
         [] h.w = "zero" -> Ret(None)

\* --- collections
Over2(rows) == [i \in DOMAIN rows |-> Texts(rows[i])]
Nums(n) == [i \in 1..n |-> ToString(i)]
Shared(ss) == {x \in {ss[1][i] : i \in DOMAIN ss[1]} : \A k \in DOMAIN ss : \E i \in DOMAIN ss[k] : ss[k][i] = x}
Disjoint(ss) == [k \in DOMAIN ss |-> SelectSeq(ss[k], LAMBDA x : x \notin Shared(ss))]
In(items, cont) == [i \in DOMAIN items |-> \E j \in DOMAIN cont : cont[j] = items[i]]
AllIn(items, cont) == \A i \in DOMAIN items : In(items, cont)[i]
OddIn(items, cont) == Cardinality({i \in DOMAIN items : In(items, cont)[i]}) % 2 = 1
AnyIn(items, cont) == \E i \in DOMAIN items : In(items, cont)[i]

\* --- laws
WrapNames == {"argstop", "splat", "optional", "trigger", "pass", "catch", "constant", "zero"}
\* the base function is called at most once
AtMostOnce(stack, base, args, kw) == Len(Run(stack, base, args, kw).calls) <= 1
\* with an optional wrapper outermost, nothing but what passes is raised
Safe(stack, base, args, kw) ==
  (stack # <<>> /\ stack[1].w = "optional") => Run(stack, base, args, kw).exc \in {""} \cup Passing
\* what passes always passes if the base function was called
Passes(stack, base, args, kw) ==
  base \in Passing => LET r == Run(stack, base, args, kw) IN (r.calls # <<>> => r.exc = base)
\* pass changes nothing
Neutral(stack, base, args, kw) == Run(<<Wr("pass", 0, FALSE, "")>> \o stack, base, args, kw) = Run(stack, base, args, kw)
\* splatting what was packed
Unpacks(stack, base, args) == Run(<<Wr("splat", 0, FALSE, "")>> \o stack, base, <<Seq1(args)>>, <<>>) = Run(stack, base, args, <<>>)
=============================================================================
