------------------------------- MODULE Trees --------------------------------
(***************************************************************************)
(* Nested mappings and what is done with them.  A node is                  *)
(*   [k |-> kind, v |-> token, id |-> name, es |-> <<[key, ks, val], ..>>] *)
(* kind "leaf": v is its value.  Others are mappings of some type (or a    *)
(* list, whose contents are never looked into), named by id, with entries  *)
(* in order; ks is the text of a key.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Bug \* "none" | "depthfirst" | "firstnest" | "stale" | "noprefix" | "shallow" | "lastwins"

Leaf(v) == [k |-> "leaf", v |-> v, id |-> "", es |-> <<>>]
Dict(es) == [k |-> "dict", v |-> "", id |-> "new", es |-> es]
Entry(key, ks, val) == [key |-> key, ks |-> ks, val |-> val]
\* which kinds are instances of a type
Kinds(mt) == CASE mt = "dict" -> {"dict", "od", "nd"} [] mt = "od" -> {"od"} [] mt = "nd" -> {"nd"}
               [] mt = "ud" -> {"ud"} [] mt = "Mapping" -> {"dict", "od", "nd", "ud", "mp"}
Isa(n, mts) == \E m \in mts : n.k \in Kinds(m)
IsMapping(n) == n.k \in Kinds("Mapping")
\* how a value found is named
Ref(n) == IF n.k = "leaf" THEN n.v ELSE n.id

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Sel(s, T(_)) == SelectSeq(s, T)

\* --- predicates: [how, ref (set of tokens), val (a token)]
Holds(p, e) ==
  CASE p.how = "key-eq" -> e.key \in p.ref
    [] p.how = "key-ne" -> e.key \notin p.ref
    [] p.how = "key-in" -> e.key \in p.ref
    [] p.how = "val-eq" -> e.val.k = "leaf" /\ e.val.v \in p.ref
    [] p.how = "val-ne" -> ~(e.val.k = "leaf" /\ e.val.v \in p.ref)
    [] p.how = "item-eq" -> e.key \in p.ref /\ e.val.k = "leaf" /\ e.val.v = p.val
    [] p.how = "is-map" -> IsMapping(e.val)
    [] p.how = "is-leaf" -> e.val.k = "leaf"
    [] p.how = "any" -> TRUE
    [] p.how = "none" -> FALSE
\* --- searching: entries found, in order
RECURSIVE DigAll(_, _, _)
DigAll(n, p, mts) ==
  LET here == SelectSeq(n.es, LAMBDA e : Holds(p, e))
      nests == SelectSeq(n.es, LAMBDA e : Isa(e.val, mts))
      below == Flatten([i \in 1..Len(nests) |-> DigAll(nests[i].val, p, mts)])
  IN IF Bug = "depthfirst" THEN below \o here
     ELSE IF Bug = "firstnest" /\ nests # <<>> THEN here \o DigAll(nests[1].val, p, mts)
     ELSE here \o below
\* --- editing in place. setters: [how, v (a token)]
Set(s, e) ==
  CASE s.how = "const" -> Leaf(s.v)
    [] s.how = "same" -> e.val
    [] s.how = "wrap" -> Dict(<<Entry("s'w'", "w", e.val)>>)
    [] s.how = "empty" -> Dict(<<>>)
    [] s.how = "grow" -> Dict(<<Entry("s'b'", "b", Leaf("1")), Entry("s'w'", "w", Leaf("2"))>>)
    [] s.how = "step" -> IF e.key = "s'a'" THEN Dict(<<Entry("s'b'", "b", Leaf("1"))>>) ELSE Leaf("9")
    [] s.how = "key" -> Leaf(e.key)
    [] s.how = "first" -> IF e.val.es # <<>> /\ IsMapping(e.val) THEN e.val.es[1].val ELSE e.val
RECURSIVE Edit(_, _, _, _)
Edit(n, p, s, mts) ==
  LET one(e) == IF Holds(p, e) THEN [e EXCEPT !.val = Set(s, e)] ELSE e
      deep(e) == LET f == one(e) IN
                 IF Isa(IF Bug = "stale" THEN e.val ELSE f.val, mts)
                 THEN [f EXCEPT !.val = Edit(f.val, p, s, mts)] ELSE f
  IN [n EXCEPT !.es = [i \in DOMAIN n.es |-> deep(n.es[i])]]
\* --- flattening. levels: texts of the keys above
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Prefix(levels, esc) ==
  LET j == Join(levels, esc \o "_" \o esc) IN
  IF levels = <<>> \/ j = "" THEN "" ELSE esc \o j \o esc \o "_"
RECURSIVE Leaves(_, _, _, _)
Leaves(n, levels, esc, mts) ==
  Flatten([i \in DOMAIN n.es |->
    LET e == n.es[i] IN
    IF Isa(e.val, mts)
    THEN Leaves(e.val, IF Bug = "noprefix" THEN <<e.ks>> ELSE Append(levels, e.ks), esc, mts)
    ELSE << <<Prefix(levels, esc) \o e.ks, Ref(e.val)>> >>])
\* a mapping made of pairs: the last value for each name
Fun(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |->
              ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k /\ \A j \in DOMAIN ps : ps[j][1] = k => j <= i][2]]
Unnest(n, esc, mts) == Fun(Leaves(n, <<>>, esc, mts))
\* --- records: rows for the mappings that hold something other than mappings
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
NoFun == [x \in {} |-> ""]
RECURSIVE Rows(_, _, _, _)
Rows(n, above, names, depth) ==
  Flatten([i \in DOMAIN n.es |->
    LET e == n.es[i]
        up == Over(above, names[depth] :> e.key)
    IN IF \A j \in DOMAIN e.val.es : IsMapping(e.val.es[j].val)
       THEN Rows(e.val, IF Bug = "noprefix" THEN names[depth] :> e.key ELSE up, names, depth + 1)
       ELSE << Over(Fun([j \in DOMAIN e.val.es |-> <<e.val.es[j].key, Ref(e.val.es[j].val)>>]), up) >>])
\* --- merging, as content: key -> node, without order
Keys(n) == {n.es[i].key : i \in DOMAIN n.es}
At(n, key) == (n.es[CHOOSE i \in DOMAIN n.es : n.es[i].key = key])
RECURSIVE Content(_)
Content(n) == IF n.k = "leaf" THEN <<"leaf", n.v>>
              ELSE <<n.k, [key \in Keys(n) |-> Content(At(n, key).val)]>>
RECURSIVE Merge(_, _, _)
Merge(a, b, mts) ==
  LET ab == SelectSeq(a.es, LAMBDA e : TRUE)
      both(e) == IF e.key \notin Keys(b) THEN e
                 ELSE LET f == At(b, e.key) IN
                      IF Isa(e.val, mts) /\ Isa(f.val, mts) /\ Bug # "shallow"
                      THEN [e EXCEPT !.val = Merge(e.val, f.val, mts)]
                      ELSE IF Bug = "lastwins" THEN e ELSE [e EXCEPT !.val = f.val]
  IN Dict([i \in DOMAIN ab |-> both(ab[i])] \o SelectSeq(b.es, LAMBDA e : e.key \notin Keys(a)))

\* --- what should follow from these, whatever the trees
RECURSIVE Size(_, _)
Sum(f) == FoldSeq(LAMBDA x, y : x + y, 0, f)
Size(n, mts) == Len(n.es) + Sum([i \in DOMAIN n.es |-> IF Isa(n.es[i].val, mts) THEN Size(n.es[i].val, mts) ELSE 0])
RECURSIVE Flats(_, _)
Flats(n, mts) == Sum([i \in DOMAIN n.es |-> IF Isa(n.es[i].val, mts) THEN Flats(n.es[i].val, mts) ELSE 1])
Every == [how |-> "any", ref |-> {}, val |-> ""]
Nothing == [how |-> "none", ref |-> {}, val |-> ""]
Is == [how |-> "is-leaf", ref |-> {}, val |-> ""]
\* every entry once
DigTotal(n, mts) == Len(DigAll(n, Every, mts)) = Size(n, mts)
\* found or not found: nothing in between
DigSplit(n, mts) == \A key \in {"s'a'", "s'b'"} :
  LET P(how) == [how |-> how, ref |-> {key}, val |-> ""] IN
  Len(DigAll(n, P("key-eq"), mts)) + Len(DigAll(n, P("key-ne"), mts)) = Size(n, mts)
\* the top level comes first
DigLevels(n, mts) == SubSeq(DigAll(n, Every, mts), 1, Len(n.es)) = n.es
EditNone(n, mts) == \A how \in {"const", "wrap", "empty"} :
  Edit(n, Nothing, [how |-> how, v |-> "9"], mts) = n /\ Edit(n, Every, [how |-> "same", v |-> ""], mts) = n
\* editing all leaves leaves the shape alone, and edits all of them
EditLeaves(n, mts) == LET m == Edit(n, Is, [how |-> "const", v |-> "9"], mts) IN
  /\ Size(m, mts) = Size(n, mts)
  /\ Len(DigAll(m, [how |-> "val-eq", ref |-> {"9"}, val |-> ""], mts)) = Len(DigAll(n, Is, mts))
\* what an edit puts in is searched as well
EditDeep(n, mts) == LET p == [how |-> "key-eq", ref |-> {"s'a'", "s'b'"}, val |-> ""]
                        m == Edit(n, p, [how |-> "step", v |-> ""], mts)
                    IN {"dict"} \subseteq UNION {Kinds(x) : x \in mts} =>
                       \A i \in DOMAIN DigAll(m, p, mts) : LET e == DigAll(m, p, mts)[i] IN
                          e.val = IF e.key = "s'a'" THEN Dict(<<Entry("s'b'", "b", Leaf("9"))>>) ELSE Leaf("9")
\* no leaf lost or invented (with an escape no key contains)
UnnestAll(n, mts) == Cardinality(DOMAIN Unnest(n, "~", mts)) = Flats(n, mts)
MergeSame(n, mts) == /\ \A m \in {Dict(<<>>)} : /\ Content(Merge(n, m, mts)) = <<"dict", Content(n)[2]>>
                                                 /\ Content(Merge(m, n, mts)) = <<"dict", Content(n)[2]>>
                     /\ "dict" \in mts => Flats(Merge(n, n, mts), mts) = Flats(n, mts)
\* the second one's leaves are all there
RECURSIVE Within(_, _, _)
Within(b, m, mts) == \A i \in DOMAIN b.es : LET e == b.es[i] IN
  /\ e.key \in Keys(m)
  /\ IF Isa(e.val, mts) THEN Isa(At(m, e.key).val, mts \cup {"dict"}) /\ Within(e.val, At(m, e.key).val, mts)
     ELSE Content(At(m, e.key).val) = Content(e.val)
MergeSecond(a, b, mts) == Within(b, Merge(a, b, mts), mts) /\ Keys(Merge(a, b, mts)) = Keys(a) \cup Keys(b)
\* and those of the first one that it doesn't speak of
RECURSIVE Kept(_, _, _, _)
Kept(a, b, m, mts) == \A i \in DOMAIN a.es : LET e == a.es[i] IN
  IF e.key \notin Keys(b) THEN e.key \in Keys(m) /\ Content(At(m, e.key).val) = Content(e.val)
  ELSE (Isa(e.val, mts) /\ Isa(At(b, e.key).val, mts)) => Kept(e.val, At(b, e.key).val, At(m, e.key).val, mts)
MergeFirst(a, b, mts) == Kept(a, b, Merge(a, b, mts), mts)
MergeAssoc(a, b, c, mts) == Content(Merge(Merge(a, b, mts), c, mts)) = Content(Merge(a, Merge(b, c, mts), mts))
=============================================================================
