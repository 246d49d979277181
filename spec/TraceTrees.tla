----------------------------- MODULE TraceTrees -----------------------------
(* recorded calls of the functions that work on nested mappings              *)
EXTENDS Trees, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
TInit == hist \in 1..Len(Data) /\ l = 1
P(e) == [how |-> e.pred.how, ref |-> Range(e.pred.ref), val |-> e.pred.val]
M(e) == Range(e.mts)
\* what of the entries found is returned
Part(e, f) == CASE e.form = "keys" -> f.key [] e.form = "values" -> Ref(f.val)
                [] e.form = "items" -> f.key \o "=" \o Ref(f.val)
Found(e) == LET fs == DigAll(e.root, P(e), M(e)) IN [i \in DOMAIN fs |-> Part(e, fs[i])]
Pairs(ps) == Fun(ps)
RowsOf(e) == Rows(e.root, NoFun, e.names, 1)

\* --- dictionaries that nest by themselves: reading creates, too
RECURSIVE Assign(_, _, _)
New == [k |-> "nd", v |-> "", id |-> "", es |-> <<>>]
Assign(n, path, val) ==   \* val "": only look
  LET key == path[1]
      here == key \in Keys(n)
      m == IF here THEN At(n, key).val ELSE New
      x == IF Len(path) = 1 THEN (IF val = "" THEN m ELSE Leaf(val)) ELSE Assign(m, Tail(path), val)
  IN IF here THEN [n EXCEPT !.es = [i \in DOMAIN n.es |-> IF n.es[i].key = key THEN [n.es[i] EXCEPT !.val = x] ELSE n.es[i]]]
     ELSE [n EXCEPT !.es = Append(@, Entry(key, "", x))]
\* a leaf in the way: can't be entered
RECURSIVE Blocked(_, _)
Blocked(n, path) == /\ Len(path) > 1
                    /\ path[1] \in Keys(n)
                    /\ LET m == At(n, path[1]).val IN m.k = "leaf" \/ Blocked(m, Tail(path))
Nest(ops) == FoldLeft(LAMBDA n, o : IF Blocked(n, o.path) THEN n ELSE Assign(n, o.path, o.val), New, ops)
RECURSIVE Order(_)
\* with order, without names
Order(n) == IF n.k = "leaf" THEN <<"leaf", n.v>>
            ELSE <<"map", [i \in DOMAIN n.es |-> <<n.es[i].key, Order(n.es[i].val)>>]>>
RECURSIVE Plain(_)
Plain(n) == n.k = "leaf" \/ (n.k = "dict" /\ \A i \in DOMAIN n.es : Plain(n.es[i].val))
\* nodes with names, where the untouched ones keep theirs
Edited(e) == Edit(e.root, P(e), [how |-> e.setter.how, v |-> e.setter.v], M(e))
RECURSIVE Bare(_)
Bare(n) == [k |-> n.k, v |-> n.v, id |-> n.id,
            es |-> [i \in DOMAIN n.es |-> [key |-> n.es[i].key, val |-> Bare(n.es[i].val)]]]

Clause(e) ==
  IF e.exc # "" THEN "raised " \o e.exc
  ELSE IF e.fn # "edit" /\ ~e.same THEN "an argument was modified"
  ELSE CASE
    e.fn = "all" -> IF e.none # (Found(e) = <<>>) \/ e.found # Found(e) THEN "found" ELSE ""
    [] e.fn = "one" -> IF e.none # (Found(e) = <<>>)
                       THEN "found or not" ELSE IF ~e.none /\ e.found # <<Found(e)[1]>> THEN "found first" ELSE ""
    [] e.fn = "edit" -> IF ~e.returned THEN "result is not the mapping given"
                        ELSE IF Bare(e.out) # Bare(Edited(e)) THEN "edited" ELSE ""
    [] e.fn = "unnest" -> IF Pairs(e.pairs) # Unnest(e.root, e.esc, M(e)) THEN "flat entries" ELSE ""
    [] e.fn = "records" -> IF [i \in DOMAIN e.rows |-> Pairs(e.rows[i])] # RowsOf(e) THEN "rows" ELSE ""
    [] e.fn = "merge" -> IF Content(e.out) # Content(Merge(e.root, e.other, M(e))) THEN "merged" ELSE ""
    [] e.fn = "nest" -> IF Order(e.out) # Order(Nest(e.ops)) THEN "stored"
                        ELSE IF Order(e.plain) # Order(Nest(e.ops)) THEN "converted"
                        ELSE IF ~Plain(e.plain) THEN "not a plain dict"
                        ELSE ""
Expected(e) == CASE e.fn \in {"all", "one"} -> ToString(Found(e))
    [] e.fn = "edit" -> ToString(Bare(Edited(e)))
    [] e.fn = "unnest" -> ToString(Unnest(e.root, e.esc, M(e)))
    [] e.fn = "records" -> ToString(RowsOf(e))
    [] e.fn = "merge" -> ToString(Content(Merge(e.root, e.other, M(e))))
    [] OTHER -> ToString(Order(Nest(e.ops)))
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     IF Clause(e) = ""
     THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
     ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, e.fn \o ": " \o Clause(e), Expected(e)>>)
TSpec == TInit /\ [][TNext]_<<hist, l>>
=============================================================================
