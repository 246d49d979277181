------------------------------ MODULE TraceFunc -----------------------------
EXTENDS Func, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
Set(s) == {s[i] : i \in DOMAIN s}
TInit == hist \in 1..Len(Data) /\ l = 1
R(e) == Run(e.stack, e.base, e.args, e.kw)
Hit(e) == {i \in DOMAIN e.els : e.els[i] \in Set(e.yes)}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
Rows(e) == LET n == CHOOSE n \in {Len(e.ms[i]) : i \in DOMAIN e.ms} : \A i \in DOMAIN e.ms : n <= Len(e.ms[i])
           IN [i \in 1..n |-> "ret[" \o Commas([k \in DOMAIN e.ms |-> e.ms[k][i]]) \o "|]"]
Want(e) ==
  CASE e.fn = "naturals" -> Nums(e.n)
    [] e.fn = "are_in" -> <<IF (IF e.how = "or" THEN AnyIn(e.els, e.yes) ELSE IF e.how = "xor" THEN OddIn(e.els, e.yes) ELSE AllIn(e.els, e.yes)) THEN "True" ELSE "False">>
    [] e.fn = "is_it" -> <<IF e.kind \in Set(e.yes) THEN "True" ELSE "False">>
    [] e.fn = "gmap" -> Rows(e)
    [] e.fn = "filtern" -> IF Hit(e) = {} THEN <<"EXC:StopIteration">> ELSE <<e.els[Least(Hit(e))]>>
    [] OTHER -> <<>>
Clause(e) ==
  CASE e.fn = "call" ->
         IF e.calls # R(e).calls THEN "calls of the wrapped function"
         ELSE IF e.told # R(e).told THEN "what the callback is told"
         ELSE IF e.exc # R(e).exc THEN "how it ends"
         ELSE IF e.exc = "" /\ e.out # <<Text(R(e).val)>> THEN "result"
         ELSE ""
    [] e.fn = "intersection" -> IF e.exc # "" \/ Set(e.out) # Shared(e.ms) \/ Len(e.out) # Cardinality(Shared(e.ms)) THEN "result" ELSE ""
    [] e.fn = "disjoint" -> IF e.exc # "" \/ e.outs # Disjoint(e.ms) THEN "result" ELSE ""
    [] OTHER -> IF e.exc # "" THEN "raised " \o e.exc ELSE IF e.out # Want(e) THEN "result" ELSE ""
Expected(e) == CASE e.fn = "call" -> ToString(R(e)) [] e.fn = "disjoint" -> ToString(Disjoint(e.ms))
                 [] e.fn = "intersection" -> ToString(Shared(e.ms)) [] OTHER -> ToString(Want(e))
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET e == H.ev[l] IN
     IF Clause(e) = ""
     THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
     ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, e.fn \o ": " \o Clause(e), Expected(e)>>)
TSpec == TInit /\ [][TNext]_<<hist, l>>
=============================================================================
