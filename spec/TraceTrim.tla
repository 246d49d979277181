------------------------------ MODULE TraceTrim ------------------------------
(* recorded reading and trimming of labels                                   *)
EXTENDS Trim, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES hist, l
TInit == hist \in 1..Len(Data) /\ l = 1
TheEndings == <<<<69, 78, 68, 13, 10>>, <<0, 0, 0>>>>
\* is the text from i on UTF-8?
RECURSIVE Utf8(_, _)
Utf8(t, i) ==
  IF i > Len(t) THEN TRUE
  ELSE LET b == t[i]
           more == IF b < 128 THEN 0 ELSE IF b \in 194..223 THEN 1 ELSE IF b \in 224..239 THEN 2 ELSE IF b \in 240..244 THEN 3 ELSE 9
           low == IF b = 224 THEN 160 ELSE IF b = 240 THEN 144 ELSE 128
           high == IF b = 237 THEN 159 ELSE IF b = 244 THEN 143 ELSE 191
       IN /\ i + more <= Len(t)
          /\ more > 0 => t[i + 1] \in low..high
          /\ \A k \in 2..more : t[i + k] \in 128..191
          /\ Utf8(t, i + more + 1)
Same(a, b) == a.pad = b.pad /\ a.tail = b.tail
Decoded(e, want) ==
  IF ~Utf8(want.tail, 1) THEN ""
  ELSE IF e.exc # "" THEN "raised " \o e.exc
  ELSE IF ~Same(e.got, want) THEN "wrong text"
  ELSE ""
Clause(e) ==
  LET c == From(e.c, e.skip) IN
  CASE e.fn = "head" -> IF e.exc # "" THEN "raised " \o e.exc ELSE IF ~Same(e.got, Top(c, e.n)) THEN "wrong bytes" ELSE ""
    [] e.fn = "text" -> Decoded(e, Top(c, e.n))
    [] e.fn = "trim" ->
       LET r == Trim(c, e.n) IN
       IF ~r.found /\ e.insist THEN (IF e.exc = "ValueError" \/ (~Utf8(r.c.tail, 1) /\ e.exc # "") THEN "" ELSE "should fail with a ValueError")
       ELSE Decoded(e, r.c)
TNext ==
  LET H == Data[hist] IN
  /\ l <= Len(H.ev)
  /\ UNCHANGED hist
  /\ LET c == Clause(H.ev[l]) IN
     IF c = "" THEN l' = l + 1 /\ (l = Len(H.ev) => PrintT(<<"DONE", hist>>))
     ELSE l' = Len(H.ev) + 2 /\ PrintT(<<"BAD", hist, l, c>>)
TSpec == TInit /\ [][TNext]_<<hist, l>>
=============================================================================
