------------------------------- MODULE MCTrim -------------------------------
EXTENDS Trim, FiniteSets, TLC, Json
CONSTANTS Pieces, N, Pads
VARIABLES c, n
TheEndings == <<<<69, 78, 68, 13, 10>>, <<0, 0, 0>>>>
ThePieces == {<<69, 78, 68, 13, 10>>, <<69, 78, 68>>, <<13, 10>>, <<69>>, <<0>>, <<0, 0>>, <<10>>, <<65>>}
\* contents grow piece by piece; n counts the pieces
Init == c \in {[pad |-> p, tail |-> <<>>] : p \in Pads} /\ n = 0
Next == n < N /\ \E p \in Pieces : c' = [c EXCEPT !.tail = @ \o p] /\ n' = n + 1
Spec == Init /\ [][Next]_<<c, n>>
Byte(d, i) == IF i <= d.pad THEN 65 ELSE d.tail[i - d.pad]
IsStart(d, e) == Length(d) <= Length(e) /\ \A i \in 1..Length(d) : Byte(d, i) = Byte(e, i)
Ends(d, e) == Length(d) >= Len(e) /\ \A k \in DOMAIN e : Byte(d, Length(d) - Len(e) + k) = e[k]
\* ends of the occurrences of e in d: positions up to which d ends with e
Stops(d, e) == {i \in 1..Length(d) : Ends(Top(d, i), e)}
Right == \A lim \in 0..(Length(c) + 1) :
  LET r == Trim(c, lim)  cut == Least(lim, Length(c)) IN
  /\ IsStart(r.c, c) /\ Length(r.c) <= lim
  /\ ~r.found => Length(r.c) = cut /\ \A k \in DOMAIN Endings : \A i \in Stops(c, Endings[k]) : i > cut
  /\ r.found => \E k \in DOMAIN Endings :
       /\ Ends(r.c, Endings[k])
       /\ \A i \in Stops(c, Endings[k]) : i >= Length(r.c)
       /\ \A j \in 1..(k - 1) : \A i \in Stops(c, Endings[j]) : i > cut
\* more room never takes an ending away, and what was trimmed is its own trimming
Stable == \A lim \in 0..Length(c) : LET r == Trim(c, lim) IN
  r.found => Trim(c, lim + 1).found /\ Trim(r.c, Length(r.c)) = r
Parts == \A k \in 0..Length(c) : Length(Top(c, k)) + Length(From(c, k)) = Length(c)
                                 /\ \A i \in (k + 1)..Length(c) : Byte(From(c, k), i - k) = Byte(c, i)
Shown == PrintT(<<"CALL", ToJson(c.tail)>>)
=============================================================================
