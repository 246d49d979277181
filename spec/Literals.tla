------------------------------ MODULE Literals ------------------------------
(* texts (sequences of characters) as Python literals: whole numbers,        *)
(* decimal numbers, strings, None, True, False, tuples and lists. A text is  *)
(* a literal ("yes"), is not ("no"), or is of a kind not described ("open"). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Rng(f) == {f[i] : i \in DOMAIN f}
Alphabet == Rng(Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"))
Quotes == {"'", "\""}
Blank == {" ", "\t"}
Breaks == {"\n", "\r"}
RECURSIVE Join(_)
Join(g) == IF g = <<>> THEN "" ELSE IF Len(g) = 1 THEN g[1]
           ELSE LET h == Len(g) \div 2 IN Join(SubSeq(g, 1, h)) \o Join(SubSeq(g, h + 1, Len(g)))
Val(t, s, items) == [t |-> t, s |-> s, items |-> items]
Text(g) == Val("str", Join(g), <<>>)
Null == Val("none", "", <<>>)
RECURSIVE Strip0(_)
Strip0(d) == IF Len(d) > 1 /\ d[1] = "0" THEN Strip0(Tail(d)) ELSE d
RECURSIVE Trim0(_)
Trim0(d) == IF Len(d) > 1 /\ d[Len(d)] = "0" THEN Trim0(SubSeq(d, 1, Len(d) - 1)) ELSE d
At(g, i) == IF i \in DOMAIN g THEN g[i] ELSE ""
\* the first position from i on whose character is not in S
RECURSIVE Over(_, _, _)
Over(g, i, S) == IF At(g, i) \in S THEN Over(g, i + 1, S) ELSE i
Slice(g, i, j) == SubSeq(g, i, j - 1)
No == [k |-> "no", v |-> Null, i |-> 0, num |-> FALSE]
Open == [No EXCEPT !.k = "open"]
Yes(v, i, n) == [k |-> "yes", v |-> v, i |-> i, num |-> n]
Prefix(w) == w \in {"b", "r", "u", "f", "B", "R", "U", "F", "br", "rb", "Br", "bR", "BR", "Rb", "rB", "RB", "fr", "rf", "Fr", "fR", "FR", "Rf", "rF", "RF"}
Alien == {"#", "{", "}", "\\"} \cup Breaks
Number(g, i) ==
  LET j == Over(g, i, Digits)
      dot == At(g, j) = "."
      m == IF dot THEN Over(g, j + 1, Digits) ELSE j
      whole == Slice(g, i, j)
      part == IF dot THEN Slice(g, j + 1, m) ELSE <<>>
      w == IF whole = <<>> THEN <<"0">> ELSE Strip0(whole)
      p == IF part = <<>> THEN <<"0">> ELSE Trim0(part)
  IN IF At(g, m) \in {"e", "E", "j", "J", "x", "X", "o", "O", "b", "B", "_"} THEN Open
     ELSE IF At(g, m) \in Alphabet THEN No
     ELSE IF ~dot THEN
       IF whole[1] = "0" /\ Strip0(whole) # <<"0">> THEN No ELSE Yes(Val("int", Join(w), <<>>), m, TRUE)
     ELSE IF whole = <<>> /\ part = <<>> THEN No
     ELSE IF Len(w) + Len(p) > 15 \/ (w = <<"0">> /\ Len(p) > 4 /\ \A q \in 1..4 : p[q] = "0") THEN Open
     ELSE Yes(Val("float", Join(w) \o "." \o Join(p), <<>>), m, TRUE)
\* adjacent strings are one
RECURSIVE String(_, _, _)
String(g, i, sofar) ==
  LET q == g[i]  j == Over(g, i + 1, Rng(g) \ {q, "\\"} ) IN
  IF At(g, j) = "\\" THEN Open
  ELSE IF \E c \in DOMAIN g : i < c /\ c < j /\ g[c] \in Breaks THEN No
  ELSE IF j > Len(g) THEN No
  ELSE IF j = i + 1 /\ At(g, j + 1) = q THEN Open
  ELSE LET s == sofar \o Slice(g, i + 1, j)  k == Over(g, j + 1, Blank)  w == Over(g, k, Alphabet) IN
       IF At(g, k) \in Quotes THEN String(g, k, s)
       ELSE IF At(g, w) \in Quotes /\ Prefix(Join(Slice(g, k, w))) THEN Open
       ELSE Yes(Text(s), j + 1, FALSE)
Word(g, i) ==
  LET j == Over(g, i, Alphabet \cup Digits)  w == Join(Slice(g, i, j)) IN
  IF w \in {"True", "False"} THEN Yes(Val("bool", w, <<>>), j, FALSE)
  ELSE IF w = "None" THEN Yes(Null, j, FALSE)
  ELSE IF w = "set" \/ (At(g, j) \in Quotes /\ Prefix(w)) THEN Open
  ELSE No
Negated(v) == IF v.t = "int" /\ v.s = "0" THEN v ELSE [v EXCEPT !.s = "-" \o @]
RECURSIVE Item(_, _), Items(_, _, _, _)
Item(g, i0) ==
  LET i == Over(g, i0, Blank)  c == At(g, i) IN
  IF c = "" THEN No
  ELSE IF c \in {"+", "-"} THEN
    LET r == Item(g, i + 1) IN
    IF r.k # "yes" THEN r ELSE IF ~r.num THEN No
    ELSE [r EXCEPT !.num = FALSE, !.v = IF c = "-" THEN Negated(@) ELSE @]
  ELSE IF c \in Digits \/ (c = "." /\ At(g, i + 1) \in Digits) THEN Number(g, i)
  ELSE IF c \in Quotes THEN String(g, i, <<>>)
  ELSE IF c \in Alphabet THEN Word(g, i)
  ELSE IF c = "(" THEN Items(g, i + 1, ")", <<>>)
  ELSE IF c = "[" THEN Items(g, i + 1, "]", <<>>)
  ELSE IF c \in Alien THEN Open ELSE No
\* items separated by commas up to a closing bracket, or up to the end (close = "")
Items(g, i, close, sofar) ==
  LET e == Over(g, i, Blank)
      kind == IF close = "]" THEN "list" ELSE "tuple"
  IN IF At(g, e) = close /\ (close # "" \/ sofar # <<>>) THEN Yes(Val(kind, "", sofar), e + 1, FALSE)
     ELSE LET r == Item(g, i) IN
       IF r.k # "yes" THEN r
       ELSE LET j == Over(g, r.i, Blank)  more == Append(sofar, r.v) IN
         IF At(g, j) = close THEN
            IF kind = "tuple" /\ Len(more) = 1 THEN Yes(r.v, j + 1, r.num) ELSE Yes(Val(kind, "", more), j + 1, FALSE)
         ELSE IF At(g, j) = "," THEN Items(g, j + 1, close, more)
         ELSE IF At(g, j) \in Alien THEN Open
         ELSE IF At(g, j) \in {"+", "-"} /\ \E q \in DOMAIN g : g[q] \in {"j", "J"} THEN Open
         ELSE No
\* breaks at the end of a text don't matter
RECURSIVE Chop(_)
Chop(g) == IF g # <<>> /\ g[Len(g)] \in Breaks THEN Chop(SubSeq(g, 1, Len(g) - 1)) ELSE g
Literal(g) == LET r == Items(Chop(g), 1, "", <<>>) IN IF r.k = "yes" THEN r ELSE IF r.k = "open" THEN Open ELSE No
\* text of a value
RECURSIVE Render(_), RenderAll(_)
Render(v) ==
  CASE v.t = "none" -> "None"
    [] v.t = "str" -> "'" \o v.s \o "'"
    [] v.t = "list" -> "[" \o RenderAll(v.items) \o "]"
    [] v.t = "tuple" -> "(" \o RenderAll(v.items) \o (IF Len(v.items) = 1 THEN ",)" ELSE ")")
    [] OTHER -> v.s
RenderAll(vs) == IF vs = <<>> THEN "" ELSE Render(vs[1]) \o (IF Len(vs) > 1 THEN ", " \o RenderAll(Tail(vs)) ELSE "")
=============================================================================
