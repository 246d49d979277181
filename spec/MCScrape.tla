------------------------------ MODULE MCScrape ------------------------------
(* files with texts, a few patterns, direct and memoised scraping            *)
EXTENDS Scrape, Json
CONSTANTS Alph, N, Pats, Files, M
VARIABLES text, memo, last
vars == <<text, memo, last>>
None == [x \in {} |-> 0]
Pat(pre, neg, set, q, opt, post) == [pre |-> Chars(pre), neg |-> neg, set |-> set, quant |-> q, opt |-> opt, post |-> Chars(post)]
ThePats == <<Pat("a", TRUE, <<"a">>, "*", FALSE, ""), Pat("", FALSE, <<"1", "-", ",">>, "+", FALSE, ""), Pat("a", TRUE, <<>>, "*?", FALSE, "a"),
             Pat("", FALSE, <<"1">>, "+", TRUE, "a"), Pat("-", FALSE, <<"1", "a">>, "2", FALSE, ""), Pat("'", TRUE, <<"'">>, "+?", FALSE, "'"),
             Pat("", TRUE, <<"a">>, "*", FALSE, ""), Pat("a", FALSE, <<"1", ",">>, "+?", TRUE, "1")>>
Scraped(k, t) == Found(Pats[k], t)
\* the state of a memo: remembered results by (file, pattern)
Init == text = [f \in Files |-> <<>>] /\ memo = None /\ last = <<>>
Key(f, k) == IF Bug = "key" THEN <<0, k>> ELSE <<f, k>>
Ask(f, k) ==
  /\ Cardinality(DOMAIN memo) < M
  /\ memo' = IF Key(f, k) \in DOMAIN memo THEN memo ELSE memo @@ (Key(f, k) :> Scraped(k, text[f]))
  /\ last' = <<f, k, memo'[Key(f, k)]>>
  /\ UNCHANGED text
Write(f, c) == last = <<>> /\ Len(text[f]) < N /\ text' = [text EXCEPT ![f] = Append(@, c)] /\ UNCHANGED <<memo, last>>
Next == \E f \in Files : (\E c \in Alph : Write(f, c)) \/ (\E k \in DOMAIN Pats : M > 0 /\ Ask(f, k))
Spec == Init /\ [][Next]_vars
\* a memoised answer is the direct one
Memoised == last # <<>> => last[3] = Scraped(last[2], text[last[1]])
\* what the scraper gives is the text between occurrences of pre and post, none of them earlier
Starting(p, t, i, n) == StartsAt(t, i, p.pre) /\ StartsAt(t, i + Len(p.pre) + n, p.post)
                        /\ \A c \in 1..n : InClass(p, t[i + Len(p.pre) + c - 1])
Fits(p, n) == n >= Least(p.quant) /\ (p.quant \in {"?", "??"} => n <= 1) /\ (p.quant = "2" => n = 2)
Possible(p, t) == {w \in (1..(Len(t) + 1)) \X (0..Len(t)) : w[1] + Len(p.pre) + w[2] <= Len(t) + 1 /\ Starting(p, t, w[1], w[2]) /\ Fits(p, w[2])}
Left(p, t) == {i \in 1..(Len(t) + 1) : p.opt /\ i + Len(p.pre) <= Len(t) + 1 /\ StartsAt(t, i, p.pre \o p.post)}
Earliest == last = <<>> => \A f \in Files, k \in DOMAIN Pats :
  LET p == Pats[k]  t == text[f]  s == Search(p, t)  W == Possible(p, t)
      at == {w[1] : w \in W} \cup Left(p, t)
  IN /\ s.hit = (at # {})
     /\ s.hit => LET i == CHOOSE i \in at : \A j \in at : i <= j  here == {w \in W : w[1] = i} IN
          /\ s.has = (here # {})
          /\ s.has => \E w \in here : /\ s.g = Slice(t, i + Len(p.pre), i + Len(p.pre) + w[2])
                                      /\ \A u \in here : IF Lazy(p.quant) THEN w[2] <= u[2] ELSE w[2] >= u[2]
\* literals keep their value when written out
Faithful == last = <<>> => \A f \in Files : LET r == Literal(text[f]) IN r.k = "yes" => Literal(Chars(Render(r.v))).v = r.v
\* verbatim or a literal, null only if there is no match or the group takes no part or it says None
Shape == last = <<>> => \A f \in Files, k \in DOMAIN Pats : LET p == Pats[k]  t == text[f]  s == Search(p, t)  r == Found(p, t) IN
  r.any \/ (r.v = Null <=> (~s.has \/ (Verdict(s.g).v = Null /\ Verdict(s.g).k = "yes")))
Shown == (last = <<>> /\ Cardinality(Files) = 1) => PrintT(<<"CALL", ToJson(text[1])>>)
=============================================================================
