------------------------------ MODULE Dynamic -------------------------------
(***************************************************************************)
(* Dynamic functions: source -> code -> function, and what calls of them   *)
(* do.  A function is <<version, tag>>: which source it was made from and  *)
(* in which globals it runs; None is <<"none", "">>.  The source "bad" and *)
(* "empty" can't be compiled (no function in it).                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Bug \* "none" | "keepflags" | "oldsource" | "stickyopt" | "shared" | "recordall"
VARIABLES dyn,   \* id -> [src, glob, code, func, errs, cfail, kfail, opt, loc, want]
          out
vars == <<dyn, out>>
Nil == <<"none", "">>
NoDyn == [x \in {} |-> Nil]
Bad == {"bad", "empty", "none"}
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Report(cat, exc, func) == [cat |-> cat, exc |-> exc, func |-> func]
\* how a call of version v with a given shape of arguments and payload ends:
\* "" if it returns, the exception otherwise
Takes(v, how) == CASE how = "one" -> TRUE
                   [] how = "two" -> v \in {"v2", "v4", "h2"}
                   [] how = "kw" -> v \in {"v3", "h1"}
Pay(x) == CASE x = "fine" -> ""
            [] x = "val" -> "ValueError"  [] x = "key" -> "KeyError"
            [] x = "stop" -> "StopIteration" [] x = "kbd" -> "KeyboardInterrupt"
            [] x \in {"exit", "exit0", "exitnone"} -> "SystemExit" [] x = "own" -> "Own" [] x = "deep" -> "ZeroDivisionError"
Ends(v, how, x) == IF ~Takes(v, how) THEN "TypeError" ELSE Pay(x)
Passing == {"KeyboardInterrupt", "SystemExit"}

DInit == dyn = NoDyn /\ out = ""
\* --- the parts of loading, as functions of a record d; each gives <<d', outcome>>
Compile(d, again) ==
  IF ~again /\ d.code # Nil THEN <<d, "EXC:AlreadyLoadedError">>
  ELSE IF d.src \in Bad
  THEN <<[d EXCEPT !.errs = Append(@, Report("compile", "*", Nil)), !.kfail = TRUE], "ok">>
  ELSE <<[d EXCEPT !.code = <<d.src, "">>], "ok">>
Define(d, again) ==
  IF ~again /\ d.func # Nil THEN <<d, "EXC:AlreadyLoadedError">>
  ELSE IF d.code = Nil THEN <<d, "?">>          \* nothing to define: any outcome
  ELSE LET f == <<d.code[1], d.glob>> IN
       <<[d EXCEPT !.func = IF Bug = "oldsource" /\ d.func # Nil THEN @ ELSE f, !.want = f], "ok">>
Loaded(d, again) ==
  IF ~again /\ d.func # Nil THEN <<d, "EXC:AlreadyLoadedError">>
  ELSE LET c == Compile(d, again) IN IF c[2] # "ok" THEN c ELSE Define(c[1], again)
Blank(src, glob, opt, loc) ==
  [src |-> src, glob |-> glob, code |-> Nil, func |-> Nil, errs |-> <<>>,
   cfail |-> FALSE, kfail |-> FALSE, opt |-> opt, loc |-> loc, want |-> Nil]

Put(i, d) == dyn' = Over(dyn, [x \in {i} |-> d])
New(i, src, glob, opt, lazy, loc) ==
  LET b == Blank(src, glob, opt, loc)
      r == IF lazy THEN <<b, "ok">> ELSE Loaded(b, FALSE)
  IN /\ IF r[2] = "ok" THEN Put(i, r[1])
        ELSE UNCHANGED dyn              \* no object came of it
     /\ out' = r[2]
FromFunction(i, v, glob, opt, loc) ==
  /\ Put(i, [Blank(v, IF glob = "" THEN "host" ELSE glob, opt, loc) EXCEPT
               !.code = <<v, "">>, !.func = <<v, "host">>, !.want = <<v, "host">>])
  /\ out' = "ok"
Step(i, r) == dyn' = [dyn EXCEPT ![i] = r[1]] /\ out' = r[2]
DoCompile(i, again) == Step(i, Compile(dyn[i], again))
DoDefine(i, again) == Step(i, Define(dyn[i], again))
DoLoad(i, again) == Step(i, Loaded(dyn[i], again))
Unload(i) == Step(i, <<[dyn[i] EXCEPT !.code = Nil, !.func = Nil, !.want = Nil, !.errs = <<>>,
                          !.cfail = IF Bug = "keepflags" THEN @ ELSE FALSE, !.kfail = FALSE], "ok">>)
SetSrc(i, s) == Step(i, <<[dyn[i] EXCEPT !.src = s], "ok">>)
SetOpt(i, b) == Step(i, <<[dyn[i] EXCEPT !.opt = b], "ok">>)
SetLoc(i, b) == Step(i, <<[dyn[i] EXCEPT !.loc = b], "ok">>)
\* o: "" use the default, "yes", "no"
Call(i, how, x, o) ==
  LET d == dyn[i]
      l == IF d.func # Nil THEN <<d, "ok">>
           ELSE IF d.loc THEN Loaded(d, FALSE) ELSE <<d, "EXC:UnreadyError">>
      e == l[1]
      opt == IF o = "" THEN e.opt ELSE o = "yes"
      ends == Ends(e.func[1], how, x)
      caught == opt /\ ends # "" /\ ends \notin Passing
      rep == Report("call", ends, e.func)
      f == IF caught \/ (Bug = "recordall" /\ ends # "")
           THEN [e EXCEPT !.errs = Append(@, rep), !.cfail = TRUE] ELSE e
      g == IF Bug = "stickyopt" /\ o # "" THEN [f EXCEPT !.opt = opt] ELSE f
  IN IF l[2] # "ok" THEN Step(i, l)
     ELSE /\ dyn' = IF Bug = "shared" /\ caught
                    THEN [j \in DOMAIN dyn |-> IF j = i THEN g ELSE [dyn[j] EXCEPT !.errs = Append(@, rep)]]
                    ELSE [dyn EXCEPT ![i] = g]
          /\ out' = IF ends = "" THEN "ret:" \o e.func[1] \o "/" \o e.func[2]
                    ELSE IF caught THEN "ret:None" ELSE "EXC:" \o ends

\* --- properties
Cats(d) == {d.errs[k].cat : k \in DOMAIN d.errs}
\* flags say what the reports say
Flags == \A i \in DOMAIN dyn : /\ dyn[i].cfail <=> "call" \in Cats(dyn[i])
                               /\ dyn[i].kfail <=> "compile" \in Cats(dyn[i])
\* what runs is what was last loaded
LastLoaded == \A i \in DOMAIN dyn : dyn[i].func = dyn[i].want
\* only one instance changes at a time
Apart == [][\A i, j \in DOMAIN dyn : i # j => dyn'[i] = dyn[i] \/ dyn'[j] = dyn[j]]_vars
\* calls leave the settings alone
Settings == [][\A i \in DOMAIN dyn : /\ out' \in {"ret:None", "EXC:ValueError", "EXC:KeyboardInterrupt"}
                 => dyn'[i].opt = dyn[i].opt]_vars
\* what is raised is not recorded
Raised == [][\A i \in DOMAIN dyn : out' \in {"EXC:ValueError", "EXC:KeyboardInterrupt"}
                 => dyn'[i].errs = dyn[i].errs]_vars
=============================================================================
