------------------------------ MODULE Tracker -------------------------------
(***************************************************************************)
(* Trackers and the log files they share.  A record is a function from     *)
(* field names to tokens; a file is a sequence of dumps, or absent.        *)
(* Tokens starting "!" stand for things that can't be written to a file.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Bug   \* "none" | "rewrite" (a dump replaces the file)
                \* | "touchfirst" (a failing dump ruins the file) | "keepcount"
VARIABLES trk,   \* id -> [name, path, meta, n, hist, paused]
          file,  \* path -> [there, ok, dumps]
          out    \* what the last call gave
vars == <<trk, file, out>>
NoFun == [x \in {} |-> ""]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Absent == [there |-> FALSE, ok |-> TRUE, dumps |-> <<>>]

TrInit == trk = NoFun /\ file = NoFun /\ out = ""
File(p) == IF p \in DOMAIN file THEN file[p] ELSE Absent

New(t, name, path) ==
  /\ trk' = Over(trk, [x \in {t} |-> [name |-> name, path |-> path, meta |-> NoFun,
                                       n |-> 0, hist |-> <<>>, paused |-> FALSE]])
  /\ file' = Over([p \in {path} |-> Absent], file)
  /\ out' = "ok"
\* what the call itself gives takes precedence, then the metadata in force
Record(t, target, caller, lineno, kw) ==
  Over(Over("target" :> target @@ "caller" :> caller @@ "lineno" :> lineno
            @@ "trackcount" :> ToString(trk[t].n + 1), trk[t].meta), kw)
Track(t, target, caller, lineno, kw) ==
  /\ trk' = [trk EXCEPT ![t].n = @ + 1, ![t].hist = Append(@, Record(t, target, caller, lineno, kw))]
  /\ out' = "ok" /\ UNCHANGED file
SetMeta(t, kw) == trk' = [trk EXCEPT ![t].meta = Over(@, kw)] /\ out' = "ok" /\ UNCHANGED file
Pause(t, b) == trk' = [trk EXCEPT ![t].paused = b] /\ out' = "ok" /\ UNCHANGED file
Clear(t) ==
  /\ trk' = [trk EXCEPT ![t].hist = <<>>, ![t].n = IF Bug = "keepcount" THEN @ ELSE 0]
  /\ file' = [file EXCEPT ![trk[t].path] = Absent]
  /\ out' = "ok"
\* is there something in the history that can't be written?
Stuck(t) == \E i \in DOMAIN trk[t].hist : \E k \in DOMAIN trk[t].hist[i] :
              trk[t].hist[i][k] \in {"!o", "!c"}
Dump(t) ==
  LET p == trk[t].path
      d == [name |-> trk[t].name, hist |-> trk[t].hist]
  IN /\ UNCHANGED trk
     /\ IF trk[t].paused THEN out' = "ok" /\ UNCHANGED file
        ELSE IF Stuck(t)
        THEN /\ out' = "EXC:*"
             /\ IF Bug = "touchfirst" THEN file' = [file EXCEPT ![p] = [@ EXCEPT !.there = TRUE, !.ok = FALSE]]
                ELSE UNCHANGED file
        ELSE /\ out' = "ok"
             /\ file' = [file EXCEPT ![p] = [there |-> TRUE, ok |-> @.ok,
                           dumps |-> IF Bug = "rewrite" THEN <<d>> ELSE Append(@.dumps, d)]]

\* --- properties
Valid == \A p \in DOMAIN file : file[p].ok /\ (file[p].there <=> file[p].dumps # <<>>)
Numbered == \A t \in DOMAIN trk : \A i \in DOMAIN trk[t].hist :
              "trackcount" \in DOMAIN trk[t].hist[i] => trk[t].hist[i]["trackcount"] = ToString(i)
Pre(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : b[i] = a[i]
\* histories and files only grow, or are emptied
GrowOnly == [][/\ \A t \in DOMAIN trk : Pre(trk[t].hist, trk'[t].hist) \/ trk'[t].hist = <<>>
               /\ \A p \in DOMAIN file : Pre(file[p].dumps, file'[p].dumps) \/ ~file'[p].there]_vars
\* only one tracker at a time changes
Apart == [][\A t, u \in DOMAIN trk : t # u => trk'[t] = trk[t] \/ trk'[u] = trk[u]]_vars
=============================================================================
