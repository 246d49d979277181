------------------------------- MODULE Blocks -------------------------------
(* Raw named blocks of shared memory, and the views processes keep of them.  *)
(* An address names a chunk; a chunk outlives its name for as long as        *)
(* somebody has it open, which is what makes overwriting safe for readers.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Handles, Addresses
VARIABLES name,   \* address -> chunk, 0 if there is no such block
          mem,    \* chunk -> its bytes
          held,   \* handle -> chunk it has open, 0 if none
          last
vars == <<name, mem, held, last>>
view == <<name, mem, held>>

Saw(o, b) == [out |-> o, lst |-> b]
Zeros(n) == [i \in 1..n |-> 0]
Used(nm, hd) == ({nm[a] : a \in DOMAIN nm} \cup {hd[h] : h \in DOMAIN hd}) \ {0}
\* smallest chunk number nobody can see any more
FreeIn(nm, hd) == LET U == Used(nm, hd) IN
                  CHOOSE c \in 1..(Cardinality(U) + 1) :
                     c \notin U /\ \A d \in 1..(c - 1) : d \in U
\* forget the chunks nobody can see any more (keeps states canonical)
Keep(f, nm, hd) == [c \in DOMAIN f \cap Used(nm, hd) |-> f[c]]

BInit == /\ name = [a \in Addresses |-> 0]
         /\ mem = [c \in {} |-> <<>>]
         /\ held = [h \in Handles |-> 0]
         /\ last = Saw("init", <<>>)

Become(nm, hd, f, o) ==
  /\ name' = nm /\ held' = hd /\ mem' = Keep(f, nm, hd) /\ last' = o

\* open a block.  sz is the size the system actually gave, if it made one
Open(h, a, n, sz, create, over) ==
  IF n = 0 /\ create
  THEN last' = Saw("EXC:*", <<>>) /\ UNCHANGED view
  ELSE IF name[a] = 0 /\ ~create
  THEN last' = Saw("EXC:FileNotFoundError", <<>>) /\ UNCHANGED view
  ELSE IF name[a] # 0 /\ ~over
  THEN Become(name, [held EXCEPT ![h] = name[a]], mem, Saw("ok", mem[name[a]]))
  ELSE LET nm0 == [name EXCEPT ![a] = 0]
           c   == FreeIn(nm0, held)
       IN Become([name EXCEPT ![a] = c], [held EXCEPT ![h] = c],
                 (c :> Zeros(sz)) @@ mem, Saw("ok", Zeros(sz)))

\* write through a view
Write(h, off, b) ==
  /\ held[h] # 0
  /\ off + Len(b) <= Len(mem[held[h]])
  /\ mem' = [mem EXCEPT ![held[h]] =
               [i \in DOMAIN @ |-> IF i > off /\ i <= off + Len(b) THEN b[i - off] ELSE @[i]]]
  /\ last' = Saw("ok", <<>>)
  /\ UNCHANGED <<name, held>>

Look(h) == held[h] # 0 /\ last' = Saw("ok", mem[held[h]]) /\ UNCHANGED view

Fetch(a) == /\ last' = IF name[a] = 0 THEN Saw("EXC:FileNotFoundError", <<>>)
                       ELSE Saw("ok", mem[name[a]])
            /\ UNCHANGED view
Exists(a) == /\ last' = Saw(IF name[a] = 0 THEN "no" ELSE "yes", <<>>)
             /\ UNCHANGED view

Delete(a, missingok) ==
  IF name[a] = 0
  THEN last' = Saw(IF missingok THEN "ok" ELSE "EXC:FileNotFoundError", <<>>) /\ UNCHANGED view
  ELSE Become([name EXCEPT ![a] = 0], held, mem, Saw("ok", <<>>))

\* the generic mnemonic: b encoded at a; bad: the encoder raises or gives nothing
Memorize(a, b, existsok, bad) ==
  IF bad \/ b = <<>>
  THEN last' = Saw("EXC:*", <<>>) /\ UNCHANGED view
  ELSE IF name[a] # 0 /\ ~existsok
  THEN last' = Saw("EXC:FileExistsError", <<>>) /\ UNCHANGED view
  ELSE LET nm0 == [name EXCEPT ![a] = 0]
           c   == FreeIn(nm0, held)
       IN Become([name EXCEPT ![a] = c], held, (c :> b) @@ mem, Saw("ok", <<>>))

\* --- properties
\* nobody's open view changes because a name was reused or deleted
ViewsSurvive ==
  [][\A h \in DOMAIN held :
       (held[h] # 0 /\ held'[h] = held[h]) => Len(mem'[held[h]]) = Len(mem[held[h]])]_vars
\* every operation touches at most one name
OneName == [][Cardinality({a \in DOMAIN name : name'[a] # name[a]}) <= 1]_vars
\* two names never share a chunk
Distinct == \A a, b \in DOMAIN name : name[a] # 0 /\ a # b => name[a] # name[b]
NoGarbage == DOMAIN mem = Used(name, held)
FailIsNoop == [][(last'.out \in {"EXC:*", "EXC:FileNotFoundError", "EXC:FileExistsError", "yes", "no"})
                   => UNCHANGED view]_vars
=============================================================================
