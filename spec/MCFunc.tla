------------------------------- MODULE MCFunc -------------------------------
(* all stacks of wrappers up to a depth with all arguments up to a bound     *)
EXTENDS Func, Json
CONSTANTS Depth
VARIABLES c
Wraps == {Wr("argstop", n, b, "") : n \in 0..2, b \in BOOLEAN}
         \cup {Wr(w, 0, FALSE, "") : w \in {"splat", "trigger", "pass"}}
         \cup {Wr("optional", 0, b, "") : b \in BOOLEAN} \cup {Wr("catch", 0, b, "dflt") : b \in BOOLEAN}
         \cup {Wr("constant", 0, FALSE, "cst"), Wr("zero", 0, FALSE, "")}
RECURSIVE Stacks(_)
Stacks(d) == IF d = 0 THEN {<<>>} ELSE {<<>>} \cup {<<w>> \o s : w \in Wraps, s \in Stacks(d - 1)}
P == Seq1(<<Atom("1"), Atom("2"), Seq1(<<Atom("3")>>)>>)
Args == {<<>>, <<Atom("1")>>, <<P>>, <<Seq1(<<>>)>>, <<Atom("1"), Atom("2"), Atom("3")>>, <<P, Atom("1")>>,
         <<Seq1(<<Seq1(<<Atom("5"), Atom("6")>>)>>)>>}
Kws == {<<>>, <<<<"k", "7">>>>}
Init == /\ c \in [stack : Stacks(Depth), base : {"", "ValueError", "KeyboardInterrupt"}, args : Args, kw : Kws]
        /\ PrintT(<<"CALL", ToJson(c)>>)
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Once == AtMostOnce(c.stack, c.base, c.args, c.kw)
SafeOpt == Safe(c.stack, c.base, c.args, c.kw)
PassOn == Passes(c.stack, c.base, c.args, c.kw)
Stops == \A n \in 0..2 : c.stack # <<>> /\ c.stack[1] = Wr("argstop", n, TRUE, "") /\ Len(c.args) = 1 /\ c.args[1].s
           => Run(c.stack, c.base, c.args, c.kw) = Run(Tail(c.stack), c.base, Take(c.args[1].es, n), c.kw)
Preempts == (c.stack # <<>> /\ c.stack[1].w = "catch" /\ c.stack[1].b) => Run(c.stack, c.base, c.args, c.kw).calls = <<>>
PassNeutral == Neutral(c.stack, c.base, c.args, c.kw)
SplatUnpacks == Unpacks(c.stack, c.base, c.args)
=============================================================================
