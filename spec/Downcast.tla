------------------------------ MODULE Downcast ------------------------------
(***************************************************************************)
(* Choosing a smaller type for an array of numbers.                        *)
(* Types: [name, kind, lo, hi] and for floats p (digits) and low (the      *)
(* exponent of the smallest positive number), in the order they are tried. *)
(* An element: [t |-> "fin" | "nan" | "inf" | "-inf", x |-> number].       *)
(* Errors are compared with tolerances as the code does it, up to rounding *)
(* of 1 in 2^s: u is the reading, generous, exact or strict.               *)
(* nil: integers may be nullable, with a null for nan (but none for inf).  *)
(***************************************************************************)
EXTENDS Big, FiniteSets, TLC
CONSTANT Bug       \* "none" | "wrap" (does not look at the bounds) | "absolute" (nor at relative errors)
                   \* | "last" (takes the largest type that will do) | "nan" (whole numbers next to nan)
                   \* | "inf" (infinities are nulls, too)
Rng(s) == {s[i] : i \in DOMAIN s}
PowerLess1(k) == Sub(ShiftL(One, k), One)
UInt(n) == [name |-> "uint" \o ToString(n), kind |-> "uint", bits |-> n, lo |-> Zero, hi |-> Num(FALSE, PowerLess1(n), 0), p |-> 0, low |-> 0]
SInt(n) == [name |-> "int" \o ToString(n), kind |-> "int", bits |-> n, lo |-> Num(TRUE, One, n - 1), hi |-> Num(FALSE, PowerLess1(n - 1), 0), p |-> 0, low |-> 0]
\* p digits, largest exponent
Float(n, p, top, low) == LET m == PowerLess1(p) IN
  [name |-> "float" \o ToString(n), kind |-> "float", bits |-> n, lo |-> Num(TRUE, m, top - p), hi |-> Num(FALSE, m, top - p), p |-> p, low |-> low]

Finite(a) == SelectSeq(a, LAMBDA v : v.t = "fin")
Nonzero(a) == SelectSeq(Finite(a), LAMBDA v : ~IsZero(v.x))
Strange(a) == \E i \in DOMAIN a : a[i].t # "fin"
Infinite(a) == \E i \in DOMAIN a : a[i].t \in {"inf", "-inf"}
\* is there something that integers have no room for?
Foreign(a, nil) == Strange(a) /\ (~nil \/ (Bug # "inf" /\ Infinite(a)))
InBounds(T, a) == Bug = "wrap" \/ \A i \in DOMAIN a : CmpNum(T.lo, a[i].x) <= 0 /\ CmpNum(a[i].x, T.hi) <= 0
\* is there room for two extremes, which may be no numbers? (for everything between them, too)
Fits(T, lo, hi) == /\ lo.t = "fin" /\ hi.t = "fin" /\ CmpNum(T.lo, lo.x) <= 0 /\ CmpNum(hi.x, T.hi) <= 0
Max2(a, b) == IF a > b THEN a ELSE b
Cast(T, x) == IF IsZero(x) THEN x
              ELSE IF T.kind = "float" THEN RoundOff(x, Max2(BitLen(x.m) - T.p, T.low - x.e)) ELSE Truncate(x)
Error(T, x) == Dist(x, Cast(T, x))
Reading(s, d) == [one |-> Num(FALSE, One, s), n |-> Num(FALSE, FromNat(2^s + d), 0)]
Exactly == Reading(0, 0)
\* err <= tol * of
Within(err, tol, of, u) == IsZero(err) \/ CmpMag(MulMag(err, u.one), MulMag(MulMag(tol, of), u.n)) <= 0
Whole == Num(FALSE, One, 0)
Close(T, a, atol, rtol, u) == \A i \in DOMAIN a :
  LET err == Error(T, a[i].x) IN Within(err, atol, Whole, u) /\ (Bug = "absolute" \/ Within(err, rtol, a[i].x, u))
Suits(T, a, atol, rtol, u, nil) ==
  /\ (T.kind # "float" /\ Bug # "nan") => ~Foreign(a, nil)
  /\ InBounds(T, Finite(a))
  /\ Close(T, Nonzero(a), atol, rtol, u)
\* the positions in ts of the types that may be chosen for floats of type ts[own]
Choices(ts, own, a, atol, rtol, s, nil) ==
  IF Finite(a) = <<>> THEN {own}
  ELSE {k \in 1..own :
          /\ (k = own \/ Suits(ts[k], a, atol, rtol, Reading(s, 1), nil))
          /\ \A j \in 1..(k - 1) : Bug = "last" \/ ~Suits(ts[j], a, atol, rtol, Reading(s, -1), nil)
          /\ Bug = "last" => \A j \in (k + 1)..(own - 1) : ~Suits(ts[j], a, atol, rtol, Reading(s, 1), nil)}
\* for integers: no errors, the first that has room; unsigned ones only if nothing is negative
IntChoice(ts, a) == {k \in DOMAIN ts :
  /\ ts[k].kind = (IF \E i \in DOMAIN a : CmpNum(a[i].x, Zero) < 0 THEN "int" ELSE "uint")
  /\ InBounds(ts[k], a) /\ \A j \in 1..(k - 1) : ts[j].kind = ts[k].kind => ~InBounds(ts[j], a)}
Result(T, a) == [i \in DOMAIN a |-> IF a[i].t = "fin" THEN [t |-> "fin", x |-> Cast(T, a[i].x)] ELSE a[i]]
SameElement(v, w) == v.t = w.t /\ (v.t = "fin" => Equal(v.x, w.x))
SameArray(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameElement(a[i], b[i])
\* reported largest errors
TrueAbs(T, a, r, u) == LET es == {Error(T, v.x) : v \in Rng(Nonzero(a))} IN
  IF es = {} THEN IsZero(r) ELSE /\ \A e \in es : Within(e, r, Whole, u)
                                 /\ \E e \in es : Within(r, e, Whole, u)
TrueRel(T, a, r, u) == LET vs == Rng(Nonzero(a)) IN
  IF vs = {} THEN IsZero(r) ELSE /\ \A v \in vs : Within(Error(T, v.x), r, v.x, u)
                                 /\ \E v \in vs : Within(MulMag(r, v.x), Error(T, v.x), Whole, u)
=============================================================================
