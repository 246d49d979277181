----------------------------- MODULE MCDowncast -----------------------------
(* arithmetic against TLC's own, then downcasts among small types           *)
EXTENDS Downcast, Json
CONSTANTS N, Length, Ms, Es
SomeExponents == {-3, 0, 1}
VARIABLES a, at, rt, nil, stage
vars == <<a, at, rt, nil, stage>>
Nat2 == (0..N) \X (0..N)
Arithmetic == \A p \in Nat2 : LET x == p[1]  y == p[2]  X == FromNat(x)  Y == FromNat(y) IN
  /\ ToNat(X) = x /\ ToNat(Add(X, Y)) = x + y /\ ToNat(Mul(X, Y)) = x * y /\ Mul(X, Y) = FromNat(x * y)
  /\ Cmp(X, Y) = (IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1)
  /\ x >= y => Sub(X, Y) = FromNat(x - y)
  /\ y <= 7 => /\ ShiftL(X, y) = FromNat(x * 2^y) /\ ShiftR(X, y) = FromNat(x \div 2^y) /\ Low(X, y) = FromNat(x % 2^y)
  /\ (x > 0 => 2^(BitLen(X) - 1) <= x) /\ x < 2^BitLen(X)
  /\ y \in 1..4 => LET r == RoundOff(Num(FALSE, X, 0), y)  w == 2^y  v == ToNat(r.m) * w IN
        2 * (IF v > x THEN v - x ELSE x - v) <= w /\ ((2 * (IF v > x THEN v - x ELSE x - v) = w) => ToNat(r.m) % 2 = 0)
ASSUME Arithmetic
Toy == <<UInt(2), UInt(3), SInt(2), SInt(4), Float(5, 2, 3, -2), Float(6, 3, 5, -4), Float(7, 5, 8, -8)>>
Own == Len(Toy)
Values == {[t |-> "fin", x |-> Num(n, FromNat(m), e)] : n \in BOOLEAN, m \in Ms, e \in Es} \cup {[t |-> "nan", x |-> Zero], [t |-> "-inf", x |-> Zero]}
Tolerances == {Zero, Num(FALSE, One, -4), Num(FALSE, One, -1)}
Init == stage = 0 /\ a = <<>> /\ at \in Tolerances /\ rt \in Tolerances /\ nil \in BOOLEAN
Next == Len(a) < Length /\ \E v \in Values : a' = Append(a, v) /\ stage' = 1 /\ UNCHANGED <<at, rt, nil>>
Spec == Init /\ [][Next]_vars
Exact(T, v) == Equal(Cast(T, v), v)
Room(T, v) == CmpNum(T.lo, v.x) <= 0 /\ CmpNum(v.x, T.hi) <= 0
Lossless(T, v) == LET e == Error(T, v.x) IN Within(e, at, Whole, Exactly) /\ Within(e, rt, v.x, Exactly)
Judged(C) ==
  LET T0 == Toy[CHOOSE k \in C : TRUE]  R == Result(T0, a)  F == Rng(Finite(a)) IN
  \* the strict and the generous reading are one for these numbers
  /\ Cardinality(C) = 1
  /\ \A i \in DOMAIN a : IF a[i].t = "fin"
       THEN /\ Exact(T0, R[i].x)                                  \* a number of the type
            /\ Within(Dist(a[i].x, R[i].x), at, Whole, Exactly)
            /\ Within(Dist(a[i].x, R[i].x), rt, a[i].x, Exactly)
       ELSE R[i] = a[i] /\ (T0.kind = "float" \/ (nil /\ ~Infinite(a)))
  /\ F # {} =>
     /\ \A v \in F : Room(T0, v)
     \* every earlier type loses something
     /\ \A k \in DOMAIN Toy : (\A c \in C : k < c) =>
          (Strange(a) /\ (~nil \/ Infinite(a)) /\ Toy[k].kind # "float") \/ \E v \in F : ~Room(Toy[k], v) \/ ~Lossless(Toy[k], v)
     \* doing it again changes nothing
     /\ \A k \in C : LET D == Choices(Toy, k, R, Zero, Zero, 4, nil) IN D # {} /\ \A j \in D : j <= k
\* the extremes decide for all
Extremes == LET F == Finite(a) IN F # <<>> => \A k \in DOMAIN Toy :
  \A i, j \in DOMAIN F : (\A m \in DOMAIN F : CmpNum(F[i].x, F[m].x) <= 0 /\ CmpNum(F[m].x, F[j].x) <= 0)
    => (InBounds(Toy[k], F) <=> Fits(Toy[k], F[i], F[j]))
Judge == Judged(Choices(Toy, Own, a, at, rt, 4, nil))
Ints == (a # <<>> /\ \A i \in DOMAIN a : a[i].t = "fin" /\ a[i].x.e >= 0) =>
  LET K == IntChoice(Toy, a) IN \A k \in K : Cardinality(K) = 1 /\ SameArray(Result(Toy[k], a), a)
Shown == (stage = 1 => PrintT(<<"CALL", ToJson([nil |-> nil, a |-> [i \in DOMAIN a |-> [t |-> a[i].t, neg |-> a[i].x.neg, m |-> ToNat(a[i].x.m), e |-> a[i].x.e]],
                                              at |-> IF IsZero(at) THEN 0 ELSE at.e, rt |-> IF IsZero(rt) THEN 0 ELSE rt.e])>>))
=============================================================================
