-------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Naturals of any size as sequences of limbs of LB bits, lowest first and *)
(* without leading zeros, and dyadic numbers [neg, m, e] = +-m * 2^e.      *)
(* (TLC's own integers have 32 bits; a downcast is decided at 2^64.)       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT LB
B == 2^LB
Strip(a) == LET N == {i \in DOMAIN a : a[i] # 0} IN
            IF N = {} THEN <<>> ELSE SubSeq(a, 1, CHOOSE i \in N : \A j \in N : j <= i)
RECURSIVE FromNat(_)
FromNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o FromNat(n \div B)
RECURSIVE ToNat(_)
ToNat(a) == IF a = <<>> THEN 0 ELSE a[1] + B * ToNat(Tail(a))
One == <<1>>
Limb(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
\* -1, 0, 1
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) == IF i > Longer(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                       ELSE LET s == Limb(a, i) + Limb(b, i) + c IN <<s % B>> \o AddFrom(a, b, i + 1, s \div B)
Add(a, b) == AddFrom(a, b, 1, 0)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) == IF i > Len(a) THEN <<>>
                       ELSE LET d == a[i] - Limb(b, i) - c IN
                            <<IF d < 0 THEN d + B ELSE d>> \o SubFrom(a, b, i + 1, IF d < 0 THEN 1 ELSE 0)
Sub(a, b) == Strip(SubFrom(a, b, 1, 0))     \* a >= b
RECURSIVE Times(_, _, _, _)
Times(a, k, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                     ELSE LET p == a[i] * k + c IN <<p % B>> \o Times(a, k, i + 1, p \div B)
RECURSIVE Mul(_, _)
Mul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
             ELSE Strip(Add(Times(a, b[1], 1, 0), <<0>> \o Mul(a, Tail(b))))
Zeros(n) == [i \in 1..n |-> 0]
ShiftL(a, k) == IF a = <<>> THEN <<>> ELSE Strip(Zeros(k \div LB) \o Times(a, 2^(k % LB), 1, 0))
ShiftR(a, k) == LET q == k \div LB  r == 2^(k % LB) IN
                IF q >= Len(a) THEN <<>>
                ELSE Strip([i \in 1..(Len(a) - q) |-> a[i + q] \div r + (Limb(a, i + q + 1) % r) * (B \div r)])
Low(a, k) == LET q == k \div LB IN
             IF q >= Len(a) THEN a ELSE Strip(SubSeq(a, 1, q) \o <<a[q + 1] % 2^(k % LB)>>)
BitLen(a) == IF a = <<>> THEN 0 ELSE (Len(a) - 1) * LB + CHOOSE n \in 1..LB : 2^(n - 1) <= a[Len(a)] /\ a[Len(a)] < 2^n
Odd(a) == a # <<>> /\ a[1] % 2 = 1

\* --- dyadic numbers; magnitudes below
Num(neg, m, e) == [neg |-> neg, m |-> m, e |-> e]
Zero == Num(FALSE, <<>>, 0)
IsZero(x) == x.m = <<>>
\* the first with its exponent lowered to e
At(x, e) == ShiftL(x.m, x.e - e)
Lower(x, y) == IF x.e < y.e THEN x.e ELSE y.e
CmpMag(x, y) ==
  IF IsZero(x) \/ IsZero(y) THEN (IF IsZero(x) /\ IsZero(y) THEN 0 ELSE IF IsZero(x) THEN -1 ELSE 1)
  ELSE LET a == BitLen(x.m) + x.e  b == BitLen(y.m) + y.e IN
       IF a # b THEN (IF a < b THEN -1 ELSE 1) ELSE Cmp(At(x, Lower(x, y)), At(y, Lower(x, y)))
Equal(x, y) == CmpMag(x, y) = 0 /\ (IsZero(x) \/ x.neg = y.neg)
\* -1, 0, 1 for signed numbers
CmpNum(x, y) ==
  IF IsZero(x) /\ IsZero(y) THEN 0
  ELSE LET nx == x.neg /\ ~IsZero(x)  ny == y.neg /\ ~IsZero(y) IN
       IF nx # ny THEN (IF nx THEN -1 ELSE 1) ELSE IF nx THEN CmpMag(y, x) ELSE CmpMag(x, y)
MulMag(x, y) == Num(FALSE, Mul(x.m, y.m), x.e + y.e)
\* |x - y| for x and y of the same sign
Dist(x, y) == IF IsZero(y) THEN Num(FALSE, x.m, x.e) ELSE IF IsZero(x) THEN Num(FALSE, y.m, y.e)
              ELSE LET e == Lower(x, y)  a == At(x, e)  b == At(y, e)
                   IN Num(FALSE, IF Cmp(a, b) >= 0 THEN Sub(a, b) ELSE Sub(b, a), e)
\* nearest multiple of 2^(e + k), to the even one if between two
RoundOff(x, k) ==
  IF k <= 0 THEN x
  ELSE LET q == ShiftR(x.m, k)  r == Low(x.m, k)  c == Cmp(r, ShiftL(One, k - 1))
       IN Num(x.neg, IF c > 0 \/ (c = 0 /\ Odd(q)) THEN Add(q, One) ELSE q, x.e + k)
Truncate(x) == IF x.e >= 0 THEN x ELSE Num(x.neg, ShiftR(x.m, -x.e), 0)
=============================================================================
