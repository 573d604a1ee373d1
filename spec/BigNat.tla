------------------------------- MODULE BigNat -------------------------------
(* Natural and integer arithmetic beyond TLC's 32-bit integers: a natural is *)
(* a little-endian sequence of base-10^4 limbs without trailing zeros.       *)
EXTENDS Integers, Sequences

LOCAL B == 10000

RECURSIVE BNorm(_)
BNorm(s) == IF s = <<>> THEN <<>>
            ELSE IF s[Len(s)] = 0 THEN BNorm(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o BNat(n \div B)

LOCAL At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
LOCAL Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE BCarry(_, _)
(* normalise limbs that may exceed the base *)
BCarry(s, c) ==
  IF s = <<>> THEN BNat(c)
  ELSE LET t == s[1] + c IN <<t % B>> \o BCarry(Tail(s), t \div B)

BAdd(a, b) == BNorm(BCarry([i \in 1..Max2(Len(a), Len(b)) |-> At(a, i) + At(b, i)], 0))

RECURSIVE SumTo(_, _, _, _)
SumTo(a, b, k, i) == IF i > k THEN 0 ELSE At(a, i) * At(b, k + 1 - i) + SumTo(a, b, k, i + 1)
(* limbs: at most 20 products of < 10^8 each fit 32 bits *)
BMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE BNorm(BCarry([k \in 1..(Len(a) + Len(b) - 1) |-> SumTo(a, b, k, 1)], 0))

RECURSIVE BCmpAt(_, _, _)
BCmpAt(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE BCmpAt(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
              ELSE BCmpAt(a, b, Len(a))

RECURSIVE BSubC(_, _, _)
BSubC(a, b, i) == \* a >= b
  IF i > Len(a) THEN <<>>
  ELSE <<At(a, i) - At(b, i)>> \o BSubC(a, b, i + 1)
RECURSIVE BBorrow(_, _)
BBorrow(s, c) ==
  IF s = <<>> THEN <<>>
  ELSE LET t == s[1] - c IN
       IF t < 0 THEN <<t + B>> \o BBorrow(Tail(s), 1) ELSE <<t>> \o BBorrow(Tail(s), 0)
BSub(a, b) == BNorm(BBorrow(BSubC(a, b, 1), 0))

(* integers: <<sign, magnitude>>, sign 0 for zero *)
ZInt(n) == IF n = 0 THEN <<0, <<>>>>
           ELSE IF n > 0 THEN <<1, BNat(n)>> ELSE <<-1, BNat(-n)>>
ZMul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN <<0, <<>>>> ELSE <<x[1] * y[1], BMul(x[2], y[2])>>
ZNeg(x) == <<-x[1], x[2]>>
ZAdd(x, y) ==
  IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
  ELSE IF x[1] = y[1] THEN <<x[1], BAdd(x[2], y[2])>>
  ELSE LET c == BCmp(x[2], y[2]) IN
       IF c = 0 THEN <<0, <<>>>>
       ELSE IF c > 0 THEN <<x[1], BSub(x[2], y[2])>> ELSE <<y[1], BSub(y[2], x[2])>>
ZSub(x, y) == ZAdd(x, ZNeg(y))
ZLe(x, y) == ZSub(x, y)[1] <= 0
ZLt(x, y) == ZSub(x, y)[1] < 0
ZAbs(x) == <<IF x[1] = 0 THEN 0 ELSE 1, x[2]>>
=============================================================================
