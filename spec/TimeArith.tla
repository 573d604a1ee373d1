----------------------------- MODULE TimeArith -----------------------------
(* The simulation's clock: exact rational times value/timescale.  A time is  *)
(* a record [v |-> integer, ts |-> positive integer].                        *)
EXTENDS Integers, Sequences, BigNat

IsTime(t) == t.ts >= 1

(* the rational number t stands for, compared by cross multiplication *)
SameTime(a, b) == ZMul(ZInt(a.v), ZInt(b.ts)) = ZMul(ZInt(b.v), ZInt(a.ts))

(* r is exactly a + b *)
IsSum(a, b, r) ==
  ZMul(ZInt(r.v), ZMul(ZInt(a.ts), ZInt(b.ts)))
    = ZMul(ZInt(r.ts), ZAdd(ZMul(ZInt(a.v), ZInt(b.ts)), ZMul(ZInt(b.v), ZInt(a.ts))))

(* r is exactly s + n*d *)
IsSteps(s, d, n, r) ==
  ZMul(ZInt(r.v), ZMul(ZInt(s.ts), ZInt(d.ts)))
    = ZMul(ZInt(r.ts), ZAdd(ZMul(ZInt(s.v), ZInt(d.ts)),
                            ZMul(ZInt(n), ZMul(ZInt(d.v), ZInt(s.ts)))))

(* a is a whole multiple of b.  k is a hint (floor of a/b) for the caller to *)
(* supply; the verdict does not depend on it being right, because only the   *)
(* unique k with 0 <= a - k*b < |b| passes.                                  *)
Hinted(a, b, k) ==
  LET x == ZMul(ZInt(a.v), ZInt(b.ts))
      y == ZMul(ZInt(b.v), ZInt(a.ts))
      rem == ZSub(x, ZMul(ZInt(k), y))
  IN rem[1] >= 0 /\ ZLt(rem, ZAbs(y))
WholeMultiple(a, b, k) ==
  LET x == ZMul(ZInt(a.v), ZInt(b.ts))
      y == ZMul(ZInt(b.v), ZInt(a.ts))
  IN x = ZMul(ZInt(k), y)
MultipleOf(a, b, k) == b.v # 0 /\ WholeMultiple(a, b, k)

(* the same notion for small times, by definition (used to check the above) *)
SmallMultiple(a, b) ==
  b.v # 0 /\ (a.v * b.ts) % (IF b.v > 0 THEN b.v * a.ts ELSE -(b.v * a.ts)) = 0

(* a decimal number num/den, den a power of ten, is held exactly *)
IsDecimal(num, den, r) == SameTime([v |-> num, ts |-> den], r)

(* numbers that no value/timescale holds exactly, as num * 10^-12 with num   *)
(* given as two pieces hi*10^6+lo: |r - x| * 10^8 <= max(1/10, |x|) *)
NearDecimal(sgn, hi, lo, r) ==
  LET x == ZMul(ZInt(sgn), ZAdd(ZMul(ZInt(hi), ZInt(1000000)), ZInt(lo)))
      e12 == ZMul(ZInt(1000000), ZInt(1000000))
      \* |r.v * 10^12 - x * r.ts| * 10^8 <= max(10^11, |x|) * r.ts
      lhs == ZMul(ZAbs(ZSub(ZMul(ZInt(r.v), e12), ZMul(x, ZInt(r.ts)))), ZInt(100000000))
      lim == IF ZLt(ZAbs(x), ZMul(ZInt(100000), ZInt(1000000)))
             THEN ZMul(ZInt(100000), ZInt(1000000)) ELSE ZAbs(x)
  IN ZLe(lhs, ZMul(lim, ZInt(r.ts)))
=============================================================================
