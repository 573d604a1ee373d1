---------------------------- MODULE TimeArithMC ----------------------------
(* A model of a clock: starts anywhere in a small grid of fractions, is      *)
(* advanced step by step, and is asked which times are multiples of a period.*)
(* Checks that the specification of the clock is the arithmetic users expect.*)
EXTENDS TimeArith, FiniteSets
CONSTANTS MaxV, MaxTs, MaxN
VARIABLES start, dt, per, now, n, hits
vars == <<start, dt, per, now, n, hits>>
T == [v : -MaxV..MaxV, ts : 1..MaxTs]

\* the canonical sum, as any correct implementation may return it
Sum(a, b) == [v |-> a.v * b.ts + b.v * a.ts, ts |-> a.ts * b.ts]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Reduce(t) == LET g == Gcd(Abs(t.v), t.ts) IN [v |-> t.v \div g, ts |-> t.ts \div g]
FloorDiv(a, b) == \* floor of (a.v/a.ts)/(b.v/b.ts)
  LET y == b.v * a.ts IN IF y = 0 THEN 0 ELSE
  IF y > 0 THEN (a.v * b.ts) \div y ELSE -((a.v * b.ts) \div (-y))

Init == /\ start \in T /\ dt \in {t \in T : t.v > 0} /\ per \in {t \in T : t.v >= 0}
        /\ now = start /\ n = 0 /\ hits = 0
Next == /\ n < MaxN
        /\ now' = Reduce(Sum(now, dt))
        /\ n' = n + 1
        /\ hits' = hits + (IF SmallMultiple(now, per) THEN 1 ELSE 0)
        /\ UNCHANGED <<start, dt, per>>

\* no drift: the n-th time is start + n*dt
NoDrift == IsSteps(start, dt, n, now)
SumOK == IsSum(now, dt, Sum(now, dt)) /\ IsSum(now, dt, Reduce(Sum(now, dt)))
SumSharp == ~ IsSum(now, dt, [Sum(now, dt) EXCEPT !.v = @ + 1])
MultipleAgrees == SmallMultiple(now, per) <=> MultipleOf(now, per, FloorDiv(now, per))
HintUnique == per.v > 0 =>
   /\ Hinted(now, per, FloorDiv(now, per))
   /\ ~ Hinted(now, per, FloorDiv(now, per) + 1)
   /\ ~ Hinted(now, per, FloorDiv(now, per) - 1)
\* adding the period never changes membership
Periodic == SmallMultiple(now, per) => SmallMultiple(Sum(now, per), per)
=============================================================================
