--------------------------- MODULE TimeArithTrace ---------------------------
EXTENDS TimeArith, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
OK(e) ==
  \/ e.op = "dec"   /\ IsTime(e.r) /\ IsDecimal(e.num, e.den, e.r)
  \/ e.op = "near"  /\ IsTime(e.r) /\ NearDecimal(e.sgn, e.hi, e.lo, e.r)
  \/ e.op = "add"   /\ IsTime(e.r) /\ IsSum(e.a, e.b, e.r)
  \/ e.op = "steps" /\ IsTime(e.r) /\ IsSteps(e.a, e.b, e.n, e.r)
  \/ e.op = "div"   /\ (e.b.v = 0 \/ Hinted(e.a, e.b, e.k))
                    /\ (e.r <=> MultipleOf(e.a, e.b, e.k))
  \* one time against a row of others, small enough for plain integers
  \/ e.op = "row"   /\ \A j \in 1..Len(e.bs) :
                         LET b == [v |-> e.bs[j][1], ts |-> e.bs[j][2]]
                             s == [v |-> e.sum[j][1], ts |-> e.sum[j][2]]
                         IN /\ (e.mul[j] = 1) <=> SmallMultiple(e.a, b)
                            /\ s.ts >= 1
                            /\ s.v * e.a.ts * b.ts = s.ts * (e.a.v * b.ts + b.v * e.a.ts)
  \* assignment forms of the problem description language
  \/ e.op = "lua"   /\ IF e.valid THEN e.accepted /\ SameTime(e.want, e.r)
                       ELSE ~ e.accepted /\ e.r = e.before
TInit == i = 0
TNext == i < Len(Trace) /\ OK(Trace[i + 1]) /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
