----------------------------- MODULE FiltersTrace -----------------------------
(* What the real filters printed.  Numbers printed are in 1/sc of the table's *)
(* units.                                                                     *)
EXTENDS Filters, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
TInit == i = 1
(* f is out/sc, to the last unit and six digits *)
IsF(out, f) == AbsF(out * f[2] - e.sc * f[1]) <= f[2] + (AbsF(f[1] * e.sc)) \div 300000
SameOthers == \A k \in DOMAIN e.out : e.out[k].others = e.others[IF e.name = "drv" THEN k + 1 ELSE k]
Right ==
  CASE e.name = "avg"   -> Len(e.out) = 1 /\ IsF(e.out[1].v, Average(e.t, e.range))
    [] e.name = "sd"    -> Len(e.out) = 1 /\ LET V == Variance(e.t, e.range)
                                          IN e.out[1].v >= 0 /\ AbsF(e.out[1].v * e.out[1].v * V[2] - e.sc * e.sc * V[1]) <= (2 * e.out[1].v + 1) * V[2]
    [] e.name = "drv"   -> LET D == Differences(e.t) IN Len(e.out) = Len(D) /\ \A k \in DOMAIN D : IsF(e.out[k].v, <<D[k], e.div>>)
    [] e.name = "mavg"  -> LET S == Smoothed(e.t, e.span) IN Len(e.out) = Len(S) /\ \A k \in DOMAIN S : IsF(e.out[k].v, S[k])
    [] e.name = "zeros" -> LET Z == Zeros(e.t, e.range) IN Len(e.out) = Len(Z) /\ \A k \in DOMAIN Z : IsF(e.out[k].v, Z[k])
    [] e.name = "ampl"  -> Len(e.out) = 1 /\ IsF(e.out[1].v, Amplitude(e.t, e.range, e.span))
TNext == /\ i <= Len(Trace)
         /\ Right /\ (e.name \in {"drv", "mavg"} => SameOthers)
         /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
