--------------------------- MODULE FieldMapTrace ---------------------------
(* Events: a list of numbers s (and odd bytes) offered to the reader, whether *)
(* it was refused; if not, what it stores again (pack), its extremes and      *)
(* answers to queries.                                                        *)
EXTENDS FieldMap, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
Holds(e) ==
  IF e.odd = 1 \/ ~Readable(e.s) THEN Say(e.refused, "not refused")
  ELSE LET f == Parse(e.s)
       IN /\ Say(~e.refused, "refused")
          /\ Say(e.pack = Pack(f), <<"stored", Pack(f)>>)
          /\ Say(e.min = Lowest(f) /\ e.max = Highest(f), "extremes")
          /\ \A k \in DOMAIN e.at : Say(At(f, e.at[k][1], e.at[k][2]) = e.at[k][3], <<"at", k>>)
          /\ \A k \in DOMAIN e.pct : Say(Quantile(f, e.pct[k][1], e.pct[k][2]) = e.pct[k][3], <<"quantile", k, Quantile(f, e.pct[k][1], e.pct[k][2])>>)
TInit == i = 0
TNext == i < Len(Trace) /\ Holds(Trace[i + 1]) /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
