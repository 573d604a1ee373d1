-------------------------- MODULE GeneratorsTrace --------------------------
(* Events: "made": a generator called with good parameters, the corners and   *)
(* slip flags of the body; "asked": a table of any parameters, whether it was *)
(* refused.                                                                   *)
EXTENDS Generators, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE

Ellipse(e) ==
  \E l \in {e.corners} : \E st \in {Steps(l)} :
  \E mean \in {FoldLeft(LAMBDA a, b : a + b, 0, st) \div Len(st)} :
     /\ Say(IsEllipse(l, e.Rx, e.Ry), "no ellipse")
     \* the steps vary by a tenth at most, their mean is what was asked for
     /\ Say(\A k \in DOMAIN st : 100 * Abs(st[k] - mean) <= 8 * mean + 300, <<"uneven", mean, st>>)
     /\ Say(IF e.N > 0 THEN 100 * Abs(Len(l) - e.N) <= 200 + 2 * e.N
            ELSE 100 * (Abs(mean - e.dl) - 2) * Len(l) <= (200 + 2 * Len(l)) * e.dl, <<"step", mean, Len(l)>>)
     /\ Say(\A k \in DOMAIN e.slip : ~e.slip[k], "slips")

Holds(e) ==
  IF e.op = "made"
  THEN /\ Say(~e.refused, "refused")
       /\ IF e.gen = "ellipse" THEN Ellipse(e)
          ELSE /\ \E shape \in {Shape(e)} : \E tot \in {Counted(e)} :
                  \E cuts \in {Cuts(e, tot, e.corners, 0, shape)} :
                     /\ Say(cuts # {}, <<"outline", shape>>)
                     /\ Say(\E c \in cuts : SlipsSo(c, shape, e.slip), "slip")
               /\ Say(e.gen = "cylinder" /\ e.N > 0 => Len(e.corners) = e.N, "number")
  ELSE Say(e.refused = ~Meaningful(e.gen, e.t), IF e.refused THEN "refused" ELSE "not refused")
TInit == i = 0
TNext == i < Len(Trace) /\ Holds(Trace[i + 1]) /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
