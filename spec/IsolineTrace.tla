---------------------------- MODULE IsolineTrace ----------------------------
(* Events: a field (values z row by row from node x, y with spacing half/2),  *)
(* levels from a in steps of step up to b, all in halves, and either refused  *)
(* or the lines drawn: places in 1/3360.                                      *)
EXTENDS Isoline, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
Levels(e) == {e.a + k * e.step : k \in 0..((e.b - e.a) \div e.step)}
Field(e) == [n \in (0..(e.nx - 1)) \X (0..(e.ny - 1)) |-> e.z[n[2] * e.nx + n[1] + 1]]
Place(e, q) == <<2 * Unit * e.x + e.half * q[1], 2 * Unit * e.y + e.half * q[2]>>
Holds(e) ==
  IF e.step <= 0 \/ e.a > e.b THEN Say(e.refused, "not refused")
  ELSE LET z == Field(e)
           drawn == Proper(Pieces(e.lines))
           have == ToSet(drawn)
           all == {pc \in Cells(e.nx, e.ny) \X Levels(e) : Spots(z, pc[1], pc[2]) # <<>>}
           put(s) == <<Place(e, s[1]), Place(e, s[2])>>
           ch(pc) == LET fits == {d \in Drawings(z, pc[1], pc[2]) : \A m \in DOMAIN Proper(d) : put(Proper(d)[m]) \in have}
                         any == IF fits = {} THEN Drawings(z, pc[1], pc[2]) ELSE fits
                     IN CHOOSE d \in any : \A w \in any : Len(Proper(d)) >= Len(Proper(w))
           want == FoldSet(LAMBDA pc, acc : acc \o LET s == Proper(ch(pc)) IN [m \in DOMAIN s |-> put(s[m])], <<>>, all)
           edge(q) == \/ q[1] = Place(e, <<0, 0>>)[1] \/ q[1] = Place(e, <<Unit * (e.nx - 1), 0>>)[1]
                      \/ q[2] = Place(e, <<0, 0>>)[2] \/ q[2] = Place(e, <<0, Unit * (e.ny - 1)>>)[2]
       IN /\ Say(~e.refused, "refused")
          /\ Say(SameBag(drawn, want),
                 <<"missing", ToSet(want) \ ToSet(drawn), "extra", ToSet(drawn) \ ToSet(want), Len(drawn), Len(want)>>)
          /\ \A k \in DOMAIN e.lines : Say(Len(e.lines[k]) >= 2, "a line of less than two places")
          /\ Say(Generic(z, Levels(e)) => \A k \in DOMAIN e.lines :
                   \/ Head(e.lines[k]) = Last(e.lines[k])
                   \/ edge(Head(e.lines[k])) /\ edge(Last(e.lines[k])), "a line stops inside the field")
TInit == i = 0
TNext == i < Len(Trace) /\ Holds(Trace[i + 1]) /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
