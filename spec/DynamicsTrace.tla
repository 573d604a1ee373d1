---------------------------- MODULE DynamicsTrace ----------------------------
(* Solutions found by the code, against the equations.                       *)
(*   circulation, motion: a flow as in Dynamics, with the solution           *)
(*   kelvin: a step of a whole run; per body the circulation placed, twice   *)
(*           area times turning now and at the previous step, the absorbed   *)
(*           circulation (units of 1e-7)                                     *)
EXTENDS Dynamics, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i

KelvinRun(e) ==
  LET tot(k) == e.placed[k] + e.turn[k]
  IN \A n \in 1..Len(e.placed) :
       IF n = 1 THEN Near0(SumD(tot, Len(e.placed)) + e.free + e.infg, 300)
       ELSE Near0(tot(n) - e.dead[n] - e.was[n], 100)

Holds(e) ==
  CASE e.op = "circulation" -> Circulation(e) /\ \A k \in DOMAIN e.bodies : Tight(e.bodies[k])
    [] e.op = "motion" -> Motion(e)
    [] e.op = "kelvin" -> KelvinRun(e)

(* which equations fail, to explain a rejection *)
Failing(e) ==
  {<<n, x>> \in (1..Len(e.bodies)) \X {"fx", "fy", "fo", "nx", "ny", "no", "jx", "jy", "jo"} :
     ~CASE x = "fx" -> ForceX(e, e.bodies[n]) [] x = "fy" -> ForceY(e, e.bodies[n]) [] x = "fo" -> Moment(e, e.bodies[n])
        [] x = "nx" -> NewtonX(e, n) [] x = "ny" -> NewtonY(e, n) [] x = "no" -> NewtonO(e, n)
        [] x = "jx" -> Joint(e, n, 1) [] x = "jy" -> Joint(e, n, 2) [] x = "jo" -> Joint(e, n, 3)}
Explained(e) == IF Holds(e) THEN TRUE ELSE e.op = "motion" /\ PrintT(<<"failing", Failing(e)>>) /\ FALSE

TInit == i = 1
TNext == i <= Len(Trace) /\ Explained(Trace[i]) /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
