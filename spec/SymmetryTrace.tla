---------------------------- MODULE SymmetryTrace ----------------------------
(* Pairs of runs of one flow seen two ways, step by step, against Symmetry.  *)
EXTENDS Symmetry, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
TInit == i = 1
Why(T, a, b, tol) ==
  <<"time", b.time = a.time + T.later, "vort", SameParticles(T, a.vort, b.vort, tol), "ink", SameParticles(T, a.ink, b.ink, tol),
    "marker", NearV(VectorS(T, a.marker), b.marker, tol),
    "bodies", [n \in DOMAIN a.bodies |-> SameBody(T, a.bodies[n], b.bodies[T.perm[n]], tol)]>>
TNext == /\ i <= Len(Trace)
         /\ IF SameFlow(e.T, e.here, e.there, e.tol) THEN TRUE ELSE PrintT(Why(e.T, e.here, e.there, e.tol)) /\ FALSE
         /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
