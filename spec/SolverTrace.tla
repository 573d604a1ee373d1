---------------------------- MODULE SolverTrace ----------------------------
(* Events: what was done to the real solver and what it answered; or the      *)
(* unknowns of one and the same flow found by the solver used all along and   *)
(* by a new one.                                                              *)
EXTENDS Solver, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE

Regular(e, m) == IF Len(m) <= 4 THEN Det(m) # 0 ELSE e.regular
Abs(x) == IF x < 0 THEN -x ELSE x
Do(e) ==
  CASE e.op = "new" -> s' = Empty
    [] e.op = "resize" -> s' = Resize(s, e.n)
    [] e.op = "fill" -> s' = Fill(s, e.bind, e.m, e.r)
    [] e.op = "wipe" -> s' = Wipe(s)
    [] e.op = "right" -> s' = Right(s, e.r)
    [] e.op = "change" -> s' = Change(s, e.row, e.col, e.x)
    [] e.op = "solve" ->
         IF ~s.filled \/ ~Regular(e, s.m)
         THEN Say(e.failed, "a solution of nothing") /\ Say(Allowed(s, e.still), "says it is filled") /\ s' = s
         ELSE /\ Say(~e.failed, "it failed")
              /\ \E x \in {[k \in 1 .. s.n |-> e.vars[s.bind[k] + 1]]} : Say(Solves(s.m, x, s.r), <<"not a solution of", s.m, s.r>>)
              /\ \A v \in DOMAIN e.vars \ {s.bind[k] + 1 : k \in DOMAIN s.bind} : Say(e.vars[v] = 12345, <<"wrote variable", v - 1>>)
              /\ Say(Allowed(s, e.still), "says it is filled")
              /\ s' = After(s, e.still)
    [] e.op = "same" -> Say(Len(e.a) = Len(e.b) /\ \A k \in DOMAIN e.a : Abs(e.a[k] - e.b[k]) <= 2, "depends on history") /\ s' = s
TInit == i = 0 /\ s = Empty
TNext == i < Len(Trace) /\ Do(Trace[i + 1]) /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
