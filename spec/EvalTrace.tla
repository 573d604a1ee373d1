------------------------------ MODULE EvalTrace ------------------------------
(* Events: calls on numbered evaluators. *)
EXTENDS Eval, Json, IOUtils, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
Same(got, want) == got = want
Step(e) ==
  CASE e.op = "start" -> s' = [k \in 1..e.n |-> [x |-> Empty, text |-> ""]]
    [] e.op = "set" -> /\ Say(e.ok = Accepted0(e.x), <<"refused or not, expected", Accepted0(e.x)>>)
                       /\ s' = IF Accepted0(e.x) THEN [s EXCEPT ![e.k] = [x |-> e.x, text |-> e.text]] ELSE s
    [] e.op = "copy" -> s' = [s EXCEPT ![e.k] = s[e.from]]
    [] e.op = "eval" -> LET w == Den(s[e.k].x, e.t) IN Say(Same(e.got, w), <<"value, expected", w>>) /\ s' = s
    [] e.op = "many" -> (\A n \in DOMAIN e.ts : LET w == Den(s[e.k].x, e.ts[n]) IN Say(Same(e.got[n], w), <<"value", n, "expected", w>>)) /\ s' = s
    [] e.op = "text" -> Say(e.got = s[e.k].text, <<"text", s[e.k].text>>) /\ s' = s
TInit == i = 0 /\ s = <<>>
TNext == i < Len(Trace) /\ Step(Trace[i + 1]) /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
