---------------------------- MODULE ImportTrace ----------------------------
(* Events give the whole flow s afterwards: op set (the flow is changed to s), *)
(* the imports of Import, and old (an old file is opened).                     *)
EXTENDS Import, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, flow
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
Parts(a, b, what) ==
  \A n \in DOMAIN a \cup DOMAIN b :
    IF n \in DOMAIN a /\ n \in DOMAIN b THEN Say(a[n] = b[n], <<what, n, a[n], b[n]>>)
    ELSE Say(FALSE, <<what, n>>)
Known(b) == [n \in IF b.segs = <<>> THEN DOMAIN b.attr \ Derived ELSE DOMAIN b.attr |-> b.attr[n]]
Like(a, b) ==
  /\ \A l \in Lists : Say(a[l] = b[l], <<l, a[l], b[l]>>)
  /\ Parts(a.attr, b.attr, "flow")
  /\ Say(Len(a.bodies) = Len(b.bodies), "number of bodies")
  /\ \A k \in DOMAIN a.bodies :
       \* nothing follows from no outline
       /\ Parts(Known(a.bodies[k]), Known(b.bodies[k]), <<"body", k>>)
       /\ Say(a.bodies[k].root = b.bodies[k].root, <<"root", k>>)
       /\ Say(a.bodies[k].segs = b.bodies[k].segs, <<"outline", k, a.bodies[k].segs, b.bodies[k].segs>>)
Holds(e) ==
  CASE e.op \in {"set", "new"} -> TRUE
    [] e.op = "old" -> Say(~e.refused, "refused") /\ Like(e.s, OldFlow(e.sections))
    [] e.op \in {"outline", "reload"} /\ Readable(e.file) /\ Outlines(e.file) /\ ~Plain(e.file) ->
         PrintT(<<"OPEN", e.op>>)
    [] OTHER -> Say(e.refused = Refused(e.op, e.file), IF e.refused THEN "refused" ELSE "not refused")
                /\ Like(e.s, After(flow, e))
TInit == i = 0 /\ flow = NewFlow
TNext == i < Len(Trace) /\ Holds(Trace[i + 1]) /\ i' = i + 1 /\ flow' = Trace[i + 1].s
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
