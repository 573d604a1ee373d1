---------------------------- MODULE ExtractTrace ----------------------------
(* One invocation: kind table (req, status, lines of cells), list (names as   *)
(* printed), summary (file -> pairs), or none (a file that can not be read).  *)
EXTENDS Extract, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
SameSeq(a, b) ==
  \A k \in 1..Max2(Len(a), Len(b)) :
    IF k <= Len(a) /\ k <= Len(b) THEN Say(a[k] = b[k], <<k, a[k], b[k]>>)
    ELSE Say(FALSE, <<k, IF k <= Len(a) THEN a[k] ELSE b[k]>>)
Holds(e) ==
  CASE e.kind = "table" ->
         (LET bad == Failed(e.data, e.req)
          IN IF bad = <<>> THEN Say(e.rc = 0, e.rc) /\ SameSeq(e.lines, Table(e.data, e.req))
             ELSE Say(e.rc = Status(e.data, bad[1]), e.rc) /\ e.lines = <<>>)
    [] e.kind = "list" ->
         e.rc = 0 /\ Len(e.names) = Cardinality(DOMAIN e.data) /\ Say(ToSet(e.names) = DOMAIN e.data, e.names)
    [] e.kind = "summary" ->
         e.rc = 0 /\ SameSeq(e.pairs, e.head \o (IF e.flow THEN Summary(FlowOf(e.file)) ELSE <<>>))
    [] e.kind = "none" -> e.rc = 2 /\ e.lines = <<>>
TInit == i = 0
TNext == i < Len(Trace) /\ Holds(Trace[i + 1]) /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
