----------------------------- MODULE StoreTrace -----------------------------
(* Events: op set (the flow is changed to s), save (file f, content as read   *)
(* by an independent reader), save refused, load (from f).    *)
(* Every event gives the whole flow s afterwards.                             *)
EXTENDS Store, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, space, disk

Same(a, b, what) == IF a = b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
Parts(a, b, what) ==
  \A n \in DOMAIN a \cup DOMAIN b :
    IF n \in DOMAIN a /\ n \in DOMAIN b THEN Same(a[n], b[n], <<what, n, a[n], b[n]>>)
    ELSE PrintT(<<"DIFFERS", what, n>>) /\ FALSE
FileIs(f, s) ==
  LET w == FileOf(s)
  IN /\ Parts(f.attr, w.attr, "attributes")
     /\ Same(DOMAIN f.data, DOMAIN w.data, "datasets")
     /\ \A n \in DOMAIN w.data :
          /\ Parts(f.data[n].attr, w.data[n].attr, n)
          /\ Same(f.data[n].slip, w.data[n].slip, <<n, "slip">>)
          /\ Parts(f.data[n].rows, w.data[n].rows, n)
FlowIs(a, b) == Parts(a, b, "flow")

TInit == i = 0 /\ space = <<>> /\ disk = <<>>
TNext ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1]
     IN /\ space' = e.s
        /\ IF e.op = "new" THEN disk' = <<>>
           ELSE IF e.op = "set" THEN disk' = disk
           ELSE IF e.op = "save"
           THEN /\ FlowIs(e.s, space) /\ FileIs(e.file, space)
                /\ disk' = [m \in DOMAIN disk \cup {e.f} |-> IF m = e.f THEN FileOf(space) ELSE disk[m]]
           ELSE IF e.op = "save refused"
           THEN ~Storable(space) /\ FlowIs(e.s, space) /\ disk' = disk
           ELSE /\ e.f \in DOMAIN disk /\ FlowIs(e.s, FlowOf(disk[e.f])) /\ disk' = disk
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
