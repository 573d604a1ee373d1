--------------------------- MODULE ScriptingTrace ---------------------------
(* Events: what a script did, one operation after another, and what it saw.   *)
EXTENDS Scripting, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
Val(v) == IF v[1] = "body" THEN <<"body", v[2]>> ELSE v
Flat(p) == <<p["r.x"][2], p["r.y"][2], p["g"][2], p["v.x"][2], p["v.y"][2]>>
Whole5(l) == [n \in DOMAIN l |-> Flat(l[n])]
SameObject(s, o, got) ==
  \A k \in DOMAIN got :
    LET want == IF k = "root" THEN GetResult(s, o, <<"root">>) ELSE Object(s, o)[k]
    IN Say(want = Val(got[k]), <<"field", k, "expected", want>>)
Step(e) ==
  CASE e.op = "init" ->
         st' = [s |-> e.all, b |-> <<>>, in |-> <<>>, held |-> {}, l |-> [k \in {"vort_list", "sink_list", "streak_source_list", "streak_domain_list"} |-> <<>>]]
    [] e.op = "new" -> /\ Say(e.id = Len(st.b) + 1, "number")
                       /\ st' = [st EXCEPT !.b = Append(@, e.all), !.held = @ \cup {e.id}]
    [] e.op = "set" -> LET r == SetResult(st, e.o, e.p, e.x)
                       IN Say(e.ok = (r # <<>>), <<"refused or not, expected", r>>) /\ st' = AfterSet(st, e.o, e.p, e.x)
    [] e.op = "get" -> LET r == GetResult(st, e.o, e.p) IN Say(Val(e.got) = r, <<"expected", r>>) /\ st' = st
    [] e.op = "all" -> SameObject(st, e.o, e.got) /\ st' = st
    [] e.op = "insert" -> LET ok == IF e.x.k = "body" THEN e.x.id \notin ToSet(st.in) ELSE FALSE
                          IN Say(e.ok = ok, <<"refused or not, expected", ok>>) /\ st' = IF ok THEN Settle(Insert(st, e.x.id)) ELSE st
    [] e.op = "erase" -> LET ok == IF e.x.k = "body" THEN e.x.id \in ToSet(st.in) ELSE FALSE
                         IN Say(e.ok = ok, <<"refused or not, expected", ok>>) /\ st' = IF ok THEN Settle(Erase(st, e.x.id)) ELSE st
    [] e.op = "clearb" -> st' = Settle([st EXCEPT !.in = <<>>])
    [] e.op = "bodies" -> Say(e.got = st.in /\ e.len = Len(st.in), <<"bodies", st.in>>) /\ st' = st
    [] e.op = "itemb" -> Say(e.got = IF e.i \in DOMAIN st.in THEN st.in[e.i] ELSE 0, <<"body at", e.i>>) /\ st' = st
    [] e.op = "drop" -> st' = Settle([st EXCEPT !.held = @ \ {e.id}])
    [] e.op = "append" ->
         LET bad == FirstBad(st, e.xs)
             had == Len(st.l[e.list])
         IN IF bad = 0 THEN Say(e.ok /\ e.len = had + Len(e.xs), "append") /\ st' = AfterAppend(st, e.list, e.xs, Len(e.xs))
            (* those before the refused one may have been added *)
            ELSE Say(~e.ok /\ had <= e.len /\ e.len < had + bad, "bad append") /\ st' = AfterAppend(st, e.list, e.xs, e.len - had)
    [] e.op = "clear" -> st' = AfterClear(st, e.list)
    [] e.op = "list" -> Say(e.got = Whole5(st.l[e.list]) /\ e.len = Len(st.l[e.list]), <<"list", Whole5(st.l[e.list])>>) /\ st' = st
    [] e.op = "item" -> Say(e.got = IF e.i \in DOMAIN st.l[e.list] THEN Flat(st.l[e.list][e.i]) ELSE <<>>, <<"at", e.i>>) /\ st' = st
    [] e.op = "refused" -> Say(~e.ok, "not refused") /\ st' = st
TInit == i = 0 /\ st = <<>>
TNext == i < Len(Trace) /\ Step(Trace[i + 1]) /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
