---------------------------- MODULE ScriptingMC ----------------------------
(* All short scripts over a few fields, literals, two bodies and one list.    *)
EXTENDS Scripting
CONSTANTS Length
VARIABLES st, n, last
S0 == [k \in {"re", "gravity.x", "gravity.y", "caption", "inf_vx", "dt"} |->
        IF k \in {"caption"} THEN <<"s", "">> ELSE IF k = "inf_vx" THEN <<"e", "">> ELSE <<"n", 0>>]
B0 == [k \in {"holder_pos.r.x", "holder_pos.r.y", "holder_pos.o", "special_segment", "slip", "root"} |->
        IF k = "slip" THEN <<"b", FALSE>> ELSE IF k = "root" THEN <<"nil">> ELSE <<"n", 0>>]
Num(v) == [k |-> "num", v |-> v]
Literals ==
  {Num(4), Num(8), [k |-> "nil"], [k |-> "bool", v |-> TRUE], [k |-> "str", t |-> "x", expr |-> FALSE],
   [k |-> "str", t |-> "1", num |-> 8, expr |-> TRUE], [k |-> "str", t |-> "3/2", frac |-> <<3, 2>>, expr |-> TRUE],
   [k |-> "table", v |-> <<Num(8), Num(16)>>], [k |-> "table", v |-> <<Num(4), Num(8), Num(8)>>], [k |-> "body", id |-> 1],
   [k |-> "ref", o |-> [c |-> "S"], p |-> <<"gravity">>], [k |-> "ref", o |-> [c |-> "S"], p |-> <<"inf_vx">>]}
SPaths == {<<"re">>, <<"gravity">>, <<"gravity", "y">>, <<"caption">>, <<"inf_vx">>, <<"dt">>, <<"nothing">>, <<"save">>}
BPaths == {<<"holder_pos">>, <<"holder_pos", "r">>, <<"holder_pos", "d">>, <<"special_segment">>, <<"slip">>, <<"root">>}
OPaths == {<<"r">>, <<"g">>}
Targets == {<<[c |-> "S"], p>> : p \in SPaths}
  \cup {<<[c |-> "B", id |-> k], p>> : k \in {m \in DOMAIN st.b : m \in Alive(st)}, p \in BPaths}
  \cup {<<[c |-> "O", list |-> "vort_list", i |-> k], p>> : k \in DOMAIN st.l["vort_list"], p \in OPaths}
Init == st = [s |-> S0, b |-> <<B0, B0>>, in |-> <<>>, held |-> {1, 2}, l |-> [k \in {"vort_list"} |-> <<>>]] /\ n = 0 /\ last = <<"start">>
Sets == \E t \in Targets, x \in Literals :
  /\ IF x.k = "body" THEN x.id \in Alive(st) ELSE TRUE
  /\ st' = AfterSet(st, t[1], t[2], x)
  /\ last' = <<"set", t[1], t[2], x, SetResult(st, t[1], t[2], x) # <<>>>>
Lists ==
  /\ \/ \E k \in Alive(st) : k \notin ToSet(st.in) /\ st' = Settle(Insert(st, k))
     \/ \E k \in Alive(st) : k \in ToSet(st.in) /\ st' = Settle(Erase(st, k))
     \/ \E k \in st.held : st' = Settle([st EXCEPT !.held = @ \ {k}])
     \/ \E x \in Literals \cup (IF st.l["vort_list"] = <<>> THEN {} ELSE {[k |-> "at", list |-> "vort_list", i |-> 1]}) :
          Addable(st, x) /\ st' = AfterAppend(st, "vort_list", <<x>>, 1)
     \/ st' = AfterClear(st, "vort_list")
  /\ last' = <<"list">>
Next == n < Length /\ n' = n + 1 /\ (Sets \/ Lists)
(* every leaf always holds a value of its sort *)
Sort(kind, v) ==
  CASE kind \in {"number", "degree"} -> v[1] \in {"n", "deg"}
    [] kind = "integer" -> v[1] = "n" /\ v[2] % 8 = 0
    [] kind = "time" -> v[1] = "n"
    [] kind = "string" -> v[1] = "s"
    [] kind = "eval" -> v[1] = "e"
    [] kind = "bool" -> v[1] = "b"
    [] OTHER -> v[1] \in {"nil", "body"}
Typed ==
  /\ \A p \in {<<"re">>, <<"gravity", "x">>, <<"gravity", "y">>, <<"caption">>, <<"inf_vx">>, <<"dt">>} : Sort(Kind("S", p), st.s[Leaf(p)])
  /\ \A k \in DOMAIN st.b : \A p \in {<<"holder_pos", "r", "x">>, <<"holder_pos", "o">>, <<"special_segment">>, <<"slip">>, <<"root">>} :
       Sort(Kind("B", p), st.b[k][Leaf(p)])
OnceListed == \A k, m \in DOMAIN st.in : k # m => st.in[k] # st.in[m]
LiveRoots == \A k \in DOMAIN st.b : st.b[k]["root"][1] = "body" => st.b[k]["root"][2] \in Alive(st)
(* a refused assignment changes nothing; an accepted one reads back, and      *)
(* changes nothing else                                                       *)
Readback ==
  [][last'[1] = "set" =>
     LET o == last'[2] p == last'[3] x == last'[4] r == SetResult(st, o, p, x)
         ps == {Leaf(q) : q \in ToSet(Parts(Kind(o.c, p), p))}
     IN IF r = <<>> THEN st' = st
        ELSE /\ \A k \in DOMAIN Object(st', o) : k \notin ps => Object(st', o)[k] = Object(st, o)[k]
             /\ LET got == GetResult(st', o, p) IN
                  CASE Kind(o.c, p) \in {"vec", "vec3"} -> got[2] = r
                    [] Kind(o.c, p) = "degree" -> got = <<"n", NumOf(x)>>
                    [] OTHER -> got = r[1]
             /\ st'.in = st.in]_<<st, n, last>>
=============================================================================
