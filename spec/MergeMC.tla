------------------------------- MODULE MergeMC -------------------------------
(* Every way a few particles of one cell can lie, merged one after another.  *)
EXTENDS Merge, FiniteSetsExt
CONSTANTS N, W, Gs, Crits, Step
Both == {-2, -1, 1, 2}
Pair == {-1, 1}
VARIABLES st, c, k
vars == <<st, c, k>>
Sum(S, F(_)) == MapThenSumSet(F, S)
Init ==
  /\ \E p \in [1..N -> {[x |-> x * Step, y |-> y * Step, e |-> 0, g |-> g] : x \in 0..W, y \in 0..1, g \in Gs}] :
       st = [s |-> p, open |-> FALSE, merged |-> 0, size2 |-> [a \in 1..N |-> Never]]
  /\ \E r \in Crits \cup {Never}, q \in BOOLEAN : c = [near |-> 1..N, crit |-> r, squeeze |-> q, blur |-> 0]
  /\ k = 1
Next == /\ k <= N /\ k' = k + 1 /\ UNCHANGED c
        /\ st' = Turn(st, c, k)
Spec == Init /\ [][Next]_vars
Ids == 1..N
Alive(s) == {a \in Ids : s[a].g # 0}
Total(s) == Sum(Ids, LAMBDA a : s[a].g)
Moment(s) == Sum(Ids, LAMBDA a : s[a].g * s[a].x)
(* what any turn keeps *)
Kept ==
  [][ /\ Total(st.s) = Total(st'.s)
      /\ Alive(st'.s) \subseteq Alive(st.s)
      /\ \A a \in Ids : a # k /\ a \in Alive(st'.s) => st'.s[a] = st.s[a]
      /\ st'.merged = st.merged => st'.s = st.s
      /\ st'.merged # st.merged =>
           \E a \in Alive(st.s) \ {k} :
             /\ st'.s[a].g = 0 /\ a = Two(st.s, c, k)[1]
             /\ \A b \in Alive(st.s) \ {k} : D2(st.s[k], st.s[a]) <= D2(st.s[k], st.s[b])
             /\ D2(st.s[k], st.s[a]) < c.crit \/ (c.squeeze /\ SignM(st.s[a].g) # SignM(st.s[k].g))
             \* the centre of two of one sign stays
             /\ SignM(st.s[a].g) = SignM(st.s[k].g) => AbsM(Moment(st'.s) - Moment(st.s)) <= AbsM(st'.s[k].g)
             \* of two signs the stronger one keeps its place
             /\ SignM(st.s[a].g) # SignM(st.s[k].g) /\ st'.s[k].g # 0 =>
                  LET w == IF AbsM(st.s[a].g) > AbsM(st.s[k].g) THEN a ELSE k
                  IN st'.s[k].x = st.s[w].x /\ st'.s[k].y = st.s[w].y /\ SignM(st'.s[k].g) = SignM(st.s[w].g) ]_vars
(* with merging off, without a criterion, or in the company of one, nothing merges *)
Off == (c.crit = Never \/ (c.crit = 0 /\ ~c.squeeze) \/ N < 3) => st.merged = 0
(* nobody is merged against its neighbours' will: one sign and no two close: all stay *)
OneSign == (\A a, b \in Alive(st.s) : SignM(st.s[a].g) = SignM(st.s[b].g)) /\ c.crit = 0 => st.merged = 0 \/ Cardinality(Alive(st.s)) < N
Bookkeeping == ~st.open => Cardinality(Alive(st.s)) + st.merged <= N
=============================================================================
