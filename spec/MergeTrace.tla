------------------------------ MODULE MergeTrace ------------------------------
(* Particles before and after the code has set their sizes and merged them,  *)
(* with the tree it used.  Lengths are in 64ths.                             *)
EXTENDS Merge, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
TInit == i = 1

L == e.leaves
SegsOf(l) == {m \in DOMAIN e.segs : \E n \in DOMAIN L[l].near : \E b \in DOMAIN L[L[l].near[n] + 1].b : L[L[l].near[n] + 1].b[b] = e.segs[m].id}
Dist2(l, m) == D2([x |-> L[l].box[1], y |-> L[l].box[2]], e.segs[m])
(* the segments whose length may rule: the nearest of those in near cells;   *)
(* if there are none, one of all the segments there are                      *)
Rulers(l) ==
  LET S == SegsOf(l)
  IN IF S = {} THEN DOMAIN e.segs
     ELSE {m \in S : \A n \in S : Dist2(l, m) <= Dist2(l, n) + 2}
Criterion(l, m) == (((4 * e.segs[m].dl2) \div 25) * (64 + SqrtM(Dist2(l, m)))) \div 64
Cell(l, range, squeeze) ==
  LET R == Rulers(l)
      C == {Criterion(l, m) : m \in R}
      near == UNION {(range[L[l].near[n] + 1][1] + 1)..range[L[l].near[n] + 1][2] : n \in DOMAIN L[l].near}
      lo == IF C = {} THEN 0 ELSE Min(C)
      hi == IF C = {} THEN 0 ELSE Max(C)
  IN [near |-> near, squeeze |-> squeeze, crit |-> IF ~e.merge THEN Never ELSE (lo + hi) \div 2,
      blur |-> IF C = {} THEN -9999999 ELSE (hi - lo) \div 2 + Max({e.segs[m].dl2 : m \in R}) \div 400 + 3,
      floors |-> {SqrtM(e.segs[m].dl2) \div 3 : m \in R}]
(* all turns of a list; range[l] = <<a, b>>: the particles a+1..b are in the cell l *)
After(s0, range, squeeze) ==
  LET one(st, l) ==
        LET c == Cell(l, range, squeeze)
        IN FoldLeft(LAMBDA t, k : Turn(t, c, k), st, [n \in 1..(range[l][2] - range[l][1]) |-> range[l][1] + n])
  IN FoldLeft(one, [s |-> [k \in DOMAIN s0 |-> [x |-> s0[k].x, y |-> s0[k].y, g |-> s0[k].g, e |-> 0]], open |-> FALSE, merged |-> 0, size2 |-> [k \in DOMAIN s0 |-> Never]], [l \in DOMAIN L |-> l])
Within(a, b, t) == a - b <= t /\ b - a <= t
Sizes(st, s1, range, squeeze) ==
  \A l \in DOMAIN L : LET F == Cell(l, range, squeeze).floors IN \A k \in (range[l][1] + 1)..range[l][2] :
    st.size2[k] # Never /\ s1[k].g # 0 =>
      LET d == SqrtM(st.size2[k])
      IN \E f \in (IF F = {} THEN {0} ELSE F) : Within(s1[k].eps, IF d > f THEN d ELSE f, 4)
Same(st, s1) == \A k \in DOMAIN s1 : s1[k].g = st.s[k].g /\ (s1[k].g # 0 => Within(s1[k].x, st.s[k].x, 3) /\ Within(s1[k].y, st.s[k].y, 3))
Lost(s) == FoldLeft(LAMBDA a, p : a + p.g, 0, s)
RangeV == [l \in DOMAIN L |-> L[l].v]
RangeH == [l \in DOMAIN L |-> L[l].h]
(* whatever was open: circulation and heat are kept, and without merging all *)
Anyway == /\ Len(e.v0) = Len(e.v1) /\ Len(e.h0) = Len(e.h1)
          /\ Lost(e.v0) = Lost(e.v1) /\ Lost(e.h0) = Lost(e.h1)
          /\ ~e.merge => e.merged = 0
Check ==
  LET V == After(e.v0, RangeV, TRUE) H == After(e.h0, RangeH, FALSE)
      particles(X, x1, r, q) == IF X.open \/ (Same(X, x1) /\ Sizes(X, x1, r, q)) THEN TRUE
                                ELSE PrintT(<<"SHOULD BE", [k \in DOMAIN x1 |-> <<X.s[k], X.size2[k]>>], "IS", x1,
                                             "FLOORS", [l \in DOMAIN L |-> Cell(l, r, q)]>>) /\ FALSE
  IN /\ particles(V, e.v1, RangeV, TRUE)
     /\ particles(H, e.h1, RangeH, FALSE)
     /\ V.open \/ H.open \/ e.merged = V.merged + H.merged
     /\ IF V.open \/ H.open THEN PrintT("OPEN") ELSE TRUE
(* a step of a run without bodies, few enough particles for one cell: what is *)
(* left of their circulations *)
Bag(s) == [g \in {s[k].g : k \in DOMAIN s} \ {0} |-> Cardinality({k \in DOMAIN s : s[k].g = g})]
Step ==
  LET c == [near |-> DOMAIN e.v0, squeeze |-> TRUE, crit |-> IF e.merge THEN 0 ELSE Never, blur |-> -9999999]
      V == FoldLeft(LAMBDA t, k : Turn(t, c, k),
                    [s |-> [k \in DOMAIN e.v0 |-> [x |-> e.v0[k].x, y |-> e.v0[k].y, g |-> e.v0[k].g, e |-> 1]],
                     open |-> FALSE, merged |-> 0, size2 |-> [k \in DOMAIN e.v0 |-> Never]], [k \in DOMAIN e.v0 |-> k])
  IN IF V.open THEN PrintT("OPEN") ELSE IF Bag(V.s) = Bag(e.v1) THEN TRUE ELSE PrintT(<<"SHOULD BE", V.s, "IS", e.v1>>) /\ FALSE
TNext == /\ i <= Len(Trace) /\ i' = i + 1
         /\ IF e.kind = "run" THEN Step ELSE Anyway /\ Check
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
