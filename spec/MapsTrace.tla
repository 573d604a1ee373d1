------------------------------- MODULE MapsTrace -------------------------------
(* Maps the code drew.  e: the flow with what was just shed among the vortices *)
(* (e.vort) and before (e.unshed), the leaves of the trees that the code uses, *)
(* per point: where it is in them and what the maps say                        *)
EXTENDS Maps, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
Of(t, vs, k) == SubSeq(vs, t.leaves[k + 1].v[1] + 1, t.leaves[k + 1].v[2])
OfAll(t, vs, s) == FlattenSeq([k \in DOMAIN s |-> SelectSeq(Of(t, vs, s[k]), LAMBDA v : v[3] # 0)])
Pos(vs) == SelectSeq(vs, LAMBDA v : v[3] > 0)
Neg(vs) == SelectSeq(vs, LAMBDA v : v[3] < 0)
Capped(x) == IF x > 500000000 THEN 500000000 ELSE x
Cells(F(_), t, vs, n) ==
  FoldLeft(LAMBDA acc, f : LET a == Pos(OfAll(t, vs, f)) b == Neg(OfAll(t, vs, f))
             IN IF acc > 900000000 THEN acc ELSE acc + (IF a = << >> THEN 0 ELSE Capped(F(a))) + (IF b = << >> THEN 0 ELSE Capped(F(b))),
           0, t.leaves[n + 1].far)
Frame == IF e.frame = "f" THEN e.stream ELSE IF e.frame = "b" THEN <<e.bodies[1].u[1], e.bodies[1].u[2]>> ELSE <<0, 0>>
Known == e.frame \in {"o", "f"} \/ (e.frame = "b" /\ e.bodies # << >>)
InBody(p) == \E b \in DOMAIN e.bodies : Poly!Invalid(e.bodies[b].c, <<2 * p[1], 2 * p[2]>>)
(* sizes are rounded to integers                                               *)
Off(v, p) == LET n == Norm2(Minus(p, v)) IN ((AbsV(v[3]) * 1000000) \div MaxV(n + v[4], 1)) \div MaxV(SqrtV(n), 1)
Sizes(p) ==
  FoldLeft(LAMBDA acc, v : acc + Off(v, p), 0, e.vort)
  + FoldLeft(LAMBDA acc, b : acc + FoldLeft(LAMBDA bcc, k : LET m == Middle(b, k) IN bcc + Off(<<m[1], m[2], b.g[k], 0>>, p), 0, [k \in DOMAIN b.c |-> k]), 0, e.bodies)
(* <<x, y>> *)
Velocity(k) ==
  LET o == e.points[k] p == o.p IN
  \E want \in {At([e EXCEPT !.vort = SubSeq(e.vort, 1, 0)], p)} : \E all \in {Swirls(e.vort, p)} :
  \E off \in {Cells(LAMBDA vs : MissedAll(vs, <<2 * p[1], 2 * p[2]>>, p), e.vtree, e.vort, o.vleaf)} :
    LET w == Minus(Plus(want, all), Stream([stream |-> Frame]))
        tol == off + e.round + (IF e.bodies = << >> THEN 0 ELSE Sizes(p)) + (AbsV(want[1]) + AbsV(want[2])) \div 5000
               + FoldLeft(LAMBDA acc, b : acc + Graining(b, p), 0, e.bodies)
    IN Say(AbsV(o.v[1] - w[1]) <= tol /\ AbsV(o.v[2] - w[2]) <= tol, <<"velocity", p, o.v, w, tol>>)
(* smoothing goes by the vortices around: e2h is given for those of the stream  *)
(* function's tree                                                             *)
Second(t, vs, v, n) ==      \* distance^2 of the second nearest vortex elsewhere
  LET all == FlattenSeq([k \in DOMAIN t.leaves[n + 1].near |-> Of(t, vs, t.leaves[n + 1].near[k])])
      d == SelectSeq([k \in DOMAIN all |-> Norm2(Minus(all[k], v))], LAMBDA x : x > 0)
      s == SortSeq(d, LAMBDA a, b : a < b)
  IN IF Len(s) >= 2 THEN s[2] ELSE IF Len(s) = 1 THEN s[1] ELSE 0
Leaf(t, k) == CHOOSE n \in 0..(Len(t.leaves) - 1) : t.leaves[n + 1].v[1] < k /\ k <= t.leaves[n + 1].v[2]
With2(t, vs) == [k \in DOMAIN vs |-> <<vs[k][1], vs[k][2], vs[k][3], Second(t, vs, vs[k], Leaf(t, k))>>]
Psis(m, d5) ==
  \E vs \in {With2(e.ptree, e.unshed)} :
  \A k \in DOMAIN e.points :
    LET o == e.points[k] p == o.p IN
    IF o.sharp \/ \E b \in DOMAIN e.bodies : Across(e.bodies[b], p) THEN TRUE
    ELSE
    /\ \E w \in {Psi([e EXCEPT !.vort = vs], p, m, d5, Frame)} :
       \E off \in {Cells(LAMBDA c : MissedPsi(c, p, m, d5), e.ptree, vs, o.pleaf)} :
         Say(AbsV(o.psi - w) <= e.psiround + AbsV(w) \div 10000 + off, <<"streamfunction", p, o.psi, w, off>>)
    \* of a script: each vortex, none smoothed by its neighbours, at rest
    /\ \E w \in {Psi([e EXCEPT !.vort = [j \in DOMAIN vs |-> <<vs[j][1], vs[j][2], vs[j][3], 0>>]], p, 1, d5, <<0, 0>>)} :
         Say(AbsV(o.at - w) <= e.psiround + AbsV(w) \div 10000, <<"streamfunction at", p, o.at, w>>)
Vorticity(m, d5) ==
  \E vs \in {With2(e.otree, e.oshed)} :
  \A k \in DOMAIN e.points :
    LET o == e.points[k] p == o.p IN
    IF \E b \in DOMAIN e.bodies : Poly!OnOutline(e.bodies[b].c, <<2 * p[1], 2 * p[2]>>) THEN TRUE
    ELSE IF InBody(p) THEN Say(o.om = 0, <<"vorticity inside", p, o.om>>)
    ELSE LET near == FlattenSeq([j \in DOMAIN e.otree.leaves[o.oleaf + 1].near |-> Of(e.otree, vs, e.otree.leaves[o.oleaf + 1].near[j])])
             spread(v) == m * m * MaxV(v[4], 9 * d5 * d5)
             big == FoldLeft(LAMBDA acc, v : acc + AbsV(v[3]), 0, near)
             rim == 3 * (5 * d5 * m) * (5 * d5 * m)
             nearwall == \E b \in DOMAIN e.bodies : \E s \in DOMAIN e.bodies[b].c : Norm2(Minus(p, Middle(e.bodies[b], s))) <= rim
         IN IF \E v \in DOMAIN near : near[v][3] # 0 /\ (spread(near[v]) = 0 \/ AbsV(Norm2(Minus(p, near[v])) - 6 * spread(near[v])) <= 1) THEN TRUE
            ELSE \E w \in {Om(near, p, spread)} :
               LET tol == 100 + Len(near) + AbsV(w) \div 500 + (big * 300) \div (9 * d5 * d5 + 1)
               IN Say(o.om >= w - tol /\ o.om <= w + tol + (IF nearwall THEN 1570800 ELSE 0), <<"vorticity", p, o.om, w, tol, nearwall>>)
(* pressure: in units of 10^-5 / 2 pi; half the velocities' squares beside, from *)
(* the velocity that the other map shows                                       *)
(* pi |v|^2 from 2 pi v                                                        *)
Square(v) == LET x == Mul(v[1] \div 10, v[1] \div 10) + Mul(v[2] \div 10, v[2] \div 10) IN (x \div 12566) * 10000 + ((x % 12566) * 10000) \div 12566
Pressure ==
  \A k \in DOMAIN e.points :
    LET o == e.points[k] p == o.p IN
    IF \E b \in DOMAIN e.bodies : Poly!OnOutline(e.bodies[b].c, <<2 * p[1], 2 * p[2]>>) THEN TRUE
    ELSE IF InBody(p) THEN Say(o.cp = 0 /\ o.cps = 0, <<"pressure inside", p, o.cp, o.cps>>)
    ELSE IF o.skip THEN TRUE
    ELSE \E w \in {Press(e, e.us, p, e.dt)} :
         LET w0 == Norm2(e.stream) * 314159 - Square(Plus(o.v, Stream([stream |-> Frame])))
             half == w + w0
             full == half + Square(o.v)
             tol == e.pround + 16 * Norm2(e.stream) + (AbsV(w) + Square(o.v) + AbsV(w0)) \div 3000
         IN Say(AbsV(o.cps - half) <= tol /\ AbsV(o.cp - full) <= tol, <<"pressure", p, o.cps, half, o.cp, full, tol>>)
Maps ==
  IF ~Known THEN Say(e.refused = <<TRUE, TRUE, TRUE>>, <<"frame taken", e.refused>>)
  ELSE /\ Say(e.refused = <<FALSE, FALSE, FALSE>>, <<"refused", e.refused>>)
       /\ \A k \in DOMAIN e.points : IF e.points[k].skip \/ e.points[k].close THEN TRUE ELSE Velocity(k)
       /\ Psis(e.mult, e.d5)
       /\ Vorticity(e.mult, e.d5)
       /\ Pressure
TInit == i = 1
TNext == i <= Len(Trace) /\ Maps /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
===============================================================================
