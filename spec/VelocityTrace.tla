---------------------------- MODULE VelocityTrace ----------------------------
(* Velocities the code gave to particles and found at points.                 *)
EXTENDS Velocity, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
(* vortices of leaf n; those merged or of no strength give nothing *)
OfLeaf(n) == SelectSeq(SubSeq(e.vort, e.leaves[n + 1].v[1] + 1, e.leaves[n + 1].v[2]), LAMBDA v : v[3] # 0)
OfLeaves(s) == FlattenSeq([k \in DOMAIN s |-> OfLeaf(s[k])])
Pos(vs) == SelectSeq(vs, LAMBDA v : v[3] > 0)
Neg(vs) == SelectSeq(vs, LAMBDA v : v[3] < 0)
(* o: <<x, y, vx, vy>>, n the leaf it is in, own: whether the far cells are    *)
(* seen from the middle of the leaf *)
Capped(x) == IF x > 500000000 THEN 500000000 ELSE x
Good(o, n, fromMiddle) ==
  LET l == e.leaves[n + 1] p == <<o[1], o[2]>>
      q2 == IF fromMiddle THEN l.mid2 ELSE <<2 * p[1], 2 * p[2]>>
  IN \E want \in {At([e EXCEPT !.vort = SubSeq(e.vort, 1, 0)], p)} :
     \E all \in {Swirls(e.vort, p)} :
     \E off \in {FoldLeft(LAMBDA acc, f : LET vs == OfLeaves(f) a == Pos(vs) b == Neg(vs)
                             IN IF acc > 900000000 THEN acc
                                ELSE acc + (IF a = << >> THEN 0 ELSE Capped(MissedAll(a, q2, p))) + (IF b = << >> THEN 0 ELSE Capped(MissedAll(b, q2, p))),
                           0, l.far)} :
     LET tol == off + e.round + (AbsV(want[1]) + AbsV(want[2])) \div 5000
                + FoldLeft(LAMBDA acc, b : acc + Graining(b, p), 0, e.bodies)
         w == Plus(want, all)
     IN Say(AbsV(o[3] - w[1]) <= tol /\ AbsV(o[4] - w[2]) <= tol, <<"velocity", o, w, tol, n>>)
Endless == 1999999999
Unmoved(o) == Say(o[3] = 0 /\ o[4] = 0, <<"of no strength", o>>)
List(s, r(_), always) ==
  \A n \in 0..(Len(e.leaves) - 1) : \A k \in (r(n + 1)[1] + 1)..r(n + 1)[2] :
    IF always \/ s[k][5] THEN Good(s[k], n, TRUE) ELSE Unmoved(s[k])
Flow ==
  /\ List(e.pv, LAMBDA n : e.leaves[n].v, FALSE)
  /\ List(e.ph, LAMBDA n : e.leaves[n].h, FALSE)
  /\ List(e.ps, LAMBDA n : e.leaves[n].s, TRUE)
  (* how fast it is on the walls depends on how they are cut, but not at will *)
  /\ \A k \in DOMAIN e.walls : Say(AbsV(e.walls[k][1]) < Endless /\ AbsV(e.walls[k][2]) < Endless, <<"endless on a wall", k, e.walls[k]>>)
  /\ \A k \in DOMAIN e.points : Good(e.points[k].o, e.points[k].leaf, FALSE)
TInit == i = 1
TNext == i <= Len(Trace) /\ Flow /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
