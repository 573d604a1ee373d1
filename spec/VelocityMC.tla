----------------------------- MODULE VelocityMC -----------------------------
(* Every flow of some vortices and a source on a small grid: the velocities   *)
(* have the symmetries of the plane, add up, vanish for what is alone; and a  *)
(* cell of vortices taken at its centre, seen from around a point, is off by  *)
(* no more than Missed says.                                                  *)
EXTENDS Velocity
CONSTANTS W, H, Strengths, Against, NV, Far
VARIABLES vs, src, p, q
Grid == (0..W) \X (0..H)
Vortices == {<<a[1], a[2], g, e>> : a \in Grid, g \in Strengths \cup {-s : s \in Against}, e \in {0, 4}}
RECURSIVE Tuples(_)
Tuples(n) == IF n = 0 THEN {<< >>} ELSE {Append(s, v) : s \in Tuples(n - 1), v \in Vortices}
Sources == {<< >>} \cup {<<<<a[1], a[2], g, 1>>>> : a \in {<<0, 0>>, <<1, 0>>}, g \in {-2, 3}}
Init == /\ vs \in UNION {Tuples(n) : n \in 1..NV}
        /\ src \in IF Far > 0 THEN {<< >>} ELSE Sources
        /\ p \in IF Far > 0 THEN {<<Far, 1>>, <<Far + 1, 2>>, <<1, -Far>>} ELSE Grid
        /\ q \in IF Far > 0 THEN {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<-1, 1>>} ELSE {<<0, 0>>}
Next == UNCHANGED <<vs, src, p, q>>
F(v, s) == [vort |-> v, src |-> s, bodies |-> << >>, stream |-> <<0, 0>>]
Near2(a, b, tol) == AbsV(a[1] - b[1]) <= tol /\ AbsV(a[2] - b[2]) <= tol
N == 2 * (Len(vs) + Len(src)) + 2
Turned(s) == [k \in DOMAIN s |-> <<-s[k][2], s[k][1], s[k][3], s[k][4]>>]
Flipped(s, c) == [k \in DOMAIN s |-> <<-s[k][1], s[k][2], c * s[k][3], s[k][4]>>]
Symmetric ==
  LET v == At(F(vs, src), p)
  IN /\ Near2(At(F(Turned(vs), Turned(src)), <<-p[2], p[1]>>), <<-v[2], v[1]>>, N)
     /\ Near2(At(F(Flipped(vs, -1), Flipped(src, 1)), <<-p[1], p[2]>>), <<-v[1], v[2]>>, N)
AddUp == Near2(At(F(vs, src), p),
               Plus(At(F(SubSeq(vs, 1, 1), src), p), At(F(SubSeq(vs, 2, Len(vs)), << >>), p)), N)
(* two of equal size turn about their centre: what one gives to the other     *)
(* times its strength is given back *)
GivenBack ==
  Len(vs) = 2 /\ vs[1][4] = vs[2][4] =>
    LET a == Swirl(vs[1], <<vs[2][1], vs[2][2]>>) b == Swirl(vs[2], <<vs[1][1], vs[1][2]>>)
    IN Near2(<<a[1] * vs[2][3], a[2] * vs[2][3]>>, <<-b[1] * vs[1][3], -b[2] * vs[1][3]>>, 10)
Alone == Len(vs) = 1 => Swirl(vs[1], <<vs[1][1], vs[1][2]>>) = <<0, 0>>
(* the cell's value at the middle q of another cell and its slope there *)
Cell(c2, G, q2, at) ==
  LET w == Minus(q2, c2) n == Norm2(w) t == Minus(<<2 * at[1], 2 * at[2]>>, q2) wt == w[1] * t[1] + w[2] * t[2]
      x == G * (-w[2] * n - t[2] * n + 2 * w[2] * wt) * 2
      y == G * (w[1] * n + t[1] * n - 2 * w[1] * wt) * 2
  IN <<(Ratio(x, n) \div n), (Ratio(y, n) \div n)>>
OneSign == \A k \in DOMAIN vs : (vs[k][3] > 0) = (vs[1][3] > 0)
Exact2(s) == LET G == Weight(s) IN \A c \in 1..2 : FoldLeft(LAMBDA acc, v : acc + 2 * v[3] * v[c], 0, s) % G = 0
Bounded ==
  Far > 0 /\ OneSign /\ Exact2(vs) =>
    LET q2 == <<2 * (p[1] - q[1]), 2 * (p[2] - q[2])>> c2 == Centre2(vs)
    IN Near2(Cell(c2, Weight(vs), q2, p), Swirls(vs, p), MissedAll(vs, q2, p) + 2 * Len(vs) + 2)
=============================================================================
