------------------------------ MODULE Velocity ------------------------------
(* The velocity of the flow at a point: what vortices, sources, the slipping  *)
(* and the moving parts of bodies and the stream give.                        *)
(*                                                                            *)
(* Places and strengths are integers, velocities are times 2 pi, in units of  *)
(* 10^-6.  A vortex is <<x, y, g, e2>>, e2 the square of its size; a source   *)
(* <<x, y, g, dt>>; what is given off is spread over 2 |g| dt / 2 pi.         *)
(* Vortices are taken one by one, or a cell of them, far away, is taken as    *)
(* its positive and its negative vortices at their centres: what that misses  *)
(* at most is the sum of Missed.                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
AbsV(x) == IF x < 0 THEN -x ELSE x
MaxV(a, b) == IF a > b THEN a ELSE b
(* 10^6 a / c, a and c not negative, c up to 2*10^7, a / c below 2000 *)
Div6(a, c) ==
  LET r1 == (a % c) * 100 r2 == (r1 % c) * 100 r3 == (r2 % c) * 100
  IN (a \div c) * 1000000 + (r1 \div c) * 10000 + (r2 \div c) * 100 + (r3 \div c)
Ratio(a, c) == IF a < 0 THEN -Div6(-a, c) ELSE Div6(a, c)
RECURSIVE RootV(_, _)
RootV(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE RootV(n, h)
SqrtV(n) == IF n <= 1 THEN n ELSE RootV(n, IF n > 2000000000 THEN 46340 ELSE n)
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
SumV(F(_), S) == FoldLeft(LAMBDA acc, k : Plus(acc, F(k)), <<0, 0>>, S)
Norm2(d) == d[1] * d[1] + d[2] * d[2]
Minus(p, q) == <<p[1] - q[1], p[2] - q[2]>>

(* turning about a vortex; nothing at its very centre *)
Swirl(v, p) ==
  LET d == Minus(p, v) c == Norm2(d) + v[4]
  IN IF d = <<0, 0>> THEN <<0, 0>> ELSE <<Ratio(-v[3] * d[2], c), Ratio(v[3] * d[1], c)>>
(* pi = 22/7 does here: the error is a 2500th of the spread *)
Issue(s, p) ==
  LET d == Minus(p, s) c == 22 * Norm2(d) + 7 * AbsV(s[3]) * s[4]
  IN IF d = <<0, 0>> THEN <<0, 0>> ELSE <<Ratio(22 * s[3] * d[1], c), Ratio(22 * s[3] * d[2], c)>>

(* ------------------------------------------------------------------ bodies *)
(* [c: corners, slip and g per segment, u: speed <<x, y, turning>>, axis]     *)
Nx(p, k) == IF k = Len(p) THEN 1 ELSE k + 1
Along(b, k) == Minus(b.c[Nx(b.c, k)], b.c[k])
Middle(b, k) == <<(b.c[k][1] + b.c[Nx(b.c, k)][1]) \div 2, (b.c[k][2] + b.c[Nx(b.c, k)][2]) \div 2>>
Slipping(b, k, p) ==
  IF b.slip[k] THEN Swirl(<<Middle(b, k)[1], Middle(b, k)[2], b.g[k], Norm2(Along(b, k)) \div 9>>, p) ELSE <<0, 0>>
SpeedAt(b, r) == <<b.u[1] - b.u[3] * (r[2] - b.axis[2]), b.u[2] + b.u[3] * (r[1] - b.axis[1])>>
(* the surface from place r on, dl long, moves: it turns and displaces *)
Piece(b, r, dl, p) ==
  LET w == SpeedAt(b, r)
      g == -(w[1] * dl[1] + w[2] * dl[2])
      q == w[2] * dl[1] - w[1] * dl[2]
      d == Minus(p, r) c == Norm2(d)
  IN <<Ratio(d[1] * q - d[2] * g, c), Ratio(d[2] * q + d[1] * g, c)>>
(* near to a segment (closer than it is long) the eight parts of it *)
Eighths(b, k) ==
  LET a == Along(b, k) s == b.c[k]
  IN [j \in 1..8 |-> <<s[1] + ((2 * j - 1) * a[1]) \div 16, s[2] + ((2 * j - 1) * a[2]) \div 16>>]
CloseTo(b, k, p) == Norm2(Minus(p, Middle(b, k))) < Norm2(Along(b, k))
Moving(b, k, p) ==
  IF CloseTo(b, k, p)
  THEN LET a == Along(b, k) dl == <<a[1] \div 8, a[2] \div 8>> E == Eighths(b, k)
       IN SumV(LAMBDA j : Piece(b, E[j], dl, p), [j \in 1..8 |-> j])
  ELSE Piece(b, Middle(b, k), Along(b, k), p)
OfBody(b, p) ==
  SumV(LAMBDA k : Plus(Slipping(b, k, p), IF b.u = <<0, 0, 0>> THEN <<0, 0>> ELSE Moving(b, k, p)), [k \in DOMAIN b.c |-> k])
(* what eight parts instead of all of the near segments are off at most *)
Graining(b, p) ==
  IF b.u = <<0, 0, 0>> THEN 0
  ELSE FoldLeft(LAMBDA acc, k :
         IF CloseTo(b, k, p)
         THEN LET w == SpeedAt(b, b.c[k]) w2 == SpeedAt(b, b.c[Nx(b.c, k)])
              IN acc + 20000 * MaxV(SqrtV(Norm2(w)) + 1, SqrtV(Norm2(w2)) + 1)
         ELSE acc, 0, [k \in DOMAIN b.c |-> k])

(* ------------------------------------------------------------------- flow *)
(* [vort, src, bodies, stream]; K: the vortices taken one by one              *)
Stream(f) == <<f.stream[1] * 6283185, f.stream[2] * 6283185>>
Rest(f, p) ==
  Plus(Stream(f),
  Plus(SumV(LAMBDA s : Issue(s, p), f.src), SumV(LAMBDA b : OfBody(b, p), f.bodies)))
Swirls(vs, p) == SumV(LAMBDA v : Swirl(v, p), vs)
At(f, p) == Plus(Rest(f, p), Swirls(f.vort, p))

(* a cell: vortices vs of one sign; centre c2 in half units (rounded), origin *)
(* q2, in half units, of the cell the point is in (the point itself if the    *)
(* cell is taken at the point)                                                *)
Weight(vs) == FoldLeft(LAMBDA acc, v : acc + v[3], 0, vs)
Centre2(vs) ==
  LET G == Weight(vs)
      X == FoldLeft(LAMBDA acc, v : acc + 2 * v[3] * v[1], 0, vs)
      Y == FoldLeft(LAMBDA acc, v : acc + 2 * v[3] * v[2], 0, vs)
      s == IF G < 0 THEN -1 ELSE 1
  IN <<(s * X) \div (s * G), (s * Y) \div (s * G)>>
(* d = where the vortex is seen from less where the point is: 1/(w0 + d) is   *)
(* 1/w0 - d/w0^2 and at most d^2 / (w0^2 (w0 + d)) more; lengths in half units*)
Missed(v, c2, q2, p) ==
  LET t == Minus(<<2 * p[1], 2 * p[2]>>, q2) s == Minus(<<2 * v[1], 2 * v[2]>>, c2)
      d == <<AbsV(t[1] - s[1]) + 1, AbsV(t[2] - s[2]) + 1>>
      w0 == <<MaxV(AbsV(q2[1] - c2[1]) - 1, 0), MaxV(AbsV(q2[2] - c2[2]) - 1, 0)>>
      w == SqrtV(Norm2(Minus(p, v)))
      n0 == MaxV(Norm2(w0), 1)
      n == MaxV(Norm2(Minus(p, v)), 1)
  IN IF w = 0 \/ Norm2(d) \div n0 > 50 \/ v[4] \div n > 50 THEN 1000000000
     ELSE ((Ratio(Norm2(d), n0) \div w + 1) + (Ratio(v[4], n) \div w + 1)) * AbsV(v[3])
MissedAll(vs, q2, p) ==
  LET c2 == Centre2(vs) IN FoldLeft(LAMBDA acc, v : IF acc > 900000000 THEN acc ELSE acc + Missed(v, c2, q2, p), 0, vs)
=============================================================================
