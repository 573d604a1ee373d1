--------------------------------- MODULE Maps ---------------------------------
(* What maps of a flow show: velocity is that of Velocity.tla, less that of   *)
(* the frame of reference; here are the stream function (its differences are  *)
(* the flow between two places), vorticity (every vortex spread as a          *)
(* Gaussian) and pressure (from what moves the vortices and what they shed).  *)
(* Places are integers.  A flow: [vort: <<x, y, g, e2>>, src, bodies, stream] *)
(* as in Velocity.                                                            *)
EXTENDS Diffusion
Poly == INSTANCE Polygon

(* ------------------------------------------------------------- logarithm *)
RECURSIVE Halvings(_, _)
Halvings(n, k) == IF n < 2 * k THEN 0 ELSE 1 + Halvings(n, 2 * k)
(* 10^6 ln(n), n a positive integer up to 10^7 *)
Ln(n) ==
  LET h == Halvings(n, 1) k == 2 ^ h
      y == Div6(n - k, n + k) y2 == Mul(y, y) y3 == Mul(y, y2) y5 == Mul(y3, y2) y7 == Mul(y5, y2) y9 == Mul(y7, y2)
  IN h * 693147 + 2 * (y + y3 \div 3 + y5 \div 5 + y7 \div 7 + y9 \div 9 + Mul(y9, y2) \div 11)

(* ------------------------------------------------------------------ angle *)
HalfPi == 1570796
AtanSmall(t) ==
  LET t2 == Mul(t, t) t3 == Mul(t, t2) t5 == Mul(t3, t2) t7 == Mul(t5, t2) t9 == Mul(t7, t2)
  IN t - t3 \div 3 + t5 \div 5 - t7 \div 7 + t9 \div 9 - Mul(t9, t2) \div 11
AtanUnit(t) == IF t > 414214 THEN HalfPi \div 2 - AtanSmall(Div6(1000000 - t, 1000000 + t)) ELSE AtanSmall(t)
(* of the first quadrant *)
Atan1(y, x) == IF x = 0 /\ y = 0 THEN 0 ELSE IF y <= x THEN AtanUnit(Div6(y, x)) ELSE HalfPi - AtanUnit(Div6(x, y))
(* 10^6 times the direction of <<x, y>>, from -pi to pi *)
Atan2(y, x) ==
  LET a == Atan1(AbsV(y), AbsV(x)) b == IF x < 0 THEN 2 * HalfPi - a ELSE a IN IF y < 0 THEN -b ELSE b

(* -------------------------------------------------------- stream function *)
(* 4 pi psi in units of 10^-4 of the unit, whose log is -lns/2.  d5: a fifth of the segments' length; m: how    *)
(* much vortices are smoothed                                                 *)
Psi4(n4, g, lns) == LET L == Ln(n4) - 1386294 - lns IN IF AbsV(g) > 300 THEN -(g * (L \div 100) + (g * (L % 100)) \div 100) ELSE -(g * (L \div 10)) \div 10
OfVortex(v, p, m, d5, lns) == Psi4(4 * Norm2(Minus(p, v)) + m * m * MaxV(v[4], 4 * d5 * d5), v[3], lns)
OfSource(s, p) == LET d == Minus(p, s) IN (2 * s[3] * Atan2(d[2], d[1])) \div 100
(* what a body's outline turns, and what it displaces as it moves: that goes   *)
(* round from its middle c to the segment                                     *)
Turned(b, k, p, q) ==
  LET c == Minus(b.cofm, p) a == Minus(Middle(b, k), p)
      t == Atan2(a[1] * c[2] - a[2] * c[1], a[1] * c[1] + a[2] * c[2])
  IN IF AbsV(q) > 300 THEN -(q * (t \div 50) + (q * (t % 50)) \div 50) ELSE -(2 * q * t) \div 100
OfOutline(b, p, d5, lns) ==
  FoldLeft(LAMBDA acc, k :
    LET n == 4 * (Norm2(Minus(p, Middle(b, k))) + d5 * d5) w == SpeedAt(b, Middle(b, k)) a == Along(b, k)
    IN acc + Psi4(n, b.g[k], lns)
       + (IF b.u = <<0, 0, 0>> THEN 0
          ELSE Psi4(n, -(w[1] * a[1] + w[2] * a[2]), lns) + Turned(b, k, p, w[2] * a[1] - w[1] * a[2])),
    0, [k \in DOMAIN b.c |-> k])
(* the middle of a segment seen right across the middle of the body: either way round *)
Across(b, p) ==
  b.u # <<0, 0, 0>> /\ \E k \in DOMAIN b.c :
    LET c == Minus(b.cofm, p) a == Minus(Middle(b, k), p)
    IN a[1] * c[2] - a[2] * c[1] = 0 /\ a[1] * c[1] + a[2] * c[2] <= 0
OfStream(u, p) == ((p[2] * u[1] - p[1] * u[2]) * 125664)
Psi(f, p, m, d5, frame) ==
  FoldLeft(LAMBDA acc, v : acc + OfVortex(v, p, m, d5, f.lns), 0, f.vort)
  + FoldLeft(LAMBDA acc, s : acc + OfSource(s, p), 0, f.src)
  + FoldLeft(LAMBDA acc, b : acc + OfOutline(b, p, d5, f.lns), 0, f.bodies)
  + OfStream(Minus(f.stream, frame), p)
(* vortices vs of one sign taken together at their centre, seen from p; e2max: *)
(* their smoothing                                                            *)
MissedPsi(vs, p, m, d5) ==
  LET c2 == Centre2(vs) w0 == Norm2(Minus(<<2 * p[1], 2 * p[2]>>, c2))
  IN FoldLeft(LAMBDA acc, v :
       LET s == Norm2(Minus(<<2 * v[1], 2 * v[2]>>, c2)) + 2 r == SqrtV(w0) - SqrtV(s) - 2 e == m * m * MaxV(v[4], 4 * d5 * d5)
       IN IF acc > 500000000 \/ r <= 0 THEN 1000000000
          ELSE acc + AbsV(v[3]) * ((Ratio(s, r * r) \div 100) + (Ratio(e, r * r) \div 100) + 2), 0, vs)

(* -------------------------------------------------------------- vorticity *)
(* e2: what the vortex is spread over, a square; in units of 10^-6 / pi        *)
Blob(v, p, e2) ==
  LET n == Norm2(Minus(p, v)) IN IF n >= 6 * e2 THEN 0 ELSE (v[3] * Exp(Div6(n, e2))) \div e2
Om(vs, p, spread(_)) == FoldLeft(LAMBDA acc, v : acc + Blob(v, p, spread(v)), 0, vs)

(* --------------------------------------------------------------- pressure *)
(* 2 pi Cp in units of 10^-5: what bodies drag along, what they shed in dt,    *)
(* what vortices (velocity in 10^-4) carry along                               *)
Hundred(a, c) == LET P(x) == (x \div c) * 100 + ((x % c) * 100) \div c IN IF a < 0 THEN -P(-a) ELSE P(a)
Dragged(b, p) ==
  FoldLeft(LAMBDA acc, k :
    LET v == Piece(b, Middle(b, k), Along(b, k), p) w == SpeedAt(b, Middle(b, k)) IN acc + (v[1] \div 10) * w[1] + (v[2] \div 10) * w[2],
    0, [k \in DOMAIN b.c |-> k])
RECURSIVE Shed(_, _, _, _, _)
Shed(b, p, k, sum, dt) ==
  IF k > Len(b.c) THEN 0
  ELSE LET s == sum + b.left[k] d == Minus(p, Middle(b, k)) a == Along(b, k)
       IN (Ratio(s * (a[2] * d[1] - a[1] * d[2]), dt * Norm2(d)) \div 10) + Shed(b, p, k + 1, s, dt)
Carried(v, u, p) ==
  LET d == Minus(p, v) IN IF d = <<0, 0>> THEN 0 ELSE (v[3] * Hundred(u[2] * d[1] - u[1] * d[2], Norm2(d))) \div 10
Press(f, us, p, dt) ==
  FoldLeft(LAMBDA acc, b : acc + (IF b.u = <<0, 0, 0>> THEN 0 ELSE Dragged(b, p)) - Shed(b, p, 1, 0, dt), 0, f.bodies)
  + FoldLeft(LAMBDA acc, k : acc + Carried(f.vort[k], us[k], p), 0, [k \in DOMAIN us |-> k])
===============================================================================
