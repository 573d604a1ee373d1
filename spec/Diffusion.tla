------------------------------ MODULE Diffusion ------------------------------
(* How viscosity moves vortices, and conduction heat: away from their like    *)
(* and away from walls, so that what they carry spreads.  A vortex of size e  *)
(* sees another at distance d with the weight exp(-d/e), nothing beyond 8 e.  *)
(* Places are integers; weights, sums and velocities are in units of 10^-6.   *)
(* A particle is <<x, y, g, e2>>, e2 the square of its size; a segment        *)
(* <<corner, corner>>.                                                        *)
EXTENDS Velocity
(* a b / 10^6 *)
RECURSIVE Mul(_, _)
Mul(a, b) ==
  IF a < 0 THEN -Mul(-a, b)
  ELSE IF b < 0 THEN -Mul(a, -b)
  ELSE IF b > 2000000 THEN 10 * Mul(a, b \div 10)
  ELSE IF a > 1000000 THEN 10 * Mul(a \div 10, b)
  ELSE ((a \div 1000) * b) \div 1000 + ((a % 1000) * b) \div 1000000
(* 10^4 sqrt(n), n up to 2*10^5 *)
Root4(n) ==
  IF n = 0 THEN 0 ELSE LET r == SqrtV(n * 10000) IN r * 100 + ((n * 10000 - r * r) * 50) \div r
E4 == <<1000000, 778801, 606531, 472367, 367879, 286505, 223130, 173774, 135335, 105399, 82085, 63928, 49787,
        38774, 30197, 23518, 18316, 14264, 11109, 8652, 6738, 5248, 4087, 3183, 2479, 1930, 1503, 1171, 912, 710, 553, 431, 335>>
Exp(x) ==       \* exp(-x), x in units of 10^-6, from 0 to 8
  LET k == x \div 250000 f == x % 250000 a == f \div 10
      f2 == (a * a) \div 10000 f3 == (f2 * a) \div 100000 f4 == (f3 * a) \div 100000
  IN Mul(E4[k + 1], 1000000 - f + f2 \div 2 - f3 \div 6 + f4 \div 24)
Far8(d2, e2) == d2 > 64 * e2
X(d2, e2) == Div6(Root4(d2), Root4(e2))
(* the weight of what is at distance^2 d2 *)
Seen(d2, e2) == IF Far8(d2, e2) THEN 0 ELSE LET x == X(d2, e2) IN IF x > 8000000 THEN 0 ELSE Exp(x)

(* ------------------------------------------------ by particles of its sign *)
Like(v, w) == v[3] * w[3] > 0 /\ (v[1] # w[1] \/ v[2] # w[2])
Push(v, w) ==   \* <<weight, weighted direction away from w>>
  LET d == Minus(v, w) d2 == Norm2(d) s == Seen(d2, v[4]) r == Root4(d2)
  IN IF s = 0 THEN <<0, 0, 0>>
     ELSE <<w[3] * s, w[3] * Mul(s, Ratio(d[1] * 10000, r)), w[3] * Mul(s, Ratio(d[2] * 10000, r))>>
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
ByLike(v, near) == FoldLeft(LAMBDA acc, w : IF Like(v, w) THEN Add3(acc, Push(v, w)) ELSE acc, <<0, 0, 0>>, near)
(* the density around is not less than a tenth of its own *)
Density(v, p) ==
  IF p[1] = 0 \/ (p[1] > 0) # (v[3] > 0) \/ AbsV(p[1]) < 100000 * AbsV(v[3]) THEN 100000 * v[3] ELSE p[1]
(* a / b with b not small *)
Over(a, b) ==
  LET A == AbsV(a) B == AbsV(b) r == IF B > 20000000 THEN Div6(A \div 100, B \div 100) ELSE Div6(A, B)
  IN IF (a < 0) = (b < 0) THEN r ELSE -r

(* -------------------------------------------------------------- by walls *)
SMid(s) == <<(s[1][1] + s[2][1]) \div 2, (s[1][2] + s[2][2]) \div 2>>
SOut(s) == <<-(s[2][2] - s[1][2]), s[2][1] - s[1][1]>>      \* normal, as long as the segment
SLen4(s) == Root4(Norm2(SOut(s)))
(* <<share of the weight that the wall hides, normal weighted>> *)
Wall(v, s) ==
  LET d == Minus(v, SMid(s)) d2 == Norm2(d) n == SOut(s) w == Seen(d2, v[4])
  IN IF w = 0 THEN <<0, 0, 0>>
     ELSE <<Mul(Mul(w, Ratio(d[1] * n[1] + d[2] * n[2], d2)), X(d2, v[4]) + 1000000), n[1] * w, n[2] * w>>
ByWalls(v, segs) == FoldLeft(LAMBDA acc, s : Add3(acc, Wall(v, s)), <<0, 0, 0>>, segs)
Pi6 == 3141593
(* what the particle's velocity times its size times Re is *)
Spread(v, near, segs) ==
  LET p == ByLike(v, near) q == ByWalls(v, segs) D == Density(v, p)
      h == IF q[1] > Pi6 THEN Pi6 ELSE q[1]
      W(c) == Ratio(Over(q[c], 2 * Pi6 - h) \div 100, Root4(v[4]))
  IN <<Over(p[2], D) + W(2), Over(p[3], D) + W(3)>>
(* what all vortices give to the segment's friction *)
Friction(s, vs) ==
  FoldLeft(LAMBDA acc, v : acc + (LET w == Seen(Norm2(Minus(v, SMid(s))), v[4])
                                  IN (v[3] * Mul(w, SLen4(s)) * 100) \div v[4]), 0, vs)
(* heat: velocity times Re Pr *)
HeatTop(v, p, q, c) == Ratio(p[c] \div 100, Root4(v[4])) + q[c]
HeatDensity(v, p, q) == Density(v, p) + q[1] * v[4]
Conduct(v, near, segs) ==
  LET p == ByLike(v, near) q == ByWalls(v, segs) D == HeatDensity(v, p, q)
  IN <<Over(HeatTop(v, p, q, 2), D), Over(HeatTop(v, p, q, 3), D)>>
=============================================================================
