-------------------------------- MODULE Forces --------------------------------
(* What is reported about the forces on a body in a step.                    *)
(* A body is [c, axis, g, fric, heat, cp, fr, nu, F, H, fric3, prev, nus,    *)
(* dead, fd]: corners and axis; per segment the circulation booked in the    *)
(* step, the friction and the heat it took; profiles of pressure, friction   *)
(* and heat kept for the report; the force of the fluid, of the holder, of   *)
(* friction now and in the step before, heat flux; what was absorbed.        *)
(* Parameters: nu the viscosity over pi, P Reynolds times Prandtl, dt = <<n,d>>. *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumF(_, _)
SumF(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumF(F, n - 1)
NxF(c, k) == IF k = Len(c) THEN 1 ELSE k + 1
AbsF(x) == IF x < 0 THEN -x ELSE x
Dl(c, k) == <<c[NxF(c, k)][1] - c[k][1], c[NxF(c, k)][2] - c[k][2]>>
(* twice the lever of the middle of a segment about a point *)
Lever2(c, k, a) == <<c[NxF(c, k)][1] + c[k][1] - 2 * a[1], c[NxF(c, k)][2] + c[k][2] - 2 * a[2]>>
(* lengths: segments are parallel to an axis, or hypotenuses of 3-4-5        *)
SegLen(c, k) == LET d == Dl(c, k) IN CHOOSE l \in 1..100 : l * l = d[1] * d[1] + d[2] * d[2]

Prefix(g, k) == LET F(j) == g[j] IN SumF(F, k)
(* the force of friction drags each segment along itself *)
DragX(p, b) == LET F(k) == (-Dl(b.c, k)[1] * b.fric[k] * p.nu) \div SegLen(b.c, k) IN SumF(F, Len(b.c))
DragY(p, b) == LET F(k) == (-Dl(b.c, k)[2] * b.fric[k] * p.nu) \div SegLen(b.c, k) IN SumF(F, Len(b.c))
(* its moment about the axis of the body *)
DragO2(p, b) ==
  LET F(k) == LET r == Lever2(b.c, k, b.axis) d == Dl(b.c, k)
              IN -((r[1] * d[2] - r[2] * d[1]) * b.fric[k] * p.nu) \div SegLen(b.c, k)
  IN SumF(F, Len(b.c))
Drag(p, b) == <<DragX(p, b), DragY(p, b), DragO2(p, b) \div 2>>

Report(p, b) ==
  [b EXCEPT !.cp = [k \in DOMAIN b.g |-> b.cp[k] + Prefix(b.g, k)],
            !.fr = [k \in DOMAIN b.g |-> b.fr[k] + (b.fric[k] * p.nu * p.dt[1]) \div p.dt[2]],
            !.nu = [k \in DOMAIN b.g |-> b.nu[k] + (b.heat[k] * p.P) \div SegLen(b.c, k)],
            !.fric3 = Drag(p, b),
            !.nus = ((b.nus + p.P * Prefix(b.heat, Len(b.g))) * p.dt[2]) \div p.dt[1]]
Z(b) == [k \in DOMAIN b.g |-> 0]
Clear(b) ==
  [b EXCEPT !.g = Z(b), !.fric = Z(b), !.heat = Z(b), !.F = <<0, 0, 0>>, !.H = <<0, 0, 0>>,
            !.prev = b.fric3, !.fric3 = <<0, 0, 0>>, !.nus = 0, !.dead = 0, !.fd = <<0, 0, 0>>]
(* the impulse of what a body takes, <<x, y, g>> each: its moment is about the *)
(* axis of the body where it is at the end of the step                        *)
Take(b, axis, taken) ==
  LET X(k) == -(taken[k][2] * taken[k][3]) Y(k) == taken[k][1] * taken[k][3] G(k) == taken[k][3]
      O(k) == ((taken[k][1] - axis[1]) * (taken[k][1] - axis[1]) + (taken[k][2] - axis[2]) * (taken[k][2] - axis[2])) * taken[k][3]
      n == Len(taken)
  IN [fd |-> <<b.fd[1] + SumF(X, n), b.fd[2] + SumF(Y, n), b.fd[3] + SumF(O, n)>>, dead |-> b.dead + SumF(G, n)]
=============================================================================
