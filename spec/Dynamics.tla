------------------------------- MODULE Dynamics -------------------------------
(* The equations of motion a solution of the flow has to satisfy (section    *)
(* "SLAU" of the documentation): conservation of circulation, the force and  *)
(* moment of the fluid on a body, Newton's law, the law of the spring or the *)
(* kinematics of the joint.                                                  *)
(*                                                                           *)
(* A body is a record of integers:                                           *)
(*   c      corners                                                          *)
(*   axis2  twice the axis, hold2 twice the place of the joint on the holder *)
(*   rho2   twice the relative density                                       *)
(*   root   number of the body it is attached to, 0 for none                 *)
(*   rigid  per component (x, y, angle)                                      *)
(*   k, d   spring constants and damping, dpos2 twice the offset             *)
(*   ext    external moment on the spring, ui prescribed speed               *)
(*   special the segment that carries the circulation condition              *)
(*   kutta  whether that segment sheds nothing instead                       *)
(*   v0 = <<x, y, o>> twice the previous speed, f0 previous friction,        *)
(*   fd = impulse of absorbed particles, dead = absorbed circulation         *)
(* and the unknowns in units of 1/u:                                         *)
(*   g per segment, v = <<x, y, o>>, F and H = <<x, y, o>>                   *)
(*   leak   flow through each segment of the fluid relative to it (1/u)      *)
(* A flow is [bodies, u, m, grav, infg, free], m the number of steps per unit   *)
(* of time, free the circulation of the free vortices (1/u).                 *)
EXTENDS Integers, Sequences, FiniteSets

AbsD(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumD(_, _)
SumD(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumD(F, n - 1)
NxD(p, k) == IF k = Len(p) THEN 1 ELSE k + 1
CrossD(a, b) == a[1] * b[2] - a[2] * b[1]

(* outline quantities; solids are listed clockwise *)
Area2D(b) == LET F(k) == -CrossD(b.c[k], b.c[NxD(b.c, k)]) IN SumD(F, Len(b.c))
Area(b) == Area2D(b) \div 2          \* even by choice of the outlines
(* the centre of mass times 2: outlines are chosen so that this is whole *)
Com2(b) ==
  LET F(k) == -CrossD(b.c[k], b.c[NxD(b.c, k)]) * (b.c[k][1] + b.c[NxD(b.c, k)][1])
      G(k) == -CrossD(b.c[k], b.c[NxD(b.c, k)]) * (b.c[k][2] + b.c[NxD(b.c, k)][2])
  IN <<(2 * SumD(F, Len(b.c))) \div (3 * Area2D(b)), (2 * SumD(G, Len(b.c))) \div (3 * Area2D(b))>>
WholeCom(b) ==
  LET F(k) == -CrossD(b.c[k], b.c[NxD(b.c, k)]) * (b.c[k][1] + b.c[NxD(b.c, k)][1])
      G(k) == -CrossD(b.c[k], b.c[NxD(b.c, k)]) * (b.c[k][2] + b.c[NxD(b.c, k)][2])
  IN (2 * SumD(F, Len(b.c))) % (3 * Area2D(b)) = 0 /\ (2 * SumD(G, Len(b.c))) % (3 * Area2D(b)) = 0
(* twelve times the moment of inertia about the axis: shift the outline, in half units *)
J12(b) ==
  LET s(k) == <<2 * b.c[k][1] - b.axis2[1], 2 * b.c[k][2] - b.axis2[2]>>
      F(k) == LET p == s(k) q == s(NxD(b.c, k))
              IN -CrossD(p, q) * (p[1] * p[1] + p[2] * p[2] + p[1] * q[1] + p[2] * q[2] + q[1] * q[1] + q[2] * q[2])
  IN SumD(F, Len(b.c)) \div 16
R2(b) == <<Com2(b)[1] - b.axis2[1], Com2(b)[2] - b.axis2[2]>>   \* twice com - axis

Near0(x, tol) == AbsD(x) <= tol

(* ----------------------------------------------------------- circulation *)
Placed(b) == LET F(k) == b.g[k] IN SumD(F, Len(b.g))
(* the body's own circulation counts as twice its area times its turning *)
Held(b) == Placed(b) + 2 * Area(b) * b.v[3]
First(f) == CHOOSE n \in 1..Len(f.bodies) : ~f.bodies[n].kutta
                    /\ \A k \in 1..(n - 1) : f.bodies[k].kutta
HasFirst(f) == \E n \in 1..Len(f.bodies) : ~f.bodies[n].kutta
Kelvin(f, n) ==
  LET b == f.bodies[n] IN
  IF b.kutta THEN Near0(b.g[b.special], 2)
  ELSE IF n = First(f)
  THEN LET F(k) == Held(f.bodies[k])
       IN Near0(SumD(F, Len(f.bodies)) + f.free + f.u * f.infg,
                20 + LET G(k) == 2 * AbsD(Area(f.bodies[k])) IN SumD(G, Len(f.bodies)))
  ELSE Near0(Held(b) - f.u * b.dead - f.u * Area(b) * b.v0[3], 10 + 2 * AbsD(Area(b)))

(* ------------------------------------------------------ force of the fluid *)
Lever(b, k) == (2 * b.c[k][1] - b.axis2[1]) * (2 * b.c[k][1] - b.axis2[1])
               + (2 * b.c[k][2] - b.axis2[2]) * (2 * b.c[k][2] - b.axis2[2])   \* times 4
ForceX(f, b) ==   \* four times the residual
  LET S == Area(b) F(k) == -b.c[k][2] * b.g[k] E(k) == AbsD(b.c[k][2])
      x == 4 * f.m * SumD(F, Len(b.c)) - 4 * f.m * f.u * b.fd[1]
           + 2 * f.m * S * (2 * b.v[1] - f.u * b.v0[1])
           - f.m * S * (2 * Com2(b)[2] + R2(b)[2]) * (2 * b.v[3] - f.u * b.v0[3])
           - ((f.u * b.v0[3] * b.v0[3] * S * R2(b)[1]) \div 2) + 4 * f.u * b.f0[1] - 4 * b.F[1]
  IN Near0(x, 20 + 2 * f.m * (SumD(E, Len(b.c)) + AbsD(S) * (1 + AbsD(2 * Com2(b)[2] + R2(b)[2]))))
ForceY(f, b) ==
  LET S == Area(b) F(k) == b.c[k][1] * b.g[k] E(k) == AbsD(b.c[k][1])
      x == 4 * f.m * SumD(F, Len(b.c)) - 4 * f.m * f.u * b.fd[2]
           + 2 * f.m * S * (2 * b.v[2] - f.u * b.v0[2])
           + f.m * S * (2 * Com2(b)[1] + R2(b)[1]) * (2 * b.v[3] - f.u * b.v0[3])
           - ((f.u * b.v0[3] * b.v0[3] * S * R2(b)[2]) \div 2) + 4 * f.u * b.f0[2] - 4 * b.F[2]
  IN Near0(x, 20 + 2 * f.m * (SumD(E, Len(b.c)) + AbsD(S) * (1 + AbsD(2 * Com2(b)[1] + R2(b)[1]))))
Moment(f, b) ==   \* 24 times the residual
  LET S == Area(b) F(k) == Lever(b, k) * b.g[k] E(k) == Lever(b, k)
      x == 3 * f.m * SumD(F, Len(b.c)) - 12 * f.m * f.u * b.fd[3]
           + 6 * f.m * S * (R2(b)[1] * (2 * b.v[2] - f.u * b.v0[2]) - R2(b)[2] * (2 * b.v[1] - f.u * b.v0[1]))
           + 2 * f.m * J12(b) * (2 * b.v[3] - f.u * b.v0[3])
           + 24 * f.u * b.f0[3] - 24 * b.F[3]
  IN Near0(x, 60 + 2 * f.m * (3 * SumD(E, Len(b.c)) + 6 * AbsD(S) * (AbsD(R2(b)[1]) + AbsD(R2(b)[2])) + 4 * AbsD(J12(b))))

(* ------------------------------------------------------------ Newton's law *)
Children(f, n) == {k \in 1..Len(f.bodies) : f.bodies[k].root = n}
RECURSIVE Pull(_, _, _)
Pull(f, K, c) == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN f.bodies[k].H[c] + Pull(f, K \ {k}, c)
NewtonX(f, n) ==  \* 8 times the residual
  LET b == f.bodies[n]
      S == Area(b)
      x == -2 * f.m * S * b.rho2 * (2 * b.v[1] - f.u * b.v0[1])
           + f.m * S * b.rho2 * R2(b)[2] * (2 * b.v[3] - f.u * b.v0[3])
           + ((S * b.rho2 * R2(b)[1] * b.v0[3] * b.v0[3] * f.u) \div 2)
           + 8 * b.F[1] - 8 * b.H[1] + 8 * Pull(f, Children(f, n), 1)
           + 4 * f.u * (b.rho2 - 2) * f.grav[1] * S
  IN Near0(x, 60 + 2 * f.m * AbsD(S) * b.rho2 * (2 + AbsD(R2(b)[2])))
NewtonY(f, n) ==
  LET b == f.bodies[n]
      S == Area(b)
      x == -2 * f.m * S * b.rho2 * (2 * b.v[2] - f.u * b.v0[2])
           - f.m * S * b.rho2 * R2(b)[1] * (2 * b.v[3] - f.u * b.v0[3])
           + ((S * b.rho2 * R2(b)[2] * b.v0[3] * b.v0[3] * f.u) \div 2)
           + 8 * b.F[2] - 8 * b.H[2] + 8 * Pull(f, Children(f, n), 2)
           + 4 * f.u * (b.rho2 - 2) * f.grav[2] * S
  IN Near0(x, 60 + 2 * f.m * AbsD(S) * b.rho2 * (2 + AbsD(R2(b)[1])))
RECURSIVE Torque(_, _, _)
Torque(f, n, K) ==  \* twice the moment the children exert
  IF K = {} THEN 0
  ELSE LET k == CHOOSE k \in K : TRUE a == f.bodies[k] b == f.bodies[n]
       IN 2 * a.H[3] - (a.axis2[2] - b.axis2[2]) * a.H[1] + (a.axis2[1] - b.axis2[1]) * a.H[2]
          + Torque(f, n, K \ {k})
NewtonO(f, n) ==  \* 48 times the residual
  LET b == f.bodies[n]
      S == Area(b)
      x == 6 * f.m * S * b.rho2 * (R2(b)[2] * (2 * b.v[1] - f.u * b.v0[1]) - R2(b)[1] * (2 * b.v[2] - f.u * b.v0[2]))
           - f.m * J12(b) * b.rho2 * (2 * b.v[3] - f.u * b.v0[3])
           + 48 * b.F[3] - 48 * b.H[3] + 24 * Torque(f, n, Children(f, n))
           + 12 * f.u * (b.rho2 - 2) * S * (R2(b)[1] * f.grav[2] - R2(b)[2] * f.grav[1])
  IN Near0(x, 400 + 2 * f.m * b.rho2 * (12 * AbsD(S) * (AbsD(R2(b)[1]) + AbsD(R2(b)[2])) + 2 * AbsD(J12(b)))
              + 24 * Cardinality(Children(f, n)) * 40)

(* --------------------------------------------------- spring or stiff joint *)
(* a stiff component follows the body it is attached to as a solid would, at *)
(* the place of the joint *)
Follow(f, b, c) ==
  IF b.root = 0 THEN 0
  ELSE LET r == f.bodies[b.root]
       IN IF c = 1 THEN 2 * r.v[1] - (b.hold2[2] - r.axis2[2]) * r.v[3]
          ELSE IF c = 2 THEN 2 * r.v[2] + (b.hold2[1] - r.axis2[1]) * r.v[3]
          ELSE 2 * r.v[3]                                       \* twice
Joint(f, n, c) ==
  LET b == f.bodies[n]
  IN IF b.rigid[c] \/ ~f.started
     THEN Near0(2 * b.v[c] - 2 * f.u * b.ui[c] - Follow(f, b, c), 40)
     ELSE Near0(2 * b.H[c] - f.u * b.k[c] * b.dpos2[c] - 2 * b.d[c] * b.v[c]
                - (IF c = 3 THEN 2 * f.u * b.ext ELSE 0), 8 + 2 * b.d[c])

(* no fluid passes through a segment, but the one that carries the circulation *)
Tight(b) == \A k \in DOMAIN b.leak : k # b.special => Near0(b.leak[k], 3)

Circulation(f) == \A n \in 1..Len(f.bodies) : Kelvin(f, n)
Motion(f) ==
  \A n \in 1..Len(f.bodies) :
    /\ ForceX(f, f.bodies[n]) /\ ForceY(f, f.bodies[n]) /\ Moment(f, f.bodies[n])
    /\ NewtonX(f, n) /\ NewtonY(f, n) /\ NewtonO(f, n)
    /\ \A c \in 1..3 : Joint(f, n, c)
=============================================================================
