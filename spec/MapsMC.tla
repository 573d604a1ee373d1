-------------------------------- MODULE MapsMC --------------------------------
(* Differences of the stream function are the flow of Velocity.tla; Gaussians  *)
(* sum up to the circulation; logarithm and angle are what they are.          *)
EXTENDS Maps
CONSTANTS W, R, NV
VARIABLES f, p
Grid == (0..W) \X (0..W)
RECURSIVE Tuples(_)
Tuples(n) == IF n = 0 THEN {<< >>} ELSE {Append(s, <<a[1], a[2], g, 4>>) : s \in Tuples(n - 1), a \in Grid, g \in {-2, 3}}
Flows == {[vort |-> v, src |-> s, bodies |-> << >>, stream |-> u, lns |-> 0] :
            v \in UNION {Tuples(n) : n \in 0..NV}, s \in {<< >>, <<<<1, 0, 4, 1>>>>}, u \in {<<0, 0>>, <<2, -1>>}}
Init == f \in Flows /\ p \in {<<R, 1>>, <<R + 2, -3>>, <<2, R>>, <<-1, -R>>, <<R, R + 1>>}
Next == UNCHANGED <<f, p>>
At4(q) == Psi(f, q, 1, 0, <<0, 0>>)
(* 4 pi (psi(p + 1) - psi(p - 1)) / 2 in 10^-4 against 2 pi u in 10^-6: the    *)
(* curvature makes a 3 R^2th of the whole, smoothing an R^2th, the source's     *)
(* smoothing the same                                                          *)
IsFlow ==
  LET u == At(f, p)
      x == (At4(<<p[1], p[2] + 1>>) - At4(<<p[1], p[2] - 1>>)) * 25
      y == -(At4(<<p[1] + 1, p[2]>>) - At4(<<p[1] - 1, p[2]>>)) * 25
      tol == 1000 + 8 * (1000000 \div (R * R * (R - 2))) * (2 + 3 * Len(f.vort))
  IN AbsV(x - u[1]) <= tol /\ AbsV(y - u[2]) <= tol
(* a frame that moves with the stream sees none of it *)
Along0 == Psi(f, p, 1, 0, f.stream) = Psi([f EXCEPT !.stream = <<0, 0>>], p, 1, 0, <<0, 0>>)
Together ==      \* taken together, off by no more than said
  LET vs == SelectSeq(f.vort, LAMBDA v : v[3] > 0) IN
  Len(vs) < 2 \/ (LET c == Centre2(vs) IN c[1] % 2 = 1 \/ c[2] % 2 = 1) \/ Weight(vs) * Centre2(vs)[1] # FoldLeft(LAMBDA acc, v : acc + 2 * v[3] * v[1], 0, vs)
     \/ Weight(vs) * Centre2(vs)[2] # FoldLeft(LAMBDA acc, v : acc + 2 * v[3] * v[2], 0, vs)
     \/ LET c == Centre2(vs) one == <<c[1] \div 2, c[2] \div 2, Weight(vs), 0>>
            a == FoldLeft(LAMBDA acc, v : acc + OfVortex(v, p, 1, 0, 0), 0, vs)
        IN AbsV(a - OfVortex(one, p, 1, 0, 0)) <= MissedPsi(vs, p, 1, 0)
ASSUME \A a \in 1..60 : \A b \in 1..60 : AbsV(Ln(a * b) - Ln(a) - Ln(b)) <= 12
ASSUME AbsV(Ln(10000000) - 16118096) <= 12
ASSUME \A y \in -12..12 : \A x \in -12..12 :
         (x # 0 \/ y # 0) => /\ AbsV(Atan2(x, -y) - Atan2(y, x) - HalfPi) <= 6 \/ AbsV(Atan2(x, -y) - Atan2(y, x) + 3 * HalfPi) <= 6
                             /\ y # 0 => Atan2(-y, x) = -Atan2(y, x)
ASSUME AbsV(Atan2(1, 1) - 785398) <= 2 /\ AbsV(Atan2(1, 2) - 463648) <= 2 /\ AbsV(Atan2(-1, -3) + 2819842) <= 3
(* 3141593 = pi *)
ASSUME LET s == FoldLeft(LAMBDA acc, x : acc + FoldLeft(LAMBDA bcc, y : bcc + Blob(<<0, 0, 1, 0>>, <<x, y>>, 9), 0, [k \in 1..19 |-> k - 10]),
                         0, [k \in 1..19 |-> k - 10])
       IN AbsV(s - 3141593) <= 12000
===============================================================================
