------------------------------- MODULE Symmetry -------------------------------
(* What may not matter to a flow: where the origin of coordinates is, which   *)
(* way the axes point, when the clock was started, in which order the bodies  *)
(* are listed.  A change of view is [q, by, later, perm]: turn by q quarters, *)
(* then shift; later: the clock's difference; perm[n] the place of the body n.*)
EXTENDS Integers, Sequences, FiniteSets

TurnS(q, p) == CASE q % 4 = 0 -> p
                 [] q % 4 = 1 -> <<-p[2], p[1]>>
                 [] q % 4 = 2 -> <<-p[1], -p[2]>>
                 [] q % 4 = 3 -> <<p[2], -p[1]>>
(* a place, and a vector with a moment, seen the other way *)
PlaceS(T, p) == <<TurnS(T.q, <<p[1], p[2]>>)[1] + T.by[1], TurnS(T.q, <<p[1], p[2]>>)[2] + T.by[2]>>
VectorS(T, v) == TurnS(T.q, <<v[1], v[2]>>)
Vector3S(T, v) == LET w == TurnS(T.q, <<v[1], v[2]>>) IN <<w[1], w[2], v[3]>>

NearS(a, b, tol) == a - b <= tol /\ b - a <= tol
NearV(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : NearS(a[k], b[k], tol)

(* a body is [c, axis, hold, angle, g, gsum, v, F, H, dead]                    *)
SameBody(T, a, b, tol) ==
  /\ Len(a.c) = Len(b.c)
  /\ \A k \in DOMAIN a.c : NearV(PlaceS(T, a.c[k]), b.c[k], tol)
  /\ NearV(PlaceS(T, a.axis), b.axis, tol) /\ NearV(PlaceS(T, a.hold), b.hold, tol)
  /\ NearV(a.angle, b.angle, tol)
  /\ NearV(a.g, b.g, tol) /\ NearV(a.gsum, b.gsum, tol) /\ NearS(a.dead, b.dead, tol)
  /\ NearV(Vector3S(T, a.v), b.v, tol)
  /\ \A f \in {"F", "H", "drag"} : NearV(Vector3S(T, a[f]), b[f], 10 * tol)
(* particles <<x, y, g>>: the same ones, in any order *)
Found(T, A, B, tol) ==
  \A k \in DOMAIN A : LET p == PlaceS(T, A[k])
    IN \E l \in DOMAIN B : NearS(p[1], B[l][1], tol) /\ NearS(p[2], B[l][2], tol) /\ NearS(A[k][3], B[l][3], tol)
BackS(T, p) == TurnS(4 - T.q, <<p[1] - T.by[1], p[2] - T.by[2]>>)
FoundBack(T, A, B, tol) ==
  \A l \in DOMAIN B : LET p == BackS(T, B[l])
    IN \E k \in DOMAIN A : NearS(p[1], A[k][1], tol) /\ NearS(p[2], A[k][2], tol) /\ NearS(A[k][3], B[l][3], tol)
SameParticles(T, A, B, tol) == Len(A) = Len(B) /\ Found(T, A, B, tol) /\ FoundBack(T, A, B, tol)

(* a flow is [time, bodies, vort, ink, marker] *)
SameFlow(T, a, b, tol) ==
  /\ b.time = a.time + T.later
  /\ Len(a.bodies) = Len(b.bodies)
  /\ \A n \in DOMAIN a.bodies : SameBody(T, a.bodies[n], b.bodies[T.perm[n]], tol)
  /\ SameParticles(T, a.vort, b.vort, tol) /\ SameParticles(T, a.ink, b.ink, tol)
  /\ NearV(VectorS(T, a.marker), b.marker, tol)
=============================================================================
