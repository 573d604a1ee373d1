------------------------------- MODULE Polygon -------------------------------
(* The geometry of a closed outline with integer corners.  A polygon is a    *)
(* sequence of corners <<x, y>>; a query point is given in half units.       *)
(* Listed clockwise it is a solid body (positive area), counter-clockwise a  *)
(* hollow whose inside is the allowed region.                                *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Nxt(p, k) == IF k = Len(p) THEN 1 ELSE k + 1
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>

RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
Sum(p, F(_)) == SumTo(F, Len(p))

(* twice the area, positive for a solid (clockwise) *)
Area2(p) == LET F(k) == -Cross(p[k], p[Nxt(p, k)]) IN Sum(p, F)
(* the centre of mass is <<CX, CY>> / (3 Area2) *)
CX(p) == LET F(k) == -Cross(p[k], p[Nxt(p, k)]) * (p[k][1] + p[Nxt(p, k)][1]) IN Sum(p, F)
CY(p) == LET F(k) == -Cross(p[k], p[Nxt(p, k)]) * (p[k][2] + p[Nxt(p, k)][2]) IN Sum(p, F)
(* twelve times the moment of inertia about the origin *)
M12(p) == LET F(k) == LET a == p[k] b == p[Nxt(p, k)]
                      IN -Cross(a, b) * (Dot(a, a) + Dot(a, b) + Dot(b, b))
          IN Sum(p, F)
(* 36 Area2 times the moment about the centre of mass *)
MomentNum(p) == 3 * Area2(p) * M12(p) - 2 * (CX(p) * CX(p) + CY(p) * CY(p))

(* integer square root *)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2
                        IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46340)
(* the length of the outline, in units of 1/256, rounded down edge by edge *)
Length256(p) == LET F(k) == ISqrt(65536 * Dot(Sub(p[Nxt(p, k)], p[k]), Sub(p[Nxt(p, k)], p[k])))
                IN Sum(p, F)

(* query points q are in half units *)
Twice(a) == <<2 * a[1], 2 * a[2]>>
OnEdge(p, k, q) == LET a == Twice(p[k]) b == Twice(p[Nxt(p, k)])
                   IN /\ Cross(Sub(b, a), Sub(q, a)) = 0
                      /\ Dot(Sub(q, a), Sub(q, b)) <= 0
OnOutline(p, q) == \E k \in 1..Len(p) : OnEdge(p, k, q)
(* how often the upward ray from q crosses the outline: an edge counts if it *)
(* spans q's abscissa (half open) and passes above q *)
Above(p, k, q) == LET a == Twice(p[k]) b == Twice(p[Nxt(p, k)])
                      s == (a[1] <= q[1] /\ q[1] < b[1])
                      t == (b[1] <= q[1] /\ q[1] < a[1])
                      c == Cross(Sub(b, a), Sub(q, a))
                  IN (s /\ c < 0) \/ (t /\ c > 0)
Crossings(p, q) == Cardinality({k \in 1..Len(p) : Above(p, k, q)})
Encloses(p, q) == (Crossings(p, q) % 2) = 1
(* is a particle at q out of the flow *)
Invalid(p, q) == IF Area2(p) > 0 THEN Encloses(p, q) ELSE ~Encloses(p, q)
(* four times the squared distance of q/2 from the middle of edge k *)
Dist4(p, k, q) == LET m == <<p[k][1] + p[Nxt(p, k)][1], p[k][2] + p[Nxt(p, k)][2]>>
                  IN Dot(Sub(q, m), Sub(q, m))
Nearest(p, k, q) == \A l \in 1..Len(p) : Dist4(p, k, q) <= Dist4(p, l, q)

(* a simple outline: different corners, edges touch at common corners only *)
SegTouch(a, b, c, d) ==
  LET s(x, y, z) == LET v == Cross(Sub(y, x), Sub(z, x)) IN IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
      on(x, y, z) == s(x, y, z) = 0 /\ Dot(Sub(x, z), Sub(y, z)) <= 0
  IN \/ (s(a, b, c) # s(a, b, d) /\ s(c, d, a) # s(c, d, b)
         /\ s(a, b, c) # 0 /\ s(a, b, d) # 0 /\ s(c, d, a) # 0 /\ s(c, d, b) # 0)
     \/ on(a, b, c) \/ on(a, b, d) \/ on(c, d, a) \/ on(c, d, b)
Simple(p) ==
  /\ \A k, l \in 1..Len(p) : k < l => p[k] # p[l]
  /\ \A k, l \in 1..Len(p) :
       (k < l /\ l # Nxt(p, k) /\ k # Nxt(p, l)) => ~SegTouch(p[k], p[Nxt(p, k)], p[l], p[Nxt(p, l)])
  /\ \A k \in 1..Len(p) :
       LET a == p[k] b == p[Nxt(p, k)] c == p[Nxt(p, Nxt(p, k))]
       IN ~(Cross(Sub(b, a), Sub(c, b)) = 0 /\ Dot(Sub(b, a), Sub(c, b)) < 0)
  /\ Area2(p) # 0
=============================================================================
