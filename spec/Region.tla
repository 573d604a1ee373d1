-------------------------------- MODULE Region --------------------------------
(* Which points are out of the flow, at fine resolution: outlines and points *)
(* are in the same integer unit, outlines at most 30000 units across, placed *)
(* anywhere.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
LOCAL AbsR(x) == IF x < 0 THEN -x ELSE x
LOCAL Nx(p, k) == IF k = Len(p) THEN 1 ELSE k + 1
(* relative to the first corner everything on the outline's scale fits *)
LOCAL Rel(p, q) == <<q[1] - p[1][1], q[2] - p[1][2]>>
LOCAL Turn(a, b, q) == (b[1] - a[1]) * (q[2] - a[2]) - (b[2] - a[2]) * (q[1] - a[1])
Lo(p, c) == Min({p[k][c] : k \in 1..Len(p)})
Hi(p, c) == Max({p[k][c] : k \in 1..Len(p)})
InBox(p, q) == Lo(p, 1) <= q[1] /\ q[1] <= Hi(p, 1) /\ Lo(p, 2) <= q[2] /\ q[2] <= Hi(p, 2)
(* within one unit of the outline: such points may count either way *)
Between(x, a, b) == (a - 1 <= x /\ x <= b + 1) \/ (b - 1 <= x /\ x <= a + 1)
Near1(p, q) == InBox(p, q) /\ \E k \in 1..Len(p) :
  LET a == p[k] b == p[Nx(p, k)]
  IN Between(q[1], a[1], b[1]) /\ Between(q[2], a[2], b[2])
     /\ AbsR(Turn(a, b, q)) <= AbsR(b[1] - a[1]) + AbsR(b[2] - a[2])
LOCAL Cuts(a, b, q) ==
  LET c == Turn(a, b, q)
  IN (a[1] <= q[1] /\ q[1] < b[1] /\ c < 0) \/ (b[1] <= q[1] /\ q[1] < a[1] /\ c > 0)
Surrounds(p, q) == InBox(p, q) /\ Cardinality({k \in 1..Len(p) : Cuts(p[k], p[Nx(p, k)], q)}) % 2 = 1
(* listed clockwise: a solid.  Decided at the lowest leftmost corner. *)
LOCAL Corner(p) == CHOOSE k \in 1..Len(p) :
  \A l \in 1..Len(p) : p[k][2] < p[l][2] \/ (p[k][2] = p[l][2] /\ p[k][1] <= p[l][1])
Solid(p) ==
  LET k == Corner(p) a == p[IF k = 1 THEN Len(p) ELSE k - 1] IN Turn(a, p[k], p[Nx(p, k)]) < 0
Out(p, q) == IF Solid(p) THEN Surrounds(p, q) ELSE ~Surrounds(p, q)
(* the segments whose middle is nearest, up to the resolution of 100 units *)
LOCAL D(p, k, q) ==
  LET dx == (p[k][1] + p[Nx(p, k)][1] - 2 * q[1]) \div 200
      dy == (p[k][2] + p[Nx(p, k)][2] - 2 * q[2]) \div 200
  IN dx * dx + dy * dy
NearestSegs(p, q) ==
  LET m == Min({D(p, k, q) : k \in 1..Len(p)})
      c == IF m > 40000 THEN 4000 ELSE 1600
  IN {k \in 1..Len(p) : D(p, k, q) <= m + c}
=============================================================================
