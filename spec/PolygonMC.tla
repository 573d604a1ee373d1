------------------------------ MODULE PolygonMC ------------------------------
(* The definitions agree with each other on every small outline: Pick's      *)
(* theorem, invariance under reversal, shifting and choice of first corner.  *)
EXTENDS Polygon, TLC
CONSTANTS N, Corners
VARIABLES p, done
vars == <<p, done>>
Grid == (0..N) \X (0..N)
Init == p = << >> /\ done = FALSE
Next == \/ ~done /\ Len(p) < Corners /\ \E a \in Grid : p' = Append(p, a) /\ (\A k \in 1..Len(p) : p[k] # a) /\ done' = FALSE
        \/ ~done /\ Len(p) >= 3 /\ Simple(p) /\ done' = TRUE /\ p' = p

Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Rotate(s) == [k \in 1..Len(s) |-> s[Nxt(s, k)]]
Shift(s) == [k \in 1..Len(s) |-> <<s[k][1] + 3, s[k][2] - 2>>]
Border == Cardinality({q \in Grid : OnOutline(p, Twice(q))})
Interior == Cardinality({q \in Grid : ~OnOutline(p, Twice(q)) /\ Encloses(p, Twice(q))})
Pick == done => Abs(Area2(p)) = 2 * Interior + Border - 2
Invariance == done =>
  /\ Area2(Reverse(p)) = -Area2(p) /\ Area2(Rotate(p)) = Area2(p) /\ Area2(Shift(p)) = Area2(p)
  /\ MomentNum(Shift(p)) = MomentNum(p) /\ MomentNum(Rotate(p)) = MomentNum(p)
  /\ MomentNum(Reverse(p)) = MomentNum(p)
  /\ CX(Shift(p)) = CX(p) + 9 * Area2(p) /\ CY(Shift(p)) = CY(p) - 6 * Area2(p)
  /\ MomentNum(p) > 0
Partition == done => \A q \in (-1..(2*N+1)) \X (-1..(2*N+1)) :
  ~OnOutline(p, q) => (Invalid(p, q) # Invalid(Reverse(p), q))
=============================================================================
