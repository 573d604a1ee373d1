----------------------------- MODULE SortedTree -----------------------------
(* The spatial tree.  Objects are records [x, y, g] with integer             *)
(* coordinates; a cell is the tight rectangle of its content.  Boxes are     *)
(* [x2, y2, w, h]: twice the centre, width, height.                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
MinOf(S) == CHOOSE a \in S : \A b \in S : b >= a

SumOver(S, F(_)) == MapThenSumSet(F, S)

Inside(b, o) == Abs(2 * o.x - b.x2) <= b.w /\ Abs(2 * o.y - b.y2) <= b.h
(* two cells are far from each other: the squared distance of the centres    *)
(* exceeds crit times the square of the sum of their half perimeters *)
FarApart(a, b, crit) ==
  LET dx == a.x2 - b.x2 dy == a.y2 - b.y2 p == a.w + a.h + b.w + b.h
  IN dx * dx + dy * dy > 4 * crit * p * p

(* a cell may stay whole *)
MayBeLeaf(b, n, mn, mx, limit) ==
  Max2(b.w, b.h) < mx /\ (Min2(b.w, b.h) <= mn \/ n < limit)

(* ------------------------------------------------ the way a tree is built *)
Box(S) == LET xs == {o.x : o \in S} ys == {o.y : o \in S}
          IN [x2 |-> MaxOf(xs) + MinOf(xs), y2 |-> MaxOf(ys) + MinOf(ys),
              w |-> MaxOf(xs) - MinOf(xs), h |-> MaxOf(ys) - MinOf(ys)]
Low(S) == LET b == Box(S) IN IF b.h < b.w THEN {o \in S : 2 * o.x < b.x2} ELSE {o \in S : 2 * o.y < b.y2}
RECURSIVE Cells(_, _, _, _)
Cells(S, mn, mx, limit) ==
  IF MayBeLeaf(Box(S), Cardinality(S), mn, mx, limit) THEN {S}
  ELSE {S} \cup Cells(Low(S), mn, mx, limit) \cup Cells(S \ Low(S), mn, mx, limit)
Leaf(S, mn, mx, limit) == MayBeLeaf(Box(S), Cardinality(S), mn, mx, limit)
Children(S) == {Low(S), S \ Low(S)}
RECURSIVE Near(_, _, _, _, _, _)
(* the near and the far cells of a leaf, seen from cell T downwards *)
Near(S, T, crit, mn, mx, limit) ==
  IF FarApart(Box(S), Box(T), crit) THEN {}
  ELSE IF Leaf(T, mn, mx, limit) THEN {T}
  ELSE UNION {Near(S, U, crit, mn, mx, limit) : U \in Children(T)}
RECURSIVE Far(_, _, _, _, _, _)
Far(S, T, crit, mn, mx, limit) ==
  IF FarApart(Box(S), Box(T), crit) THEN {T}
  ELSE IF Leaf(T, mn, mx, limit) THEN {}
  ELSE UNION {Far(S, U, crit, mn, mx, limit) : U \in Children(T)}

(* --------------------------------------------------- what a tree promises *)
(* a family of sets covers U exactly once *)
Partition(F, U) == UNION F = U /\ \A A, B \in F : A # B => A \cap B = {}
Plus(S) == {o \in S : o.g > 0}
Minus(S) == {o \in S : o.g <= 0}
=============================================================================
