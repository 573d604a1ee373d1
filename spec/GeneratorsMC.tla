---------------------------- MODULE GeneratorsMC ----------------------------
(* Every shape is closed, piece to piece; its arcs begin and end on their     *)
(* circles and turn through what separates their ends; the number of steps of *)
(* every piece is determined, but for ties.                                   *)
EXTENDS Generators
CONSTANT Lengths
VARIABLE e
Dirs == {<<1, 0, 1>>, <<4, 3, 5>>, <<3, 4, 5>>, <<0, 1, 1>>, <<-3, 4, 5>>}
Base == [N |-> 0, dl |-> 250]
Numbers == {[N |-> 0, dl |-> 250], [N |-> 0, dl |-> 610], [N |-> 40, dl |-> 0], [N |-> 97, dl |-> 0]}
Plates ==
  \* sine, cosine, hypotenuse; the radii from the length; socket: radius 3 of 5 or 4 of 5
  { 
    [gen |-> "plate", N |-> n.N, dl |-> n.dl, L |-> 13 * x, R1 |-> x, R2 |-> IF f THEN 6 * x ELSE x,
     s |-> IF f THEN 5 ELSE 0, k |-> IF f THEN 12 ELSE 1, h |-> IF f THEN 13 ELSE 1, start |-> st, stop |-> sp,
     gap |-> LET r == x + ((IF f THEN 5 * x ELSE 0) * sp) \div 8 IN (r * 2) \div 3, ss |-> 3, sh |-> 5]
    : n \in Numbers, x \in {y \in Lengths : y <= 1200}, f \in BOOLEAN, st \in {0, 2}, sp \in {8, 4} }
Init ==
  e \in { [gen |-> "cylinder", N |-> n.N, dl |-> n.dl, R |-> r] : n \in Numbers, r \in Lengths }
     \cup { [gen |-> "semicyl", N |-> n.N, dl |-> n.dl, R |-> r] : n \in Numbers, r \in Lengths }
     \cup { [gen |-> "savonius", N |-> n.N, dl |-> n.dl, R |-> r, h |-> h] : n \in Numbers, r \in {x \in Lengths : x > 400}, h \in {200, 400} }
     \cup { [gen |-> "parallelogram", N |-> n.N, dl |-> n.dl, L |-> l, H |-> h, cx |-> d[1], cy |-> d[2], ch |-> d[3]]
            : n \in Numbers, l \in Lengths, h \in Lengths, d \in {x \in Dirs : x[2] > 0} }
     \cup Plates
     \cup { [gen |-> "chamber_box", N |-> 0, dln |-> a, dls |-> b, L |-> 4 * l, H |-> h, D |-> l, h |-> 600, d |-> l \div 2]
            : a \in {200, 330}, b \in {500, 270}, l \in Lengths, h \in Lengths }
     \cup { [gen |-> "chamber_gpj", N |-> 0, dln |-> a, dls |-> b, R0 |-> r, X0 |-> 0, X1 |-> x, X2 |-> 2 * x, X3 |-> 3 * x,
             cx |-> d[1], cy |-> d[2], ch |-> d[3], L |-> 3 * x + r + 900, H |-> 2 * (r + (x * d[2]) \div d[1]) + 1000]
            : a \in {200, 330}, b \in {500, 270}, r \in Lengths, x \in Lengths \cup {0}, d \in {y \in Dirs : y[1] > 0} }
Next == FALSE /\ UNCHANGED e

Closed ==
  LET s == Shape(e) IN
  \A k \in DOMAIN s : LET n == s[(k % Len(s)) + 1] IN At(s[k].q, n.p[1], n.p[2], 3)
Arcs ==
  LET s == Shape(e) IN
  \A k \in DOMAIN s : s[k].kind = "arc" =>
    /\ Near(Sq2(s[k].p, s[k].c), Sq(s[k].r), 8 * s[k].r + 16)
    /\ Near(Sq2(s[k].q, s[k].c), Sq(s[k].r), 8 * s[k].r + 16)
    \* the chord belongs to the angle: shorter than the arc, and the longer half agrees in side
    /\ Dist(s[k].p, s[k].q) <= Length(s[k]) + 4
    /\ s[k].ang > 0 /\ s[k].ang <= 2 * Pi
    /\ s[k].ang \notin {Pi, 2 * Pi} =>
         LET c == Cross(s[k].p, s[k].q, s[k].c)
             t == IF s[k].ccw THEN c ELSE -c
         IN IF s[k].ang < Pi THEN t >= -(4 * s[k].r) ELSE t <= 4 * s[k].r
Steady ==
  LET s == Shape(e)
      tot == Counted(e)
  IN
  \A k \in DOMAIN s : LET c == Counts(e, tot, s[k]) IN c # {} /\ Cardinality(c) <= 3
=============================================================================
