----------------------------- MODULE StreamlinesMC -----------------------------
(* Lines of every small map at every level: they end at the border only.      *)
EXTENDS Streamlines
CONSTANTS W, H, V
VARIABLES z, c, way
Init == way \in 1..2 /\ z \in [1..H -> [1..W -> 0..V]] /\ c \in -1..(2 * V)
Next == FALSE /\ UNCHANGED <<z, c, way>>
(* twice the map, so that some levels lie between its values *)
z2 == [j \in 1..H |-> [i \in 1..W |-> 2 * z[j][i]]]
(* saddles one way or the other *)
L == UNION {LET w == WaysOf(z2, << >>, q, c) IN IF Cardinality(w) = 1 \/ way = 1 THEN CHOOSE x \in w : TRUE
                                                ELSE CHOOSE x \in w : x # CHOOSE y \in w : TRUE : q \in Cells(z2)}
Ends(p) == Cardinality({s \in L : s[1] = p /\ s[2] # p}) + Cardinality({s \in L : s[2] = p /\ s[1] # p})
Places == {s[1] : s \in L} \cup {s[2] : s \in L}
EvenMeets == \A q \in Cells(z2) : Len(Meets(Corners(z2, << >>, q[1], q[2]), q[1], q[2], c)) % 2 = 0
(* a level no node has is met on a side by two cells or, on the border, one *)
Goes == c % 2 = 1 => \A p \in Places : IF OnBorder(z2, p) THEN Ends(p) = 1 ELSE Ends(p) = 2
=============================================================================
