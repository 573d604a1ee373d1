------------------------------- MODULE Streamlines -------------------------------
(* Lines a map takes given levels along, with the jumps behind sources (with  *)
(* none of them: Isoline.tla, which also says how the pieces are joined).     *)
(* z: its rows, from the bottom up; a place in it is counted in cells, times  *)
(* T.  cuts: <<column, row, jump>> of the sources, behind which the stream    *)
(* function jumps: the columns up to that one, at the bottom of that row, are *)
(* seen on the other side.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
T == 10000
Abs(a) == IF a < 0 THEN -a ELSE a
At(z, i, j) == z[j + 1][i + 1]
Jump(cuts, i, j) == FoldLeft(LAMBDA acc, c : IF c[2] = j /\ c[1] >= i THEN acc + c[3] ELSE acc, 0, cuts)
(* the corners of a cell, clockwise from the lower left one and back to it:   *)
(* round a source that is not the same, the jump lies across the left side    *)
Corners(z, cuts, i, j) ==
  <<At(z, i, j) + Jump(cuts, i, j), At(z, i, j + 1), At(z, i + 1, j + 1), At(z, i + 1, j) + Jump(cuts, i + 1, j),
    At(z, i, j) + Jump(cuts, i + 1, j)>>
Crosses(a, b, c) == (a <= c /\ c < b) \/ (b <= c /\ c < a)
(* a goes to b over T: where c is met *)
Met(a, b, c) == (T * (c - a)) \div (b - a)
(* where level c meets the sides of a cell: left, top, right, bottom *)
Meets(k, i, j, c) ==
  (IF Crosses(k[1], k[2], c) THEN << <<T * i, T * j + Met(k[1], k[2], c)>> >> ELSE << >>)
  \o (IF Crosses(k[2], k[3], c) THEN << <<T * i + Met(k[2], k[3], c), T * j + T>> >> ELSE << >>)
  \o (IF Crosses(k[3], k[4], c) THEN << <<T * i + T, T * j + Met(k[4], k[3], c)>> >> ELSE << >>)
  \o (IF Crosses(k[4], k[5], c) THEN << <<T * i + Met(k[5], k[4], c), T * j>> >> ELSE << >>)
(* every level meets the border of a cell an even number of times; of a saddle *)
(* either pair of pieces will do                                              *)
Ways(k, i, j, c) ==
  LET m == Meets(k, i, j, c)
  IN IF Len(m) = 4 THEN {{<<m[1], m[2]>>, <<m[3], m[4]>>}, {<<m[2], m[3]>>, <<m[4], m[1]>>}}
     ELSE IF Len(m) = 2 THEN {{<<m[1], m[2]>>}} ELSE {{}}
Cells(z) == {<<i, j>> : i \in 0..(Len(z[1]) - 2), j \in 0..(Len(z) - 2)}
WaysOf(z, cuts, q, c) == Ways(Corners(z, cuts, q[1], q[2]), q[1], q[2], c)
OnBorder(z, p) == p[1] = 0 \/ p[2] = 0 \/ p[1] = T * (Len(z[1]) - 1) \/ p[2] = T * (Len(z) - 1)
===============================================================================
