------------------------------ MODULE Isoline ------------------------------
(* Contour lines of a field of whole numbers on a square grid. Levels are     *)
(* counted in halves. A place is [x, y] in 1/1680 of the spacing, from the    *)
(* first node. An edge of the grid is crossed by a level when exactly one of  *)
(* its two ends is at or below the level, where the values interpolated       *)
(* along it take the level; in a cell, two crossings are joined, and four are *)
(* joined in two pairs of neighbours.                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Unit == 1680
(* z is a function of nodes <<i, j>> *)
Below(v, c) == 2 * v <= c
Crossed(z, a, b, c) == Below(z[a], c) # Below(z[b], c)
(* steps of 1/1680 from a towards b where the level is *)
Part(u, v, c) == IF v > u THEN ((c - 2 * u) * (Unit \div 2)) \div (v - u) ELSE ((2 * u - c) * (Unit \div 2)) \div (u - v)
Spot(z, a, b, c) ==
  <<Unit * a[1] + (b[1] - a[1]) * Part(z[a], z[b], c), Unit * a[2] + (b[2] - a[2]) * Part(z[a], z[b], c)>>
(* the corners of a cell, one after another around it *)
Corner(p, k) == IF k % 4 = 0 THEN p ELSE IF k % 4 = 1 THEN <<p[1], p[2] + 1>> ELSE IF k % 4 = 2 THEN <<p[1] + 1, p[2] + 1>> ELSE <<p[1] + 1, p[2]>>
Spots(z, p, c) ==
  LET ks == SelectSeq(<<0, 1, 2, 3>>, LAMBDA k : Crossed(z, Corner(p, k), Corner(p, k + 1), c))
  IN [n \in 1..Len(ks) |-> Spot(z, Corner(p, ks[n]), Corner(p, ks[n] + 1), c)]
Less(a, b) == IF a[1] < b[1] THEN TRUE ELSE IF a[1] > b[1] THEN FALSE ELSE a[2] < b[2]
Seg(a, b) == IF Less(b, a) THEN <<b, a>> ELSE <<a, b>>
(* the pieces a cell may have: one of these *)
Drawings(z, p, c) ==
  LET s == Spots(z, p, c)
  IN IF Len(s) = 0 THEN {<<>>} ELSE IF Len(s) = 2 THEN {<<Seg(s[1], s[2])>>}
     ELSE {<<Seg(s[1], s[2]), Seg(s[3], s[4])>>, <<Seg(s[2], s[3]), Seg(s[4], s[1])>>}
Proper(segs) == SelectSeq(segs, LAMBDA s : s[1] # s[2])
Count(segs, s) == Cardinality({k \in DOMAIN segs : segs[k] = s})
SameBag(a, b) == Len(a) = Len(b) /\ ToSet(a) = ToSet(b) /\ \A s \in ToSet(a) : Count(a, s) = Count(b, s)
Cells(nx, ny) == {<<i, j>> : i \in 0..(nx - 2), j \in 0..(ny - 2)}
Inside(q, nx, ny) == 0 < q[1] /\ q[1] < Unit * (nx - 1) /\ 0 < q[2] /\ q[2] < Unit * (ny - 1)
(* the choice made in a cell, by what is drawn *)
Chosen(z, p, c, drawn) ==
  LET fits == {ch \in Drawings(z, p, c) : ToSet(Proper(ch)) \subseteq drawn}
      any == IF fits = {} THEN Drawings(z, p, c) ELSE fits
      most == CHOOSE ch \in any : \A d \in any : Len(Proper(ch)) >= Len(Proper(d))
  IN Proper(most)
Expected(z, nx, ny, levels, drawn) ==
  FoldSet(LAMBDA pc, acc : acc \o Chosen(z, pc[1], pc[2], drawn), <<>>, Cells(nx, ny) \X levels)
(* no node is at a level *)
Generic(z, levels) == \A n \in DOMAIN z : (2 * z[n]) \notin levels

(* Joining: a new piece extends the first line that ends where it starts or   *)
(* ends, which is then joined with another line that ends at the new end.     *)
Swap(l) == Reverse(l)
Touching(lines, s) == {k \in DOMAIN lines : {Head(lines[k]), Last(lines[k])} \cap {s[1], s[2]} # {}}
Lowest(S) == CHOOSE k \in S : \A n \in S : k <= n
Without(lines, k) == SubSeq(lines, 1, k - 1) \o SubSeq(lines, k + 1, Len(lines))
Join(lines, s) ==
  IF Touching(lines, s) = {} THEN <<<<s[1], s[2]>>>> \o lines
  ELSE LET k == Lowest(Touching(lines, s))
           l == lines[k]
           (* turned so that the new piece comes at its end *)
           m == IF Head(l) \in {s[1], s[2]} THEN Swap(l) ELSE l
           other == IF Last(m) = s[1] THEN s[2] ELSE s[1]
           long == Append(m, other)
           rest == {n \in DOMAIN lines \ {k} : other \in {Head(lines[n]), Last(lines[n])}}
       IN IF rest = {} THEN [lines EXCEPT ![k] = long]
          ELSE LET n == Lowest(rest)
                   w == IF Head(lines[n]) = other THEN lines[n] ELSE Swap(lines[n])
               IN Without([lines EXCEPT ![k] = long \o w], n)
Pieces(lines) ==
  FoldLeft(LAMBDA acc, l : acc \o [k \in 1..(Len(l) - 1) |-> Seg(l[k], l[k + 1])], <<>>, lines)
=============================================================================
