------------------------------ MODULE FieldMap ------------------------------
(* A field sampled on a grid of equal squares and its stored form: the number *)
(* of columns, their abscissas, then row by row the ordinate and the values.  *)
(* A field is [x, y, d, nx, ny, z], z row by row.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Pack(f) ==
  <<f.nx>> \o [i \in 1..f.nx |-> f.x + (i - 1) * f.d]
  \o FoldLeft(LAMBDA a, j : a \o <<f.y + (j - 1) * f.d>> \o SubSeq(f.z, (j - 1) * f.nx + 1, j * f.nx), <<>>, [j \in 1..f.ny |-> j])

AbsM(a) == IF a < 0 THEN -a ELSE a
MinM(a, b) == IF a < b THEN a ELSE b
(* a stored form is read when it is a matrix of at least two rows and columns *)
(* whose spacings are positive and agree to a thousandth                      *)
Rows(s) == Len(s) \div (s[1] + 1) - 1
Square(s) ==
  LET dx == s[3] - s[2]
      dy == s[2 * (s[1] + 1) + 1] - s[s[1] + 2]
  IN dx > 0 /\ dy > 0 /\ AbsM(dx - dy) <= MinM(dx, dy) \div 1000
Readable(s) ==
  IF Len(s) < 9 THEN FALSE ELSE IF s[1] <= 1 THEN FALSE ELSE IF Len(s) % (s[1] + 1) # 0 THEN FALSE
  ELSE IF Rows(s) < 2 THEN FALSE ELSE Square(s)
Parse(s) ==
  [x |-> s[2], y |-> s[s[1] + 2], d |-> s[3] - s[2], nx |-> s[1], ny |-> Rows(s),
   z |-> FoldLeft(LAMBDA a, j : a \o SubSeq(s, j * (s[1] + 1) + 2, (j + 1) * (s[1] + 1)), <<>>, [j \in 1..Rows(s) |-> j])]
(* the value in column i of row j, from 0 *)
At(f, i, j) == f.z[j * f.nx + i + 1]
Lowest(f) == CHOOSE v \in ToSet(f.z) : \A w \in ToSet(f.z) : v <= w
Highest(f) == CHOOSE v \in ToSet(f.z) : \A w \in ToSet(f.z) : v >= w
(* the quantile p = n / m of the values that are not zero: the k-th lowest,   *)
(* k = p N rounded down but at least one, for p below a half, else the k-th   *)
(* highest with 1 - p                                                         *)
NonZero(f) == SelectSeq(f.z, LAMBDA v : v # 0)
Quantile(f, n, m) ==
  LET s == SortSeq(NonZero(f), LAMBDA a, b : a < b)
      N == Len(s)
      up == 2 * n >= m
      k0 == ((IF up THEN m - n ELSE n) * N) \div m
      k == IF k0 = 0 THEN 1 ELSE k0
  IN IF N = 0 THEN 0 ELSE IF up THEN s[N + 1 - k] ELSE s[k]
=============================================================================
