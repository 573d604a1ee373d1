------------------------------- MODULE Filters -------------------------------
(* What the filters of tables compute.  A table is a sequence of rows <<x, y>> *)
(* (lines of comment are not rows); a range [min, max] leaves rows with       *)
(* min < x < max.  Fractions are pairs <<numerator, denominator>>.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

AbsF(a) == IF a < 0 THEN -a ELSE a
SumF(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Ys(t) == [k \in DOMAIN t |-> t[k][2]]
Chosen(t, r) == SelectSeq(t, LAMBDA w : r[1] < w[1] /\ w[1] < r[2])

Average(t, r) == LET c == Chosen(t, r) IN IF c = <<>> THEN <<0, 1>> ELSE <<SumF(Ys(c)), Len(c)>>
(* the square of the standard deviation *)
Variance(t, r) ==
  LET c == Chosen(t, r) n == Len(c)
  IN IF n = 0 THEN <<0, 1>> ELSE <<n * SumF([k \in DOMAIN c |-> c[k][2] * c[k][2]]) - SumF(Ys(c)) * SumF(Ys(c)), n * n>>
(* one row less: differences with the row before *)
Differences(t) == [k \in 1..(Len(t) - 1) |-> t[k + 1][2] - t[k][2]]
(* the mean of the last span rows, of all when there are fewer *)
Smoothed(t, span) ==
  [k \in DOMAIN t |-> LET n == IF k < span THEN k ELSE span
                      IN <<SumF([m \in 1..n |-> t[k - n + m][2]]), n>>]
(* crossings between a row and the next, and rows that are zero, where the    *)
(* row crossed into is in the range                                           *)
Crossing(t, k) == k > 1 /\ ((t[k - 1][2] < 0 /\ t[k][2] > 0) \/ (t[k - 1][2] > 0 /\ t[k][2] < 0))
ZeroAt(t, k) ==
  IF t[k][2] = 0 THEN <<t[k][1], 1>>
  ELSE <<t[k][1] * AbsF(t[k - 1][2]) + t[k - 1][1] * AbsF(t[k][2]), AbsF(t[k - 1][2]) + AbsF(t[k][2])>>
Zeros(t, r) ==
  LET K == SelectSeq([k \in DOMAIN t |-> k], LAMBDA k : r[1] < t[k][1] /\ t[k][1] < r[2] /\ (t[k][2] = 0 \/ Crossing(t, k)))
  IN [n \in DOMAIN K |-> ZeroAt(t, K[n])]
(* a maximum: no higher row in the window around it; the window of span rows  *)
(* lies within the table                                                      *)
Window(k, span) == (k - (span - span \div 2) + 1)..(k + span \div 2)
Whole(t, span) == {k \in DOMAIN t : Window(k, span) \subseteq DOMAIN t}
InRange(t, r, K) == {k \in K : r[1] <= t[k][1] /\ t[k][1] <= r[2]}
Maxima(t, r, span) == {k \in InRange(t, r, Whole(t, span)) : \A m \in Window(k, span) : t[m][2] <= t[k][2]}
Minima(t, r, span) == {k \in InRange(t, r, Whole(t, span)) : \A m \in Window(k, span) : t[m][2] >= t[k][2]}
MeanOf(t, K) == IF K = {} THEN <<0, 1>> ELSE <<SumF([k \in DOMAIN t |-> IF k \in K THEN t[k][2] ELSE 0]), Cardinality(K)>>
Amplitude(t, r, span) ==
  LET a == MeanOf(t, Maxima(t, r, span)) b == MeanOf(t, Minima(t, r, span)) IN <<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>
=============================================================================
