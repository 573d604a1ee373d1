------------------------------ MODULE FiltersMC ------------------------------
(* Every short table over few values.                                        *)
EXTENDS Filters
CONSTANTS N, Top
VARIABLES t, r, span
Init == /\ \E n \in 0..N, y \in [1..N -> 0..Top] : t = [k \in 1..n |-> <<k, y[k] - Top \div 2>>]
        /\ \E a \in 0..N, b \in 1..(N + 1) : r = <<a, b>>
        /\ span \in 1..(N + 1)
Next == FALSE /\ UNCHANGED <<t, r, span>>
All == <<-1000, 1000>>
(* between the least and the greatest value *)
Bounded(f, S) == S = {} \/ ((\E a \in S : f[1] <= a * f[2]) /\ (\E a \in S : f[1] >= a * f[2]))
YSet(s) == {s[k][2] : k \in DOMAIN s}
AverageOk == Bounded(Average(t, r), YSet(Chosen(t, r)))
VarianceOk == Variance(t, r)[1] >= 0 /\ ((Variance(t, r)[1] = 0) <=> (Cardinality(YSet(Chosen(t, r))) <= 1))
(* the differences rebuild the column *)
Rebuild == Len(t) > 1 => SumF(Differences(t)) = t[Len(t)][2] - t[1][2]
SmoothOk ==
  /\ Len(Smoothed(t, span)) = Len(t)
  /\ span = 1 => \A k \in DOMAIN t : Smoothed(t, 1)[k] = <<t[k][2], 1>>
  /\ span >= Len(t) /\ t # <<>> => Smoothed(t, span)[Len(t)] = Average(t, All)
(* two rows of different sign have a zero between or at them; zeros ascend    *)
ZerosOk ==
  LET z == Zeros(t, All)
  IN /\ \A k \in DOMAIN z : k > 1 => z[k - 1][1] * z[k][2] < z[k][1] * z[k - 1][2]
     /\ \A a, b \in DOMAIN t : a < b /\ (t[a][2] * t[b][2]) < 0 =>
           \E k \in DOMAIN z : a * z[k][2] < z[k][1] /\ z[k][1] < b * z[k][2]
     /\ (\A a, b \in DOMAIN t : t[a][2] * t[b][2] > 0) => z = <<>>
AmplitudeOk ==
  /\ Cardinality(YSet(t)) <= 1 => Amplitude(t, All, span)[1] = 0
  /\ span >= 2 /\ Maxima(t, r, span) # {} /\ Minima(t, r, span) # {} /\ Cardinality(Maxima(t, r, span)) + Cardinality(Minima(t, r, span)) = 2
       => Amplitude(t, r, span)[1] >= 0 \/ \E k \in Maxima(t, r, span), m \in Minima(t, r, span) : m \notin Window(k, span)
=============================================================================
