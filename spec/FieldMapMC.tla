----------------------------- MODULE FieldMapMC -----------------------------
(* All small fields and all short lists of small numbers.                     *)
EXTENDS FieldMap
CONSTANTS Values, Length
VARIABLES f, s
Fields == UNION {[x : {0, -1}, y : {0, 2}, d : {1, 2}, nx : {a}, ny : {b}, z : [1..(a * b) -> Values]] : a \in 2..3, b \in {2}}
Init == f \in Fields /\ s = <<2, 0>>
Next == Len(s) < Length /\ \E v \in {0, 1, 2} : s' = Append(s, v) /\ UNCHANGED f
Once == f = CHOOSE g \in Fields : TRUE      \* the lists need only one field
UpTo(S, v) == Cardinality({k \in DOMAIN S : S[k] <= v})
RoundTrip == s = <<2, 0>> => Readable(Pack(f)) /\ Parse(Pack(f)) = f
Back == Readable(s) => Len(Pack(Parse(s))) = Len(s) /\ Parse(Pack(Parse(s))) = Parse(s)
Ordered ==
  s = <<2, 0>> => \A n \in 1..7 : LET q == Quantile(f, n, 8) z == NonZero(f) IN
    z # <<>> => /\ Lowest(f) <= q /\ q <= Highest(f) /\ q \in ToSet(z)
                /\ 2 * n < 8 => UpTo(z, q) * 8 >= n * Len(z) - 7
                /\ \A m \in 1..n : Quantile(f, m, 8) <= q
=============================================================================
