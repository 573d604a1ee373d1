--------------------------- MODULE SortedTreeTrace ---------------------------
(* A tree as the code built it, together with the lists before and after.    *)
EXTENDS SortedTree, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
TInit == i = 1

NL == Len(e.leaves)
L == e.leaves
Count(s, o) == Cardinality({k \in 1..Len(s) : s[k] = o})
(* building reorders the lists and nothing else *)
Kept(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Count(a, a[k]) = Count(b, a[k])

At(k, r, n) == r[1] < k /\ k <= r[2]     \* ranges are [first, last), from 0
Once(n, R(_)) == \A k \in 1..n : Cardinality({l \in 1..NL : At(k, R(l), n)}) = 1
RV(l) == L[l].v
RH(l) == L[l].h
RS(l) == L[l].s
Holds ==
  /\ Once(Len(e.vort), RV) /\ Once(Len(e.heat), RH) /\ Once(Len(e.streak), RS)
  /\ \A l \in 1..NL : L[l].v[2] <= Len(e.vort) /\ L[l].h[2] <= Len(e.heat) /\ L[l].s[2] <= Len(e.streak)
  /\ \A k \in 1..Len(e.segs) :
       Cardinality({<<l, m>> \in (1..NL) \X (1..Len(e.segs)) :
                      m <= Len(L[l].b) /\ L[l].b[m] = e.segs[k].id}) = 1
SegOf(id) == LET k == CHOOSE k \in 1..Len(e.segs) : e.segs[k].id = id IN e.segs[k]
Contains ==
  \A l \in 1..NL :
    /\ \A k \in (L[l].v[1] + 1)..L[l].v[2] : Inside(L[l].box, e.vort[k])
    /\ \A k \in (L[l].h[1] + 1)..L[l].h[2] : Inside(L[l].box, e.heat[k])
    /\ \A k \in (L[l].s[1] + 1)..L[l].s[2] : Inside(L[l].box, e.streak[k])
    /\ \A m \in 1..Len(L[l].b) : \E k \in 1..Len(e.segs) :
         e.segs[k].id = L[l].b[m] /\ Inside(L[l].box, e.segs[k])
SizeOf(l) == Max2(Max2(L[l].v[2] - L[l].v[1], L[l].h[2] - L[l].h[1]),
                  Max2(L[l].s[2] - L[l].s[1], Len(L[l].b)))
Limits == \A l \in 1..NL : MayBeLeaf(L[l].box, SizeOf(l), e.mn, e.mx, 16)

(* near leaves and the leaves below the far cells: every leaf exactly once *)
Covered ==
  \A l \in 1..NL : \A k \in 0..(NL - 1) :
    Cardinality({a \in 1..Len(L[l].near) : L[l].near[a] = k})
    + SumOver(1..Len(L[l].far),
             LAMBDA f : Cardinality({b \in 1..Len(L[l].far[f].leaves) : L[l].far[f].leaves[b] = k})) = 1
Apart == \A l \in 1..NL : \A f \in 1..Len(L[l].far) : FarApart(L[l].box, L[l].far[f].box, e.crit)

(* centres of the positive and of the negative circulation; c = <<1024 x, 1024 y, g>> *)
InLeaf(k, l) == L[l].v[1] < k /\ k <= L[l].v[2]
Centre(c, K) ==
  LET G == SumOver(K, LAMBDA k : e.vort[k].g)
      X == SumOver(K, LAMBDA k : e.vort[k].g * e.vort[k].x)
      Y == SumOver(K, LAMBDA k : e.vort[k].g * e.vort[k].y)
  IN /\ c[3] = G
     /\ (G # 0 => Abs(c[1] * G - 1024 * X) <= Abs(G) /\ Abs(c[2] * G - 1024 * Y) <= Abs(G))
Members(ls) == {k \in 1..Len(e.vort) : \E a \in ls : InLeaf(k, a)}
Sign(K, pos) == {k \in K : (e.vort[k].g > 0) = pos}
Centres ==
  \A l \in 1..NL :
    /\ Centre(L[l].p, Sign(Members({l}), TRUE)) /\ Centre(L[l].m, Sign(Members({l}), FALSE))
    /\ \A f \in 1..Len(L[l].far) :
         LET K == Members({L[l].far[f].leaves[b] + 1 : b \in 1..Len(L[l].far[f].leaves)})
         IN Centre(L[l].far[f].p, Sign(K, TRUE)) /\ Centre(L[l].far[f].m, Sign(K, FALSE))
(* looking a particle's place up gives a leaf it lies in *)
Found == \A k \in 1..Len(e.vort) : LET n == e.find[k] IN n \in 0..(NL - 1) /\ Inside(L[n + 1].box, e.vort[k])

TNext == /\ i <= Len(Trace) /\ i' = i + 1
         /\ Kept(e.vort0, e.vort) /\ Kept(e.heat0, e.heat) /\ Kept(e.streak0, e.streak)
         /\ Holds /\ Contains /\ Limits /\ Covered /\ Apart /\ Centres /\ Found
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
