----------------------------- MODULE LedgerTrace -----------------------------
(* Recorded operations against the ledger: every event is one operation with *)
(* the flow before and after.  A particle is <<x, y, g, vx, vy>>, positions  *)
(* in units of 1/10000.                                                      *)
EXTENDS Ledger, Region, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
TInit == i = 1
A == e.pre
B == e.post
NB == Len(A.bodies)

Key(p) == <<p[1], p[2], p[3]>>
Count(s, v) == Cardinality({k \in DOMAIN s : Key(s[k]) = v})
Keys(s) == {Key(s[k]) : k \in DOMAIN s}
Same(s, t) == Len(s) = Len(t) /\ \A v \in Keys(s) : Count(s, v) = Count(t, v)
Account(b) == [g |-> b.g, sum |-> b.sum, slip |-> b.slip, dead |-> b.dead]
Accounts(bs) == [n \in DOMAIN bs |-> Account(bs[n])]

(* ---------------------------------------------------------------- shed *)
Place(b, k) ==   \* just off the corner, to the left of the segment
  LET c == b.c[k] d == b.c[IF k = Len(b.c) THEN 1 ELSE k + 1]
  IN <<c[1] - (d[2] - c[2]) \div 10000, c[2] + (d[1] - c[1]) \div 10000>>
Born == LET s == Shedding(A.bodies, 1, 1)
        IN [j \in DOMAIN s |-> LET b == A.bodies[s[j][1]] w == Place(b, s[j][2])
                               IN <<w[1], w[2], b.g[s[j][2]], 0, 0>>]
Shed == /\ e.op = "shed"
        /\ Same(A.vort \o Born, B.vort)
        /\ Accounts(B.bodies) = ShedBodies(Accounts(A.bodies))

(* ---------------------------------------------------------------- move *)
Moved(p) == <<p[1] + (p[4] * e.dt[1]) \div e.dt[2], p[2] + (p[5] * e.dt[1]) \div e.dt[2], p[3], 0, 0>>
MV == [k \in DOMAIN A.vort |-> Moved(A.vort[k])]
OutOf(v) == {n \in 1..NB : Out(B.bodies[n].c, <<v[1], v[2]>>) \/ Near1(B.bodies[n].c, <<v[1], v[2]>>)}
Sure(v) == \E n \in 1..NB : Out(B.bodies[n].c, <<v[1], v[2]>>) /\ ~Near1(B.bodies[n].c, <<v[1], v[2]>>)
Gone(v) == Count(MV, v) - Count(B.vort, v)
Fate(v) ==
  IF Weak(v[3]) THEN Gone(v) = Count(MV, v)
  ELSE IF ~e.remove \/ OutOf(v) = {} THEN Gone(v) = 0
  ELSE IF Sure(v) THEN Gone(v) = Count(MV, v)
  ELSE Gone(v) >= 0
Absorbed == {v \in Keys(MV) : ~Weak(v[3]) /\ Gone(v) > 0}
(* which body took which particle: the only one it is in *)
Body(v) == CHOOSE n \in OutOf(v) : TRUE
RECURSIVE Sum(_)
Sum(V) == IF V = {} THEN Zero ELSE LET v == CHOOSE v \in V : TRUE IN Add(Times(Gone(v), v[3]), Sum(V \ {v}))
Change(n, k) == Add(B.bodies[n].sum[k], Neg(A.bodies[n].sum[k]))
Took(n, k) == Neg(Add(Change(n, k), Unshed(A.bodies[n], k)))   \* what segment k absorbed
Move ==
  /\ e.op = "move"
  /\ Keys(B.vort) \subseteq Keys(MV)
  /\ \A v \in Keys(MV) : Fate(v)
  /\ \A n \in 1..NB :
       LET mine == {v \in Absorbed : Body(v) = n}
           T == [k \in DOMAIN A.bodies[n].g |-> Took(n, k)]
           p == B.bodies[n].c
           near(v) == NearestSegs(p, <<v[1], v[2]>>)
       IN /\ Account(B.bodies[n]) = CleanBody(Account(A.bodies[n]), T)
          /\ Total(T) = Sum(mine)
          (* a particle is booked on the nearest segment *)
          /\ \A k \in DOMAIN T : (\A v \in mine : k \notin near(v)) => T[k] = Zero
          /\ (\A v \in mine : Cardinality(near(v)) = 1)
             => \A k \in DOMAIN T : T[k] = Sum({v \in mine : near(v) = {k}})
  /\ e.cleaned = Cardinality({k \in DOMAIN MV : Key(MV[k]) \in Absorbed /\ Gone(Key(MV[k])) > 0})
     \/ \E v \in Absorbed : Gone(v) # Count(MV, v)

(* --------------------------------------------------------------- merge *)
(* circulation moves between particles only *)
Strength(s) == Total([k \in DOMAIN s |-> s[k][3]])
Merge == /\ e.op = "merge"
         /\ Strength(A.vort) = Strength(B.vort) /\ Len(A.vort) = Len(B.vort)
         /\ LET z(s) == Cardinality({k \in DOMAIN s : s[k][3] = Zero})
            IN z(A.vort) <= z(B.vort) /\ z(B.vort) <= z(A.vort) + 2 * e.merged
         /\ Accounts(A.bodies) = Accounts(B.bodies)
Close == /\ e.op = "close"
         /\ Same(A.vort, B.vort)
         /\ Accounts(B.bodies) = [n \in 1..NB |-> CloseBody(Account(A.bodies[n]))]
(* anything else leaves the ledger alone *)
Other == /\ e.op = "other" /\ Same(A.vort, B.vort) /\ Accounts(A.bodies) = Accounts(B.bodies)

(* two consecutive snapshots of a run: a whole step went by.  Rounded to      *)
(* 1e-7: free, solved and bound circulation *)
Near(a, b) == AbsL(a - b) <= 5
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Step == /\ e.op = "step"
        /\ Near(e.free[2], e.free[1] + SumSeq(e.solved) + SumSeq(e.bound))
        /\ \A n \in DOMAIN e.bound : Near(e.dead[n], -e.bound[n])
        (* nothing that moved into a body is still there *)
        /\ \A v \in DOMAIN e.at : \A n \in DOMAIN e.outlines :
             Near1(e.outlines[n], e.at[v]) \/ ~Out(e.outlines[n], e.at[v])

TNext == i <= Len(Trace) /\ i' = i + 1 /\ (Shed \/ Move \/ Merge \/ Close \/ Other \/ Step)
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
