----------------------------- MODULE HeatTrace ------------------------------
(* Recorded operations against the account of heat: every event is one        *)
(* operation with the flow before and after.  A particle is <<x, y, g, vx,     *)
(* vy>>; positions in units of 1/1000.  Outlines are convex, on integers.      *)
EXTENDS Heat, TLC, Json, IOUtils
R == INSTANCE Region
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, held, unsure     \* held[n][k]: the particle in the layer of a segment, or Nothing
e == Trace[i]
A == e.pre
B == e.post
NB == Len(A.bodies)
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
Key(p) == <<p[1], p[2], p[3]>>
KeysOf(s) == [k \in DOMAIN s |-> Key(s[k])]
Count(s, v) == Cardinality({k \in DOMAIN s : s[k] = v})
Same(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Count(s, s[k]) = Count(t, s[k])
Strength(s) == Total([k \in DOMAIN s |-> s[k][3]])
Nx(p, k) == IF k = Len(p) THEN 1 ELSE k + 1

(* strength of a segment: its length squared times the heat constant *)
Account(b) ==
  [kind |-> b.kind, sum |-> b.sum,
   want |-> [k \in DOMAIN b.c |-> LET p == b.c[k] q == b.c[Nx(b.c, k)] dx == q[1] - p[1] dy == q[2] - p[2]
                                  IN Times((dx * dx + dy * dy) \div 1000000, b.heat)]]
Accounts(bs) == [n \in DOMAIN bs |-> Account(bs[n])]
Off(c, k, h) ==     \* off the middle of segment k by h halves of its length
  LET p == c[k] q == c[Nx(c, k)]
  IN <<((p[1] + q[1]) \div 2) - ((h * (q[2] - p[2])) \div 2), ((p[2] + q[2]) \div 2) + ((h * (q[1] - p[1])) \div 2)>>
Free == [n \in 1..NB |-> [k \in DOMAIN A.bodies[n].c |-> Nothing]]
HeldNow == IF Len(held) = NB /\ \A n \in 1..NB : Len(held[n]) = Len(A.bodies[n].c) THEN held ELSE Free
Strengths(n) == [k \in DOMAIN HeldNow[n] |-> IF HeldNow[n][k] = Nothing THEN Nothing ELSE HeldNow[n][k][3]]

(* heat in the flow less heat given never changes but by what leaves *)
Kept(gone) == Say(Add(Add(Strength(B.heat), gone), Neg(HeatSums(B.bodies))) = Add(Strength(A.heat), Neg(HeatSums(A.bodies))), "balance")

(* ---------------------------------------------------------------- shed *)
HoldersOf(v) == {w \in UNION {{<<n, k>> : k \in DOMAIN A.bodies[n].c} : n \in 1..NB} :
                   HeldNow[w[1]][w[2]] = v /\ A.bodies[w[1]].kind = 2}
Refilled(v) == IF HoldersOf(v) = {} THEN v
               ELSE LET w == CHOOSE w \in HoldersOf(v) : TRUE IN <<v[1], v[2], Account(A.bodies[w[1]]).want[w[2]]>>
RECURSIVE Born(_, _)
Born(n, k) ==
  IF n > NB THEN << >>
  ELSE IF k > Len(A.bodies[n].c) THEN Born(n + 1, 1)
  ELSE LET em == Emits(Account(A.bodies[n]), Strengths(n), k) at == Off(A.bodies[n].c, k, 1)
       IN [j \in DOMAIN em |-> <<at[1], at[2], em[j]>>] \o Born(n, k + 1)
Shed ==
  /\ e.op = "shed" /\ Kept(Zero) /\ UNCHANGED unsure
  /\ IF unsure THEN UNCHANGED held
     ELSE /\ \E w \in {[k \in DOMAIN A.heat |-> Refilled(Key(A.heat[k]))] \o Born(1, 1)} :
               Say(Same(KeysOf(B.heat), w), <<"particles", w, KeysOf(B.heat)>>)
          /\ \E w \in {[n \in 1..NB |-> HeatShedBody(Account(A.bodies[n]), Strengths(n))]} :
               Say(Accounts(B.bodies) = w, <<"sums", w, Accounts(B.bodies)>>)
          /\ held' = [n \in 1..NB |-> [k \in DOMAIN A.bodies[n].c |->
                        IF HeldNow[n][k] = Nothing THEN Nothing ELSE Refilled(HeldNow[n][k])]]

(* ---------------------------------------------------------------- move *)
Moved(p) == <<p[1] + (p[4] * e.dt[1]) \div e.dt[2], p[2] + (p[5] * e.dt[1]) \div e.dt[2], p[3]>>
Layer(c) == [k \in DOMAIN c |-> Off(c, k, 2)]
At(v) == <<v[1], v[2]>>
InLayer(c, q) == IF R!Solid(c) THEN R!Surrounds(Layer(c), q) ELSE ~R!Surrounds(Layer(c), q)
Dist(c, k, q) ==    \* far away all are as far
  LET m == Off(c, k, 0) dx == m[1] - q[1] dy == m[2] - q[2]
  IN IF AbsL(dx) > 31000 \/ AbsL(dy) > 31000 THEN 2000000000 ELSE dx * dx + dy * dy
Nearest(c, q) == LET D == [k \in DOMAIN c |-> Dist(c, k, q)] m == R!Min({D[k] : k \in DOMAIN c})
                 IN {k \in DOMAIN c : D[k] <= m + 20000}
Inside(v) == {n \in 1..NB : R!Out(B.bodies[n].c, At(v))}
Around(v) == {n \in 1..NB : InLayer(B.bodies[n].c, At(v))}
(* where a particle is: <<"free">>, <<"in", n, k>>, <<"near", n, k>> or <<"unsure">> *)
Place(v) ==
  IF \E n \in 1..NB : R!Near1(B.bodies[n].c, At(v)) \/ R!Near1(Layer(B.bodies[n].c), At(v)) THEN <<"unsure">>
  ELSE IF Inside(v) # {}
  THEN LET n == CHOOSE n \in Inside(v) : TRUE near == Nearest(B.bodies[n].c, At(v))
       IN IF Cardinality(Inside(v)) = 1 /\ Cardinality(near) = 1 THEN <<"in", n, CHOOSE k \in near : TRUE>> ELSE <<"unsure">>
  ELSE IF Around(v) = {} THEN <<"free">>
  ELSE IF \A n \in Around(v) : B.bodies[n].kind # 2 THEN <<"free">>
  ELSE LET n == CHOOSE n \in Around(v) : TRUE near == Nearest(B.bodies[n].c, At(v))
       IN IF Cardinality(Around(v)) = 1 /\ Cardinality(near) = 1 THEN <<"near", n, CHOOSE k \in near : TRUE>> ELSE <<"unsure">>
Move ==
  /\ e.op = "move"
  /\ \E mv \in {[k \in DOMAIN A.heat |-> Moved(A.heat[k])]} :
     \E strong \in {{k \in DOMAIN mv : ~Weak(mv[k][3])}} :
     \E place \in {[k \in strong |-> Place(mv[k])]} :
     \E post \in {KeysOf(B.heat)} :
        /\ Kept(Total([k \in DOMAIN mv |-> IF k \in strong THEN Zero ELSE mv[k][3]]))
        /\ Say(\A k \in DOMAIN post : Count(post, post[k]) <= Count(mv, post[k]), "what is this")
        /\ IF \E k \in strong : place[k] = <<"unsure">> \/ Count(mv, mv[k]) > 1
           THEN /\ held' = Free /\ unsure' = TRUE
           ELSE LET here(k) == Count(post, mv[k]) = 1
                    took(n, s) == {k \in strong : Len(place[k]) = 3 /\ place[k][2] = n /\ place[k][3] = s /\ ~here(k)}
                    nearby(n, s) == {k \in strong : place[k] = <<"near", n, s>>}
                IN /\ Say(\A k \in DOMAIN mv \ strong : Count(post, mv[k]) = 0, "weak")
                   /\ Say(\A k \in strong : place[k][1] = "in" => ~here(k), "in a body")
                   /\ Say(\A k \in strong : place[k][1] = "free" => here(k), "lost")
                   /\ Say(\A n \in 1..NB : \A s \in DOMAIN A.bodies[n].c :
                            nearby(n, s) # {} => Cardinality({k \in nearby(n, s) : here(k)}) = 1, "layer")
                   /\ Say(Accounts(B.bodies) = [n \in 1..NB |->
                            HeatTaken(Account(A.bodies[n]), [s \in DOMAIN A.bodies[n].c |->
                              Total([k \in DOMAIN mv |-> IF k \in took(n, s) THEN mv[k][3] ELSE Zero])])], "sums")
                   /\ held' = [n \in 1..NB |-> [s \in DOMAIN A.bodies[n].c |->
                        IF nearby(n, s) = {} THEN Nothing ELSE mv[CHOOSE k \in nearby(n, s) : here(k)]]]
                   /\ unsure' = FALSE

(* ---------------------------------------------------------------- others *)
Crop ==
  /\ e.op = "crop"
  /\ Say(Same(KeysOf(B.heat), SelectSeq(KeysOf(A.heat), LAMBDA v : v[1] <= e.scale)), "crop")
  /\ Say(Accounts(B.bodies) = Accounts(A.bodies), "sums")
  /\ held' = [n \in DOMAIN held |-> [k \in DOMAIN held[n] |->
                IF held[n][k] # Nothing /\ held[n][k][1] > e.scale THEN Nothing ELSE held[n][k]]]
  /\ UNCHANGED unsure
Close ==
  /\ e.op = "close" /\ Same(KeysOf(A.heat), KeysOf(B.heat))
  /\ Say(Accounts(B.bodies) = [n \in 1..NB |-> HeatClosed(Account(A.bodies[n]))], "closing")
  /\ held' = Free /\ unsure' = FALSE
Other ==
  /\ e.op = "other" /\ Say(Same(KeysOf(A.heat), KeysOf(B.heat)), "touched") /\ Say(Accounts(A.bodies) = Accounts(B.bodies), "sums")
  /\ UNCHANGED <<held, unsure>>
(* particles that come close are united: none of the heat is lost *)
Merge ==
  /\ e.op = "merge" /\ Kept(Zero) /\ Say(Accounts(A.bodies) = Accounts(B.bodies), "sums")
  /\ Say(Len(A.heat) = Len(B.heat), "number")
  /\ Say(\A k \in DOMAIN B.heat : Count(KeysOf(A.heat), Key(B.heat[k])) > 0 \/ B.heat[k][3] = Zero
            \/ \E j \in DOMAIN B.heat : B.heat[j][3] = Zero, "united with none")
  /\ held' = Free /\ unsure' = (held # Free)
New == e.op = "new" /\ held' = << >> /\ unsure' = FALSE

(* a snapshot of a run, after shedding: what is in the layer of a body of     *)
(* constant temperature is one particle a segment, of the strength called for *)
Snap ==
  /\ e.op = "snap" /\ UNCHANGED <<held, unsure>>
  /\ Say(\A v \in DOMAIN e.heat : e.heat[v][1] <= 16000, "far behind")
  /\ \A n \in DOMAIN e.bodies : \E b \in {e.bodies[n]} :
       LET shares(k) == {v \in DOMAIN e.heat : InLayer(b.c, At(e.heat[v])) /\ ~R!Near1(Layer(b.c), At(e.heat[v])) /\ Nearest(b.c, At(e.heat[v])) = {k}}
           tied(v, k) == Cardinality(Nearest(b.c, At(e.heat[v]))) > 1 /\ k \in Nearest(b.c, At(e.heat[v]))
           clear(k) == ~\E v \in DOMAIN e.heat : tied(v, k) \/ R!Near1(Layer(b.c), At(e.heat[v]))
           want == Account(b).want
       IN /\ Say(\A v \in DOMAIN e.heat : R!Near1(b.c, At(e.heat[v])) \/ ~R!Out(b.c, At(e.heat[v])), "in a body")
          /\ b.kind = 2 => \A k \in DOMAIN b.c : clear(k) =>
               /\ Say(Cardinality(shares(k)) = 1, <<"in the layer", n, k, Cardinality(shares(k))>>)
               /\ Say(\A v \in shares(k) : e.heat[v][3] = want[k], <<"strength", n, k>>)
          /\ (b.kind = 3 /\ e.still > 0) => \A k \in DOMAIN b.c : Say(Count(KeysOf(e.heat),
               <<Off(b.c, k, 1)[1], Off(b.c, k, 1)[2], want[k]>>) = e.still, <<"not given every step", n, k>>)
          /\ b.kind = 3 => \A k \in DOMAIN b.c : Say(\E v \in DOMAIN e.heat :
               Key(e.heat[v]) = <<Off(b.c, k, 1)[1], Off(b.c, k, 1)[2], want[k]>>, <<"not given", n, k>>)
TInit == i = 1 /\ held = << >> /\ unsure = FALSE
TNext == i <= Len(Trace) /\ i' = i + 1 /\ (Shed \/ Move \/ Crop \/ Close \/ Merge \/ Other \/ New \/ Snap)
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
