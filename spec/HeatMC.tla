------------------------------- MODULE HeatMC -------------------------------
(* Heat over whole steps: shed, close the accounts, be moved anywhere (into a *)
(* body, into its layer, out of the region), crop.                            *)
EXTENDS Heat
CONSTANTS Kind1, Kind2, Steps, MaxFree     \* Kind2 = 9: one body only
VARIABLES heat, bodies, phase, steps, lost, closed, start
\* a particle: its strength and the segment of whose layer it is, if any
Segs == 2
Kinds == IF Kind2 = 9 THEN <<Kind1>> ELSE <<Kind1, Kind2>>
Loose == <<0, 0>>
P(g, of) == [g |-> g, of |-> of]
NB == Len(Kinds)
Strength(l) == Total([k \in DOMAIN l |-> l[k].g])
Init == /\ heat \in {<< >>, <<P(<<2, 0>>, Loose)>>, <<P(<<2, 0>>, Loose), P(<<-1, 0>>, Loose)>>}
        /\ bodies = [n \in 1..NB |-> [kind |-> Kinds[n], want |-> <<<<1, 0>>, <<3, 0>>>>, sum |-> <<Zero, Zero>>]]
        /\ phase = "shed" /\ steps = 0 /\ lost = Zero /\ closed = Zero /\ start = Strength(heat)
Held(n) == [k \in 1..Segs |->
  LET K == {j \in DOMAIN heat : heat[j].of = <<n, k>>} IN IF K = {} THEN Nothing ELSE heat[CHOOSE j \in K : TRUE].g]
RECURSIVE Born(_, _)
Born(n, k) ==
  IF n > NB THEN << >>
  ELSE IF k > Segs THEN Born(n + 1, 1)
  ELSE LET em == Emits(bodies[n], Held(n), k)
       IN [j \in DOMAIN em |-> P(em[j], IF bodies[n].kind = 2 THEN <<n, k>> ELSE Loose)] \o Born(n, k + 1)
Shed == /\ phase = "shed" /\ steps < Steps
        /\ heat' = [j \in DOMAIN heat |->
                     LET o == heat[j].of
                     IN IF o # Loose /\ Refills(bodies[o[1]], Held(o[1]), o[2]) THEN P(bodies[o[1]].want[o[2]], o) ELSE heat[j]]
                   \o Born(1, 1)
        /\ bodies' = [n \in 1..NB |-> HeatShedBody(bodies[n], Held(n))]
        /\ phase' = "close" /\ UNCHANGED <<steps, lost, closed, start>>
Close == /\ phase = "close"
         /\ closed' = Add(closed, HeatSums(bodies))
         /\ bodies' = [n \in 1..NB |-> HeatClosed(bodies[n])]
         /\ phase' = "move" /\ UNCHANGED <<heat, steps, lost, start>>
Fates == {<<"free", 0, 0>>, <<"out", 0, 0>>} \cup ({"in"} \X (1..NB) \X (1..Segs))
           \cup ({"near"} \X {n \in 1..NB : Kinds[n] = 2} \X (1..Segs))
RECURSIVE Filter(_, _)
Filter(l, keep) == IF l = << >> THEN << >> ELSE (IF Head(keep) THEN <<Head(l)>> ELSE << >>) \o Filter(Tail(l), Tail(keep))
(* the first in a layer stays for it *)
First(f, j) == ~\E i \in 1..(j - 1) : f[i] = f[j]
Move == /\ phase = "move"
        /\ \E f \in [1..Len(heat) -> Fates] :
             LET weak(j) == Weak(heat[j].g)
                 stays(j) == ~weak(j) /\ (f[j][1] = "free" \/ (f[j][1] = "near" /\ First(f, j)))
                 took(n, k) == Total([j \in DOMAIN heat |->
                    IF ~weak(j) /\ ~stays(j) /\ f[j][1] \in {"in", "near"} /\ f[j][2] = n /\ f[j][3] = k THEN heat[j].g ELSE Zero])
             IN /\ heat' = Filter([j \in DOMAIN heat |-> P(heat[j].g, IF f[j][1] = "near" THEN <<f[j][2], f[j][3]>> ELSE Loose)],
                                  [j \in DOMAIN heat |-> stays(j)])
                /\ lost' = Add(lost, Total([j \in DOMAIN heat |-> IF weak(j) \/ f[j][1] = "out" THEN heat[j].g ELSE Zero]))
                /\ bodies' = [n \in 1..NB |-> HeatTaken(bodies[n], [k \in 1..Segs |-> took(n, k)])]
        /\ steps' = steps + 1 /\ phase' = "shed" /\ UNCHANGED <<closed, start>>
Next == Shed \/ Close \/ Move
Bounded == Len(heat) <= MaxFree
(* the heat in the flow and the heat given are one account *)
Balance == Add(Strength(heat), lost) = Add(start, Add(closed, HeatSums(bodies)))
(* a body of constant temperature has one particle a segment, of its strength *)
Wrapped == phase = "close" => \A n \in 1..NB : bodies[n].kind = 2 =>
  \A k \in 1..Segs : Cardinality({j \in DOMAIN heat : heat[j].of = <<n, k>>}) = 1 /\ Held(n)[k] = bodies[n].want[k]
(* an insulated body keeps nothing, one that takes no part gives nothing *)
Insulated == phase = "close" => \A n \in 1..NB : bodies[n].kind = 1 => \A k \in 1..Segs : bodies[n].sum[k] = Zero
=============================================================================
