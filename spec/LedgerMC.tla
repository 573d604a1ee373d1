------------------------------- MODULE LedgerMC -------------------------------
(* The ledger of a small flow over whole steps: solve, shed, merge, move and  *)
(* clean, close the accounts; particles may be swept anywhere.               *)
EXTENDS Ledger
CONSTANTS NB, Steps, MaxFree
VARIABLES free, bodies, phase, steps, dust, start, closed, taken
vars == <<free, bodies, phase, steps, dust, start, closed, taken>>
Segs == 2
Strengths == {<<0, 0>>, <<0, 3>>, <<1, 0>>, <<-1, 0>>}
Slips == {<<FALSE, FALSE>>, <<TRUE, FALSE>>}
Init == /\ free \in {<< >>, <<<<2, 0>>>>, <<<<2, 0>>, <<-1, 0>>>>}
        /\ \E sl \in Slips : bodies = [n \in 1..NB |-> [g |-> <<Zero, Zero>>, sum |-> <<Zero, Zero>>, slip |-> sl, dead |-> Zero]]
        /\ phase = "solve" /\ steps = 0 /\ dust = Zero /\ start = Total(free) /\ closed = Zero /\ taken = Zero
Solve == /\ phase = "solve" /\ steps < Steps
         /\ \E f \in [1..NB -> Strengths \X Strengths] :
              bodies' = [n \in 1..NB |-> [bodies[n] EXCEPT !.g = f[n]]]
         /\ phase' = "shed" /\ UNCHANGED <<free, steps, dust, start, closed, taken>>
Shed == /\ phase = "shed"
        /\ LET s == Shedding(bodies, 1, 1)
           IN free' = free \o [k \in 1..Len(s) |-> bodies[s[k][1]].g[s[k][2]]]
        /\ bodies' = ShedBodies(bodies)
        /\ phase' = "close" /\ UNCHANGED <<steps, dust, start, closed, taken>>
(* accounts are closed after reporting: bound and taken circulation go into history *)
Close == /\ phase = "close"
         /\ closed' = Add(closed, BoundIn(bodies)) /\ taken' = Add(taken, DeadIn(bodies))
         /\ bodies' = [n \in DOMAIN bodies |-> CloseBody(bodies[n])]
         /\ phase' = "merge" /\ UNCHANGED <<free, steps, dust, start>>
Merge == /\ phase = "merge"
         /\ \/ free' = free
            \/ \E a, b \in 1..Len(free) : a # b /\ free' = [free EXCEPT ![a] = Add(free[a], free[b]), ![b] = Zero]
         /\ phase' = "move" /\ UNCHANGED <<bodies, steps, dust, start, closed, taken>>
RECURSIVE Pick(_, _, _)
Pick(s, f, where) == IF s = << >> THEN << >>
                     ELSE (IF Head(f) = where THEN <<Head(s)>> ELSE << >>) \o Pick(Tail(s), Tail(f), where)
Places == {<<0, 0>>} \cup ((1..NB) \X (1..Segs))
Move == /\ phase = "move"
        /\ \E f \in [1..Len(free) -> Places] :
             LET heavy == [k \in 1..Len(free) |-> IF Weak(free[k]) THEN <<9, 9>> ELSE f[k]]
             IN /\ free' = Pick(free, heavy, <<0, 0>>)
                /\ dust' = Add(dust, Total(Pick(free, heavy, <<9, 9>>)))
                /\ bodies' = [n \in 1..NB |-> CleanBody(bodies[n], [k \in 1..Segs |-> Total(Pick(free, heavy, <<n, k>>))])]
        /\ steps' = steps + 1 /\ phase' = "solve" /\ UNCHANGED <<start, closed, taken>>
Next == Solve \/ Shed \/ Close \/ Merge \/ Move
Bounded == Len(free) <= MaxFree
(* what is free is what there was, what was shed into the flow and what left *)
(* as dust; what bodies took back is booked on both sides *)
Balance == phase = "solve" =>
  LET lhs == Add(Total(free), dust) rhs == Add(start, Add(closed, BoundIn(bodies)))
  IN lhs = rhs
NoFlow == phase \in {"close", "merge", "move"} =>
  LET lhs == Add(Add(Total(free), dust), UnshedIn(bodies))
      rhs == Add(start, Add(closed, BoundIn(bodies)))
  IN lhs = rhs
OnlyWeakLeave == AbsL(dust[1]) = 0
=============================================================================
