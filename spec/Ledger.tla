-------------------------------- MODULE Ledger --------------------------------
(* The circulation ledger of a flow.                                         *)
(*                                                                           *)
(* A strength is <<n, t>>: n eighths plus t units of 2^-36, so that strengths*)
(* below the removal threshold (1e-10) are told from those above it.         *)
(* A body is [g, sum, slip, dead]: per segment the circulation last solved   *)
(* for, the one accumulated since the last report, whether the segment lets  *)
(* the flow slip; and what the body has taken back since the last report.    *)
EXTENDS Integers, Sequences, FiniteSets

AbsL(x) == IF x < 0 THEN -x ELSE x
Zero == <<0, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Neg(a) == <<-a[1], -a[2]>>
Times(k, a) == <<k * a[1], k * a[2]>>
Weak(a) == a[1] = 0 /\ AbsL(a[2]) <= 6
RECURSIVE Total(_)
Total(s) == IF s = << >> THEN Zero ELSE Add(Head(s), Total(Tail(s)))

Sheds(b, k) == ~b.slip[k] /\ ~Weak(b.g[k])

(* ------------------------------------------------------------- operations *)
(* shedding: all solved circulation is booked, vortices leave the segments   *)
(* that hold the flow *)
ShedBody(b) == [b EXCEPT !.sum = [k \in DOMAIN b.g |-> Add(b.sum[k], b.g[k])]]
ShedBodies(bodies) == [n \in DOMAIN bodies |-> ShedBody(bodies[n])]
RECURSIVE Shedding(_, _, _)
(* the shedding segments <<body, segment>> in the order of the outlines *)
Shedding(bodies, n, k) ==
  IF n > Len(bodies) THEN << >>
  ELSE IF k > Len(bodies[n].g) THEN Shedding(bodies, n + 1, 1)
  ELSE (IF Sheds(bodies[n], k) THEN <<<<n, k>>>> ELSE << >>) \o Shedding(bodies, n, k + 1)

(* cleaning: per segment the circulation of the particles it absorbed is     *)
(* taken off, and what a segment booked without shedding it *)
Unshed(b, k) == IF Sheds(b, k) THEN Zero ELSE b.g[k]
CleanBody(b, absorbed) ==
  [b EXCEPT !.sum = [k \in DOMAIN b.g |-> Add(b.sum[k], Neg(Add(Unshed(b, k), absorbed[k])))],
            !.dead = Add(b.dead, Add(Total([k \in DOMAIN b.g |-> Unshed(b, k)]),
                                     Total([k \in DOMAIN b.g |-> absorbed[k]])))]
(* reporting done: accounts are closed *)
CloseBody(b) == [b EXCEPT !.sum = [k \in DOMAIN b.g |-> Zero], !.dead = Zero]

RECURSIVE BoundIn(_)
BoundIn(bodies) == IF bodies = << >> THEN Zero ELSE Add(Total(Head(bodies).sum), BoundIn(Tail(bodies)))
RECURSIVE DeadIn(_)
DeadIn(bodies) == IF bodies = << >> THEN Zero ELSE Add(Head(bodies).dead, DeadIn(Tail(bodies)))
RECURSIVE UnshedIn(_)
UnshedIn(bodies) ==
  IF bodies = << >> THEN Zero
  ELSE Add(Total([k \in DOMAIN Head(bodies).g |-> Unshed(Head(bodies), k)]), UnshedIn(Tail(bodies)))
=============================================================================
