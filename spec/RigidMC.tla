------------------------------- MODULE RigidMC -------------------------------
(* Two bodies, the second attached to the first or not, moved step by step:  *)
(* shapes stay, joints hold, limits are respected.                           *)
EXTENDS Rigid
CONSTANTS Steps, Ends
VARIABLES bs, last, step
vars == <<bs, last, step>>
Moves == {<<0, 0, 0>>, <<4, 0, 0>>, <<-2, 2, 0>>, <<0, 0, 1>>, <<2, -2, 0>>, <<0, 0, 4>>}
Plain(r, ax, h) ==
  [root |-> r, axis |-> ax, hold |-> h, w |-> <<0, 0, 0>>, u |-> <<0, 0, 0>>, free |-> <<TRUE, TRUE, TRUE>>,
   min |-> <<NoLimit, NoLimit, NoLimit>>, max |-> <<NoLimit, NoLimit, NoLimit>>, angle |-> 0, hangle |-> 0,
   c |-> <<<<ax[1], ax[2] + 2>>, <<ax[1] + 4, ax[2] + 2>>, <<ax[1] + 4, ax[2]>>>>]
Init == /\ \E r \in {0, 1} : \E l \in Ends :
             bs = <<[Plain(0, <<0, 0>>, <<0, 0>>) EXCEPT !.min = <<-l, NoLimit, -2>>, !.max = <<l, 4, NoLimit>>],
                    Plain(r, <<8, 0>>, <<6, 0>>)>>
        /\ last = bs /\ step = 0
Next == /\ step < Steps
        /\ \E w1 \in Moves, w2 \in Moves, u2 \in {<<0, 0, 0>>, <<2, 0, 0>>} :
             LET b == <<[bs[1] EXCEPT !.w = w1], [bs[2] EXCEPT !.w = w2, !.u = u2]>>
                 f == Part(b)
             IN /\ \A n \in 1..2 : \A k \in 1..3 : Whole(Way(b, n, k), f) /\ Whole(b[n].u[k], f) /\ Whole(b[n].w[k], f)
                /\ bs' = Move(b, f) /\ last' = b
        /\ step' = step + 1
D2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Shape(b) == <<D2(b.c[1], b.c[2]), D2(b.c[2], b.c[3]), D2(b.c[1], b.c[3]), D2(b.c[1], b.axis), D2(b.c[2], b.axis)>>
SameShape == \A n \in 1..2 : Shape(bs[n]) = Shape(last[n])
Within == \A n \in 1..2 : \A k \in 1..3 :
            /\ bs[n].max[k] # NoLimit => At(bs, n, k) <= bs[n].max[k]
            /\ bs[n].min[k] # NoLimit => At(bs, n, k) >= bs[n].min[k]
(* the joint stays where it is on the body that carries it *)
JointHolds == (bs[2].root = 1 /\ last[2].u = <<0, 0, 0>>) => D2(bs[2].hold, bs[1].axis) = D2(last[2].hold, last[1].axis)
(* a stiff child (moved as its joint) keeps its offset *)
StiffHolds == (last[2].w = last[2].u) => SubR(bs[2].axis, bs[2].hold) = SubR(last[2].axis, last[2].hold)
(* a step is cut short only to stop exactly at a limit *)
Exact == Reached(last) # {} => \E h \in Hits(last) : At(bs, h[1], h[2]) \in {bs[h[1]].min[h[2]], bs[h[1]].max[h[2]]}
=============================================================================
