------------------------------- MODULE EvalMC -------------------------------
(* Two evaluators: assignments, copies and queries in any order.              *)
EXTENDS Eval
CONSTANTS Times
VARIABLES e, want
Exprs == {Empty, <<"t">>, <<"c", 3>>, <<"bad">>, <<"+", <<"t">>, <<"c", 1>>>>, <<"step", <<"-", <<"t">>, <<"c", 1>>>>>>,
          <<"fails", <<"c", 1>>, <<"t">>, <<"*", 2, <<"t">>>>>>, <<"fails", <<"t">>, <<"c", 1>>, <<"t">>>>}
Init == e = [k \in 1..2 |-> Fresh] /\ want = [k \in 1..2 |-> Empty]
Next ==
  \/ \E k \in 1..2, x \in Exprs : e' = [e EXCEPT ![k] = Give(@, x)] /\ want' = [want EXCEPT ![k] = Assign(@, x)]
  \/ e' = [e EXCEPT ![1] = Give(@, e[2].x)] /\ want' = [want EXCEPT ![1] = want[2]]
  \/ \E k \in 1..2, t \in Times : e' = [e EXCEPT ![k] = After(@, t)] /\ want' = want
(* whatever was asked before, the answer is what the expression in force says *)
Right == \A k \in 1..2, t \in Times : Answer(e[k], t) = Den(want[k], t)
(* what is in force always has a value at zero *)
InForce == \A k \in 1..2 : Accepted0(want[k])
=============================================================================
