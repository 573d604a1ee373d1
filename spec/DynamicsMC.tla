----------------------------- MODULE DynamicsMC -----------------------------
(* Why the circulation equations are the right ones: in a flow whose every   *)
(* solution satisfies them, whatever the bodies do and whatever they absorb, *)
(* the total circulation stays what it was and each body owes nothing.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Max, InfG, Steps
Area == <<1, -2, 1>>
VARIABLES o, free, dead, placed, given, step
vars == <<o, free, dead, placed, given, step>>
Bodies == 1..N
Small == -Max..Max
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Init == /\ o = [n \in Bodies |-> 0] /\ placed = [n \in Bodies |-> 0] /\ dead = [n \in Bodies |-> 0]
        /\ given = [n \in Bodies |-> 0]
        /\ free = -InfG /\ step = 0
Seq0(f) == [n \in Bodies |-> f[n]]
(* a solution: bodies turn at any rate, circulation is placed by the equations *)
Solve ==
  /\ step % 2 = 0 /\ step < 2 * Steps
  /\ \E new \in [Bodies -> Small] :
       LET other(n) == dead[n] + 2 * Area[n] * o[n] - 2 * Area[n] * new[n]
           rest == Sum([n \in 1..(N - 1) |-> other(n + 1) + 2 * Area[n + 1] * new[n + 1]])
           p == [n \in Bodies |-> IF n = 1 THEN -free - InfG - 2 * Area[1] * new[1] - rest ELSE other(n)]
       IN /\ o' = new /\ placed' = p
          /\ free' = free + Sum(Seq0(p))
          /\ given' = [n \in Bodies |-> given[n] + p[n]]
  /\ dead' = [n \in Bodies |-> 0]
  /\ step' = step + 1
(* the step: bodies absorb some of the free circulation *)
Absorb ==
  /\ step % 2 = 1
  /\ \E d \in [Bodies -> Small] :
       /\ dead' = d /\ free' = free - Sum(Seq0(d))
       /\ given' = [n \in Bodies |-> given[n] - d[n]]
  /\ step' = step + 1 /\ UNCHANGED <<o, placed>>
Next == Solve \/ Absorb
Total == step % 2 = 1 => free + Sum([n \in Bodies |-> 2 * Area[n] * o[n]]) = -InfG
Owes == step % 2 = 1 => \A n \in Bodies : given[n] + 2 * Area[n] * o[n] = 0
=============================================================================
