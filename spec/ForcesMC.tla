------------------------------- MODULE ForcesMC -------------------------------
(* A body over some steps: circulation booked, particles rubbing at it and    *)
(* absorbed, reports made and accounts cleared; whatever happens a report is  *)
(* about one step only.                                                       *)
EXTENDS Forces
CONSTANTS Steps, Places
VARIABLES b, phase, steps, booked, rubbed, last
vars == <<b, phase, steps, booked, rubbed, last>>
P1 == [nu |-> 1, P |-> 2, dt |-> <<1, 2>>]
Square == <<<<0, 0>>, <<0, 2>>, <<2, 2>>, <<2, 0>>>>
Shifted(a) == [k \in 1..4 |-> <<Square[k][1] + a, Square[k][2] - a>>]
N4 == [k \in 1..4 |-> 0]
Start(a) == [c |-> Shifted(a), axis |-> <<1 + a, 1 - a>>, g |-> N4, fric |-> N4, heat |-> N4, cp |-> N4, fr |-> N4,
             nu |-> N4, F |-> <<0, 0, 0>>, H |-> <<0, 0, 0>>, fric3 |-> <<0, 0, 0>>, prev |-> <<0, 0, 0>>,
             nus |-> 0, dead |-> 0, fd |-> <<0, 0, 0>>]
Init == /\ \E a \in Places : b = Start(a)
        /\ phase = "shed" /\ steps = 0 /\ booked = N4 /\ rubbed = N4 /\ last = <<0, 0, 0>>
Values == {-2, 0, 2}
(* circulation of the step; what was absorbed before is booked already *)
Shed == /\ phase = "shed" /\ steps < Steps
        /\ \E d \in [1..4 -> {0, 2}] : /\ b' = [b EXCEPT !.g = [k \in 1..4 |-> b.g[k] + d[k]], !.F = <<d[1], 1, 0>>]
                                       /\ booked' = [k \in 1..4 |-> booked[k] + d[k]]
        /\ phase' = "report" /\ UNCHANGED <<steps, rubbed, last>>
DoReport == /\ phase = "report" /\ b' = Report(P1, [b EXCEPT !.cp = N4, !.fr = N4, !.nu = N4])
            /\ phase' = "clear" /\ UNCHANGED <<steps, booked, rubbed, last>>
DoClear == /\ phase = "clear" /\ b' = Clear(b) /\ phase' = "rub" /\ last' = b.fric3
           /\ booked' = N4 /\ rubbed' = N4 /\ UNCHANGED steps
Rub == /\ phase = "rub"
       /\ \E f \in [1..4 -> {0, 2}] : b' = [b EXCEPT !.fric = f] /\ rubbed' = f
       /\ phase' = "absorb" /\ UNCHANGED <<steps, booked, last>>
Absorb == /\ phase = "absorb"
          /\ \E k \in 1..4, x \in Values : /\ b' = [b EXCEPT !.g[k] = @ - x, !.heat[k] = @ - x, !.dead = @ + x]
                                           /\ booked' = [booked EXCEPT ![k] = @ - x]
          /\ phase' = "shed" /\ steps' = steps + 1 /\ UNCHANGED <<rubbed, last>>
Next == Shed \/ DoReport \/ DoClear \/ Rub \/ Absorb
(* the report holds what was booked since the one before, all of it at the end *)
OwnStep == phase = "clear" => /\ b.cp[4] = booked[1] + booked[2] + booked[3] + booked[4]
                              /\ b.cp[1] = booked[1]
Kept == phase \in {"rub", "absorb", "shed", "report"} => b.prev = last
(* the drag of equal friction all around vanishes, its moment does not, and   *)
(* neither knows where the body is                                            *)
Around == \A x \in {0, 2} :
  LET e == Drag(P1, [b EXCEPT !.fric = [k \in 1..4 |-> x]])
  IN e = <<0, 0, 4 * x>>
HereAndThere == phase = "clear" =>
  b.fric3 = Drag(P1, [b EXCEPT !.c = Square, !.axis = <<1, 1>>])
=============================================================================
