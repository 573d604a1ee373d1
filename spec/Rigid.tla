-------------------------------- MODULE Rigid --------------------------------
(* One step of motion of the bodies.  Lengths are whole numbers of units,    *)
(* angles whole numbers of quarter turns.  A body is a record of             *)
(*   root  the body it is attached to, 0 for none (always an earlier one)    *)
(*   axis, hold  its axis and its joint, as <<x, y>>                         *)
(*   w, u  how far it moves / its joint is moved in a full step, <<x, y, q>>,*)
(*         relative to the body it is attached to                            *)
(*   free  per component: it is on a spring (or loose)                       *)
(*   min, max  limits of the component, NoLimit for none; the angle counts   *)
(*         from angle                                                        *)
(*   angle joint's angle plus offset                                         *)
(*   c     corners                                                           *)
EXTENDS Integers, Sequences, FiniteSets

NoLimit == 999999

AddR(a, b) == <<a[1] + b[1], a[2] + b[2]>>
SubR(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Turn(q, p) == CASE q % 4 = 0 -> p
                [] q % 4 = 1 -> <<-p[2], p[1]>>
                [] q % 4 = 2 -> <<-p[1], -p[2]>>
                [] q % 4 = 3 -> <<p[2], -p[1]>>

(* a body attached to others takes part in their motion *)
RECURSIVE Turns(_, _), Linear(_, _, _)
Turns(bs, n) == bs[n].w[3] + (IF bs[n].root = 0 THEN 0 ELSE Turns(bs, bs[n].root))
Linear(bs, n, k) == bs[n].w[k] + (IF bs[n].root = 0 THEN 0 ELSE Linear(bs, bs[n].root, k))
Way(bs, n, k) == IF k = 3 THEN Turns(bs, n) ELSE Linear(bs, n, k)
At(bs, n, k) == IF k = 3 THEN bs[n].angle ELSE bs[n].axis[k]

(* ---------------------------------------------------------------- limits *)
(* the parts of the step after which a limit is reached: <<part, of, n, k>> *)
AbsR(x) == IF x < 0 THEN -x ELSE x
Reached(bs) ==
  {<<AbsR(bs[n].max[k] - At(bs, n, k)), AbsR(Way(bs, n, k)), n, k>> :
     <<n, k>> \in {x \in (DOMAIN bs) \X (1..3) :
        LET b == bs[x[1]] IN /\ b.free[x[2]] /\ b.max[x[2]] # NoLimit
                             /\ At(bs, x[1], x[2]) + Way(bs, x[1], x[2]) > b.max[x[2]]}}
  \cup
  {<<AbsR(At(bs, n, k) - bs[n].min[k]), AbsR(Way(bs, n, k)), n, k>> :
     <<n, k>> \in {x \in (DOMAIN bs) \X (1..3) :
        LET b == bs[x[1]] IN /\ b.free[x[2]] /\ b.min[x[2]] # NoLimit
                             /\ At(bs, x[1], x[2]) + Way(bs, x[1], x[2]) < b.min[x[2]]}}
FirstReached(bs) == LET R == Reached(bs) IN {r \in R : \A s \in R : r[1] * s[2] <= s[1] * r[2]}
(* the part of the step that is made *)
Part(bs) == IF Reached(bs) = {} THEN <<1, 1>> ELSE LET r == CHOOSE r \in FirstReached(bs) : TRUE IN <<r[1], r[2]>>
(* the components that may be reported as hit *)
Hits(bs) == {<<r[3], r[4]>> : r \in FirstReached(bs)}
(* a limit reached with the very end of the step may be reported or not *)
JustReached(bs) ==
  {x \in (DOMAIN bs) \X (1..3) :
     LET b == bs[x[1]]
         w == Way(bs, x[1], x[2])
         at == At(bs, x[1], x[2]) + w
     IN b.free[x[2]] /\ ((w > 0 /\ at = b.max[x[2]]) \/ (w < 0 /\ at = b.min[x[2]]))}

(* ---------------------------------------------------------------- motion *)
Whole(x, f) == (x * f[1]) % f[2] = 0
Of(x, f) == (x * f[1]) \div f[2]
RECURSIVE Shift(_, _, _)
(* what the body n is attached to does to a point p *)
Carry(bs, f, n, p) ==
  IF bs[n].root = 0 THEN <<0, 0>>
  ELSE LET r == bs[n].root
           d == SubR(p, bs[r].axis)
       IN AddR(Shift(bs, f, r), SubR(Turn(Of(Turns(bs, r), f), d), d))
Shift(bs, f, n) == AddR(<<Of(bs[n].w[1], f), Of(bs[n].w[2], f)>>, Carry(bs, f, n, bs[n].hold))
HoldShift(bs, f, n) == AddR(<<Of(bs[n].u[1], f), Of(bs[n].u[2], f)>>, Carry(bs, f, n, bs[n].hold))
RootTurns(bs, n) == IF bs[n].root = 0 THEN 0 ELSE Turns(bs, bs[n].root)

NewAxis(bs, f, n) == AddR(bs[n].axis, Shift(bs, f, n))
NewHold(bs, f, n) == AddR(bs[n].hold, HoldShift(bs, f, n))
NewAngle(bs, f, n) == bs[n].angle + Of(Turns(bs, n), f)
NewHoldAngle(bs, f, n) == bs[n].hangle + Of(bs[n].u[3] + RootTurns(bs, n), f)
NewCorner(bs, f, n, k) ==
  AddR(NewAxis(bs, f, n), Turn(Of(Turns(bs, n), f), SubR(bs[n].c[k], bs[n].axis)))
Move(bs, f) ==
  [n \in DOMAIN bs |->
    [bs[n] EXCEPT !.axis = NewAxis(bs, f, n), !.hold = NewHold(bs, f, n),
                  !.angle = NewAngle(bs, f, n), !.hangle = NewHoldAngle(bs, f, n),
                  !.c = [k \in DOMAIN bs[n].c |-> NewCorner(bs, f, n, k)]]]
=============================================================================
