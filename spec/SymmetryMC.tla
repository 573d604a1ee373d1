------------------------------ MODULE SymmetryMC ------------------------------
(* The specifications of this directory have the symmetries they demand of    *)
(* the code: the motion of bodies and the equations of motion look the same   *)
(* from everywhere, the latter as far as circulation is conserved.            *)
EXTENDS Symmetry
R == INSTANCE Rigid
D == INSTANCE Dynamics
CONSTANTS Shifts, Turns
U == 10000
VARIABLES mode, T, bs, f
vars == <<mode, T, bs, f>>
No == R!NoLimit
Views == {[q |-> q, by |-> <<a, b>>] : q \in Turns, a \in Shifts, b \in Shifts}
Moves == {<<0, 0, 0>>, <<4, 0, 1>>, <<-2, 2, 0>>, <<2, -2, -1>>}
Plain(r, ax, h) ==
  [root |-> r, axis |-> ax, hold |-> h, w |-> <<0, 0, 0>>, u |-> <<0, 0, 0>>, free |-> <<TRUE, TRUE, TRUE>>,
   min |-> <<No, No, No>>, max |-> <<No, No, No>>, angle |-> 0, hangle |-> 0,
   c |-> <<<<ax[1], ax[2] + 2>>, <<ax[1] + 4, ax[2] + 2>>, <<ax[1] + 4, ax[2]>>>>]
Seen1(v, b) ==
  [b EXCEPT !.axis = PlaceS(v, b.axis), !.hold = PlaceS(v, b.hold), !.w = Vector3S(v, b.w), !.u = Vector3S(v, b.u),
            !.c = [k \in DOMAIN b.c |-> PlaceS(v, b.c[k])]]
SeenAll(v, s) == [n \in DOMAIN s |-> Seen1(v, s[n])]

(* a body in a flow: square of side two, the unknowns not necessarily a       *)
(* solution: the equations reject what they reject from everywhere            *)
Sq == <<<<0, 0>>, <<0, 2>>, <<2, 2>>, <<2, 0>>>>
Body(v, g, w, F, ax) ==
  [c |-> Sq, axis2 |-> ax, hold2 |-> ax, rho2 |-> 3, root |-> 0, rigid |-> <<TRUE, FALSE, TRUE>>,
   k |-> <<1, 2, 1>>, d |-> <<0, 0, 0>>, dpos2 |-> <<0, 0, 0>>, ext |-> 0, ui |-> <<1, 0, 0>>, special |-> 4, kutta |-> FALSE,
   v0 |-> w, f0 |-> <<1, 0, 1>>, fd |-> <<0, 0, 0>>, dead |-> 0, g |-> g, v |-> v, F |-> F, H |-> F, leak |-> <<0, 0, 0, 0>>]
SeenD(v, b) ==
  [b EXCEPT !.c = [k \in DOMAIN b.c |-> PlaceS(v, b.c[k])],
            !.axis2 = PlaceS([v EXCEPT !.by = <<2 * v.by[1], 2 * v.by[2]>>], b.axis2),
            !.v = Vector3S(v, b.v), !.v0 = Vector3S(v, b.v0), !.f0 = Vector3S(v, b.f0), !.F = Vector3S(v, b.F),
            !.H = Vector3S(v, b.H)]
Fl(b, grav) == [bodies |-> <<b>>, u |-> U, m |-> 2, grav |-> grav, infg |-> 0, free |-> 0, started |-> TRUE]

(* the force the equation asks for *)
Asked(h) ==
  LET b == h.bodies[1]
      S == D!Area(b)
      G(k) == -b.c[k][2] * b.g[k]
      x == 4 * h.m * D!SumD(G, Len(b.c)) + 2 * h.m * S * (2 * b.v[1] - h.u * b.v0[1])
           - h.m * S * (2 * D!Com2(b)[2] + D!R2(b)[2]) * (2 * b.v[3] - h.u * b.v0[3])
           - ((h.u * b.v0[3] * b.v0[3] * S * D!R2(b)[1]) \div 2) + 4 * h.u * b.f0[1]
  IN x \div 4
Given(h, more) == [h EXCEPT !.bodies[1].F[1] = Asked(h) + more]
Init ==
  /\ T \in Views
  /\ \/ /\ mode = "move" /\ f = <<>>
        /\ \E r \in {0, 1}, w1 \in Moves, w2 \in Moves, u2 \in {<<0, 0, 0>>, <<2, 0, 0>>} :
             bs = <<[Plain(0, <<0, 0>>, <<0, 0>>) EXCEPT !.w = w1], [Plain(r, <<8, 2>>, <<6, 2>>) EXCEPT !.w = w2, !.u = u2]>>
     \/ /\ mode = "force" /\ bs = <<>>
        /\ \E o \in {0, U}, d \in {0, U \div 4, U}, Fx \in {0, 2 * U, 12 * U}, w \in {<<2, 0, 0>>, <<0, 0, 2>>}, ax \in {<<2, 2>>, <<0, 4>>} :
             \* circulation conserved: the sum of g and the turning
             f = Given(Fl(Body(<<U, 0, o>>, <<d, -d, d, 8 * (((U \div 2) * w[3]) - o) - d>>, w, <<Fx, 0, U>>, ax), <<0, -1>>), Fx)
Next == UNCHANGED vars
Commutes == mode = "move" =>
  LET one == <<1, 1>>
  IN R!Move(SeenAll(T, bs), one) = SeenAll(T, R!Move(bs, one))
(* forces along the old axes are forces along the new ones *)
Both(g) == D!ForceX(g, g.bodies[1]) /\ D!ForceY(g, g.bodies[1])
NBoth(g) == D!NewtonX(g, 1) /\ D!NewtonY(g, 1)
There == [f EXCEPT !.bodies = <<SeenD(T, f.bodies[1])>>, !.grav = VectorS(T, f.grav)]
Equal == mode = "force" => /\ NBoth(f) = NBoth(There)
                           /\ D!NewtonO(f, 1) = D!NewtonO(There, 1) /\ D!Moment(f, f.bodies[1]) = D!Moment(There, There.bodies[1])
EqualForce == mode = "force" => Both(f) = Both(There)
=============================================================================
