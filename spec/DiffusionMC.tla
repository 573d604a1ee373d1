---------------------------- MODULE DiffusionMC ----------------------------
(* A few vortices of one or both signs on a small grid, maybe above a wall:   *)
(* what is alike drives apart and what is not leaves each other alone, one    *)
(* alone stays, the wall pushes off, all turns and mirrors with the picture,  *)
(* weights of more are never the less.                                        *)
EXTENDS Diffusion
CONSTANTS W, H, NV, Sizes
VARIABLES vs, wall
Grid == (0..W) \X (1..H)
Vortices == {<<a[1], a[2], g, e>> : a \in Grid, g \in {-2, 1, 3}, e \in Sizes}
RECURSIVE Tuples(_)
Tuples(n) == IF n = 0 THEN {<< >>} ELSE {Append(s, v) : s \in Tuples(n - 1), v \in Vortices}
Init == vs \in UNION {Tuples(n) : n \in 1..NV} /\ wall \in {<< >>, <<<<<<2, 0>>, <<0, 0>>>>>>, <<<<<<2, 0>>, <<0, 0>>>>, <<<<4, 0>>, <<2, 0>>>>>>}
Next == UNCHANGED <<vs, wall>>
V(k) == Spread(vs[k], vs, wall)
Small(x) == AbsV(x) <= 3000
(* the normal of a wall listed right to left points down: this is the outline *)
(* of a body above it listed clockwise; mirrored below *)
Down(s) == [k \in DOMAIN s |-> <<s[k][2], s[k][1]>>]
ASSUME SOut(<<<<0, 0>>, <<2, 0>>>>) = <<0, 2>>
Apart ==
  (Len(vs) = 2 /\ wall = << >> /\ Like(vs[1], vs[2])) =>
     LET d == Minus(vs[1], vs[2]) v == V(1)
     IN /\ d[1] * v[1] >= 0 /\ d[2] * v[2] >= 0
        \* as fast as its size allows, if it sees the other well
        /\ (vs[2][3] * Seen(Norm2(d), vs[1][4]) >= vs[1][3] * 100000 /\ vs[1][3] > 0)
             => AbsV(Norm2(<<v[1] \div 1000, v[2] \div 1000>>) - 1000000) <= 12000
Unlike == (Len(vs) = 2 /\ wall = << >> /\ ~Like(vs[1], vs[2])) => V(1) = <<0, 0>>
Alone == (Len(vs) = 1 /\ wall = << >>) => V(1) = <<0, 0>>
Off == (Len(vs) = 1 /\ wall # << >>) => Spread(vs[1], vs, Down(wall))[2] >= 0
Turned == [k \in DOMAIN vs |-> <<-vs[k][2], vs[k][1], vs[k][3], vs[k][4]>>]
TurnedWall == [k \in DOMAIN wall |-> [j \in 1..2 |-> <<-wall[k][j][2], wall[k][j][1]>>]]
Turns == LET a == V(1) b == Spread(Turned[1], Turned, TurnedWall) IN Small(b[1] + a[2]) /\ Small(b[2] - a[1])
Opposite ==      \* signs do not matter as such
  LET o == [k \in DOMAIN vs |-> <<vs[k][1], vs[k][2], -vs[k][3], vs[k][4]>>]
      a == V(1) b == Spread(o[1], o, wall) IN Small(a[1] - b[1]) /\ Small(a[2] - b[2])
ASSUME \A a \in 1..40 : \A b \in {1, 4, 9} : Seen(a + 1, b) <= Seen(a, b) /\ Seen(a, b) >= 0
=============================================================================
