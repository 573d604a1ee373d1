----------------------------- MODULE Generators -----------------------------
(* The body generators: which parameters each takes, which it refuses, and    *)
(* the outline it has to make of them. An outline is a sequence of straight   *)
(* pieces and arcs, each cut into equal steps. Lengths are in ticks, angles   *)
(* in ten-thousandths of a radian; inclined lines are given by directions     *)
(* whose components are rational, so that all corners of a shape are known.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Pi == 31416
Seg(p, q, slip) == [kind |-> "seg", p |-> p, q |-> q, slip |-> slip]
\* an arc around c from a to b through the angle ang, counter-clockwise or not
Arc(c, r, a, b, ang, ccw, slip) ==
  [kind |-> "arc", c |-> c, r |-> r, p |-> a, q |-> b, ang |-> ang, ccw |-> ccw, slip |-> slip]

Abs(x) == IF x < 0 THEN -x ELSE x
Least(x, y) == IF x < y THEN x ELSE y
Sq(x) == x * x
\* the largest r with r*r <= x
Root(x) == FoldLeft(LAMBDA r, b : IF r + b <= 46340 /\ (r + b) * (r + b) <= x THEN r + b ELSE r, 0,
                    <<32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>)
Dist(p, q) == Root(Sq(p[1] - q[1]) + Sq(p[2] - q[2]))
Along(r, ang) == (r * (ang \div 100)) \div 100 + (r * (ang % 100)) \div 10000
Length(x) == IF x.kind = "seg" THEN Dist(x.p, x.q) ELSE Along(x.r, x.ang)
RECURSIVE Total(_)
Total(l) == IF l = <<>> THEN 0 ELSE Length(l[1]) + Total(Tail(l))

\* ---- angles whose sine is the fraction s / h, in ten-thousandths
Angle(s, h) ==
  LET k == <<Abs(s), h>>
      a == CASE k[1] = 0 -> 0
             [] k = <<3, 5>> -> 6435   [] k = <<4, 5>> -> 9273
             [] k = <<5, 13>> -> 3948  [] k = <<12, 13>> -> 11760
             [] k = <<8, 17>> -> 4900  [] k = <<15, 17>> -> 10808
             [] k = <<7, 25>> -> 2838  [] k = <<24, 25>> -> 12870
             [] k[1] = h -> 15708
  IN IF s < 0 THEN -a ELSE a

\* ---- the shapes
Cylinder(e) == << Arc(<<0, 0>>, e.R, <<e.R, 0>>, <<e.R, 0>>, 2 * Pi, FALSE, FALSE) >>

Semicyl(e) == << Seg(<<0, 0>>, <<e.R, 0>>, FALSE),
                 Arc(<<0, 0>>, e.R, <<e.R, 0>>, <<-e.R, 0>>, Pi, FALSE, FALSE),
                 Seg(<<-e.R, 0>>, <<0, 0>>, FALSE) >>

\* the side rises in the direction <<cx, cy>> / ch
Parallelogram(e) ==
  LET b == (e.H * e.cx) \div e.cy
  IN << Seg(<<e.L, 0>>, <<0, 0>>, FALSE), Seg(<<0, 0>>, <<b, e.H>>, FALSE),
        Seg(<<b, e.H>>, <<e.L + b, e.H>>, FALSE), Seg(<<e.L + b, e.H>>, <<e.L, 0>>, FALSE) >>

Savonius(e) ==
  LET i == e.R - e.h \div 2
      o == e.R + e.h \div 2
      t == e.h \div 2
      X(x) == <<x, 0>>
  IN << Arc(X(e.R), i, X(e.R - i), X(e.R + i), Pi, TRUE, FALSE),
        Arc(X(2 * e.R), t, X(2 * e.R - t), X(2 * e.R + t), Pi, FALSE, FALSE),
        Arc(X(e.R), o, X(e.R + o), X(e.R - o), Pi, FALSE, FALSE),
        Arc(X(-e.R), i, X(i - e.R), X(-i - e.R), Pi, TRUE, FALSE),
        Arc(X(-2 * e.R), t, X(t - 2 * e.R), X(-t - 2 * e.R), Pi, FALSE, FALSE),
        Arc(X(-e.R), o, X(-o - e.R), X(o - e.R), Pi, FALSE, FALSE) >>

\* Two circles and the tangents to both. The tangents touch where the radius is
\* inclined by asin((R2 - R1) / L) = asin(s / h) backwards; with cosine k / h.
\* A plate that starts or stops on its way is a link of a chain: its head is a
\* round tip, its tail a socket, wider by the gap, for the next one's head; the
\* radius at the tail and the socket's radius differ by the fraction ss / sh.
Touch(c, r, s, k, h, up) == <<c - (r * s) \div h, IF up THEN (r * k) \div h ELSE -((r * k) \div h)>>
Plate(e) ==
  LET a == Angle(e.s, e.h)
      r1 == e.R1 + ((e.R2 - e.R1) * e.start) \div 8
      r2 == e.R1 + ((e.R2 - e.R1) * e.stop) \div 8
      c1 == (e.L * e.start) \div 8
      c2 == (e.L * e.stop) \div 8
      socket == e.stop < 8
      big == r2 + e.gap
      \* the corners of the socket lie on the tangents, sl before the touching point
      sl == Root(Sq(big) - Sq(r2))
      Corner(up) == LET t == Touch(c2, r2, e.s, e.k, e.h, up)
                    IN IF ~socket THEN t
                       ELSE <<t[1] - (sl * e.k) \div e.h, t[2] - (IF up THEN 1 ELSE -1) * ((sl * e.s) \div e.h)>>
      \* the angle of the half socket
      mouth == Pi - (Pi \div 2 + a) - (15708 - Angle(e.ss, e.sh))
      Tail1 == IF socket THEN Arc(<<c2, 0>>, big, <<c2 - big, 0>>, Corner(FALSE), mouth, TRUE, TRUE)
               ELSE Arc(<<c2, 0>>, r2, <<c2 + r2, 0>>, Corner(FALSE), Pi \div 2 + a, FALSE, FALSE)
      Tail2 == IF socket THEN Arc(<<c2, 0>>, big, Corner(TRUE), <<c2 - big, 0>>, mouth, TRUE, TRUE)
               ELSE Arc(<<c2, 0>>, r2, Corner(TRUE), <<c2 + r2, 0>>, Pi \div 2 + a, FALSE, FALSE)
      H(up) == Touch(c1, r1, e.s, e.k, e.h, up)
      slip == e.start > 0
  IN << Tail1, Seg(Corner(FALSE), H(FALSE), FALSE),
        Arc(<<c1, 0>>, r1, H(FALSE), <<c1 - r1, 0>>, Pi - (Pi \div 2 + a), FALSE, slip),
        Arc(<<c1, 0>>, r1, <<c1 - r1, 0>>, H(TRUE), Pi - (Pi \div 2 + a), FALSE, slip),
        Seg(H(TRUE), Corner(TRUE), FALSE), Tail2 >>
\* what a plate's number of segments is counted on: the whole chain
WholePlate(e) ==
  LET a == Angle(e.s, e.h)
  IN 2 * (Along(e.R1, Pi \div 2 - a) + Along(e.R2, Pi \div 2 + a) + (e.L * e.k) \div e.h)

ChamberBox(e) ==
  LET m == e.D \div 2 + e.d \div 2
      l == e.L \div 2
      r == e.d \div 2
      out == l + e.h
      Lip(x, a, b) == Arc(<<x, -r>>, r, a, b, Pi \div 2, FALSE, FALSE)
  IN << Seg(<<0, e.H>>, <<-l, e.H>>, TRUE), Seg(<<-l, e.H>>, <<-l, 0>>, TRUE),
        Seg(<<-l, 0>>, <<-m, 0>>, FALSE),
        Lip(-m, <<-m, 0>>, <<r - m, -r>>), Lip(-m, <<r - m, -r>>, <<-m, -e.d>>),
        Seg(<<-m, -e.d>>, <<-out, -e.d>>, TRUE), Seg(<<-out, -e.d>>, <<-out, e.H + e.h>>, TRUE),
        Seg(<<-out, e.H + e.h>>, <<out, e.H + e.h>>, TRUE), Seg(<<out, e.H + e.h>>, <<out, -e.d>>, TRUE),
        Seg(<<out, -e.d>>, <<m, -e.d>>, TRUE),
        Lip(m, <<m, -e.d>>, <<m - r, -r>>), Lip(m, <<m - r, -r>>, <<m, 0>>),
        Seg(<<m, 0>>, <<l, 0>>, FALSE), Seg(<<l, 0>>, <<l, e.H>>, TRUE), Seg(<<l, e.H>>, <<0, e.H>>, TRUE) >>

\* the channel widens in the direction <<cx, cy>> / ch
Throat(e) == e.R0 + ((e.X3 - e.X2) * e.cy) \div e.cx
ChamberGpj(e) ==
  LET y3 == Throat(e)
      x4 == e.X3 - e.L
      y4 == e.H \div 2
  IN << Seg(<<x4, -y4>>, <<x4, y4>>, TRUE), Seg(<<x4, y4>>, <<e.X3, y4>>, TRUE),
        Seg(<<e.X3, y4>>, <<e.X3, y3>>, TRUE),
        Seg(<<e.X3, y3>>, <<e.X2, e.R0>>, FALSE), Seg(<<e.X2, e.R0>>, <<e.X1, e.R0>>, FALSE),
        Seg(<<e.X1, e.R0>>, <<e.X0, e.R0>>, TRUE),
        Arc(<<e.X0, 0>>, e.R0, <<e.X0, e.R0>>, <<e.X0, -e.R0>>, Pi, TRUE, TRUE),
        Seg(<<e.X0, -e.R0>>, <<e.X1, -e.R0>>, TRUE), Seg(<<e.X1, -e.R0>>, <<e.X2, -e.R0>>, FALSE),
        Seg(<<e.X2, -e.R0>>, <<e.X3, -y3>>, FALSE),
        Seg(<<e.X3, -y3>>, <<e.X3, -y4>>, TRUE), Seg(<<e.X3, -y4>>, <<x4, -y4>>, TRUE) >>

Shape(e) ==
  CASE e.gen = "cylinder" -> Cylinder(e)
    [] e.gen = "semicyl" -> Semicyl(e)
    [] e.gen = "parallelogram" -> Parallelogram(e)
    [] e.gen = "savonius" -> Savonius(e)
    [] e.gen = "plate" -> Plate(e)
    [] e.gen = "chamber_box" -> ChamberBox(e)
    [] e.gen = "chamber_gpj" -> ChamberGpj(e)

\* ---- the step: from the total length and the number, or as given. The two
\* outlets of a chamber are cut at least five times.
Counted(e) == IF e.gen = "plate" THEN WholePlate(e) ELSE Total(Shape(e))
\* twice the error of cutting x into n, compared with a step
Fits(e, tot, x, n) ==
  LET len == Length(x)
      slack == len \div 2000 + 4
  IN IF e.N > 0
     THEN LET t == tot IN 2 * Abs(n * t - len * e.N) <= t + 2 * slack * e.N + n * (t \div 2000 + 12)
     ELSE LET given == IF e.gen \in {"chamber_box", "chamber_gpj"} THEN (IF x.slip THEN e.dls ELSE e.dln) ELSE e.dl
              dl == IF e.gen = "chamber_gpj" /\ x.kind = "seg" /\ x.slip /\ x.p[1] = x.q[1] /\ x.p[1] = e.X3 /\ len > 0
                    THEN Least(given, len \div 5) ELSE given
          IN Abs(2 * (n * dl - len)) <= dl + 2 * slack + (IF dl # given THEN 2 * n ELSE 0)

\* ---- the corners of an outline, against the pieces
Near(a, b, tol) == Abs(a - b) <= tol
At(p, x, y, tol) == Near(p[1], x, tol) /\ Near(p[2], y, tol)
Sq2(p, c) == Sq(p[1] - c[1]) + Sq(p[2] - c[2])
Cross(p, q, c) == (p[1] - c[1]) * (q[2] - c[2]) - (p[2] - c[2]) * (q[1] - c[1])
\* corners i+1 .. i+n of l are the n steps of piece x, the next corner being its end
IsPiece(l, i, n, x) ==
  LET C(k) == l[((i + k) % Len(l)) + 1]
      on == 4 * x.r + 16
      first == Sq2(C(0), C(1))
      step == (Length(x) \div n) + 6
  IN IF n = 0 THEN TRUE
     ELSE IF x.kind = "seg"
     THEN \A k \in 0 .. n - 1 : At(C(k), x.p[1] + ((x.q[1] - x.p[1]) * k) \div n, x.p[2] + ((x.q[2] - x.p[2]) * k) \div n, 3)
     ELSE /\ At(C(0), x.p[1], x.p[2], 3)
          /\ \A k \in 0 .. n - 1 : Near(Sq2(C(k), x.c), Sq(x.r), on)
          \* the last step ends at the end of the piece, whatever follows
          /\ LET To(k) == IF k = n THEN x.q ELSE C(k)
             IN \A k \in 0 .. n - 1 :
                  /\ Sq2(C(k), To(k + 1)) <= Sq(step)
                  /\ Near(Sq2(C(k), To(k + 1)), Sq2(C(0), To(1)), 16 * step + 64)
                  /\ n > 2 => (IF x.ccw THEN Cross(C(k), To(k + 1), x.c) >= -(6 * x.r)
                               ELSE Cross(C(k), To(k + 1), x.c) <= 6 * x.r)
Guess(e, tot, x) ==   \* roughly the number of steps
  IF e.N > 0 THEN (Length(x) * e.N) \div tot
  ELSE LET dl == IF e.gen \in {"chamber_box", "chamber_gpj"} THEN (IF x.slip THEN e.dls ELSE e.dln) ELSE e.dl
       IN Length(x) \div dl
Counts(e, tot, x) == LET g == Guess(e, tot, x) IN {n \in (g - 2) .. (g + 6) : n >= 0 /\ Fits(e, tot, x, n)}
\* the numbers of steps that make l of the pieces: a sequence of them, or none
RECURSIVE Cuts(_, _, _, _, _)
Cuts(e, tot, l, i, pieces) ==
  IF pieces = <<>> THEN (IF i = Len(l) THEN {<<>>} ELSE {})
  ELSE UNION { IF i + n <= Len(l) /\ IsPiece(l, i, n, pieces[1])
               THEN {<<n>> \o c : c \in Cuts(e, tot, l, i + n, Tail(pieces))} ELSE {}
               : n \in Counts(e, tot, pieces[1]) }
RECURSIVE Before(_, _)
Before(c, k) == IF k = 1 THEN 0 ELSE c[k - 1] + Before(c, k - 1)
SlipsSo(c, pieces, slip) ==
  \A k \in DOMAIN c : \A m \in Before(c, k) + 1 .. Before(c, k) + c[k] : slip[m] = pieces[k].slip

\* ---- ellipses are cut into nearly equal steps, symmetrically to both axes
Scaled(x, r) == (x * 1000) \div r
IsEllipse(l, rx, ry) ==
  LET n == Len(l)
      m == n \div 2
  IN /\ n % 2 = 0 /\ n > 3
     /\ \A k \in 1 .. n : Near(Sq(Scaled(l[k][1], rx)) + Sq(Scaled(l[k][2], ry)), 1000000, 3000 + 4000000 \div ry)
     /\ \A k \in 1 .. m : At(l[k + m], -l[k][1], -l[k][2], 2) /\ At(l[k], -l[m + 1 - k][1], l[m + 1 - k][2], 2)
     /\ \A k \in 1 .. m : l[k][2] < 0 /\ (k < m => l[k][1] > l[k + 1][1])
Steps(l) == TLCEval([k \in DOMAIN l |-> Dist(l[k], l[(k % Len(l)) + 1])])

\* ---- what it refuses: named parameters, their ranges; others are excess
Params(g) ==
  CASE g = "cylinder" -> {"N", "dl", "R"}
    [] g = "semicyl" -> {"N", "dl", "R"}
    [] g = "ellipse" -> {"N", "dl", "Rx", "Ry"}
    [] g = "parallelogram" -> {"N", "dl", "L", "H", "d"}
    [] g = "savonius" -> {"N", "dl", "R", "h"}
    [] g = "plate" -> {"N", "dl", "R1", "R2", "L", "start", "stop", "gap"}
    [] g = "chamber_box" -> {"dln", "dls", "L", "H", "D", "h", "d"}
    [] g = "chamber_gpj" -> {"dln", "dls", "R0", "X0", "X1", "X2", "X3", "d", "L", "H"}
Optional(g) == {"N", "dl"} \cup (IF g = "plate" THEN {"start", "stop", "gap"} ELSE {})

\* t: the table given, a function from names to numbers (in ticks, degrees, eighths)
\* or to "word" / "inf" / "nan", which no parameter may be
IsNum(t, k) == k \in DOMAIN t /\ t[k].ok
V(t, k) == t[k].v
Meaningful(g, t) ==
  /\ DOMAIN t \subseteq Params(g)
  /\ Params(g) \ Optional(g) \subseteq DOMAIN t
  /\ \A k \in DOMAIN t : t[k].ok
  /\ (g \notin {"chamber_box", "chamber_gpj"}) => ({"N", "dl"} \cap DOMAIN t \in {{"N"}, {"dl"}})
  /\ \A k \in DOMAIN t \cap {"N", "dl", "dln", "dls", "R", "Rx", "Ry", "L", "H", "h", "D", "R0", "gap"} : V(t, k) > 0
  /\ (g = "ellipse" => V(t, "Ry") <= V(t, "Rx") /\ ("dl" \in DOMAIN t => 19 * V(t, "dl") < 10 * V(t, "Ry")))
  /\ (g = "savonius" => V(t, "h") < V(t, "R"))
  /\ (g = "parallelogram" => V(t, "d") > 0 /\ V(t, "d") < 180)
  /\ (g = "plate" =>
       LET start == IF "start" \in DOMAIN t THEN V(t, "start") ELSE 0
           stop == IF "stop" \in DOMAIN t THEN V(t, "stop") ELSE 8
       IN /\ V(t, "R1") >= 0 /\ V(t, "R2") >= 0 /\ V(t, "R1") + V(t, "R2") > 0
          /\ Abs(V(t, "R1") - V(t, "R2")) <= V(t, "L")
          /\ start >= 0 /\ start < 8 /\ stop > 0 /\ stop <= 8 /\ start < stop)
  /\ (g = "chamber_box" => V(t, "d") > 0 /\ V(t, "D") < V(t, "L") /\ V(t, "d") < V(t, "L") - V(t, "D"))
  /\ (g = "chamber_gpj" =>
       /\ V(t, "d") >= 0 /\ V(t, "d") < 90
       /\ V(t, "X0") <= V(t, "X1") /\ V(t, "X1") <= V(t, "X2") /\ V(t, "X2") <= V(t, "X3")
       /\ V(t, "L") > V(t, "X3") - V(t, "X0") + V(t, "R0")
       /\ V(t, "H") > 2 * (V(t, "R0") + (IF V(t, "d") = 45 THEN V(t, "X3") - V(t, "X2") ELSE 0)))
=============================================================================
