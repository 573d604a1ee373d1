------------------------------- MODULE Viewport -------------------------------
(* What the plotting tool makes of its options: the viewport, the size of the *)
(* image, the layers.  An option is [o |-> its name, a |-> its numbers, none  *)
(* |-> which of them are NaN, c |-> its word].  Numbers are integers.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Axis(lo, hi, nolo, nohi) == [lo |-> lo, hi |-> hi, nolo |-> nolo, nohi |-> nohi]
Start ==
  [x |-> Axis(0, 0, FALSE, FALSE), y |-> Axis(0, 0, FALSE, FALSE), w |-> 1280, h |-> 720,
   B |-> FALSE, V |-> FALSE, vsize |-> 4, S |-> FALSE, levels |-> << >>, G |-> FALSE, gmax |-> 0,
   P |-> FALSE, pmin |-> -1500, pmax |-> 1000, U |-> "", ulim |-> << >>,
   bar |-> FALSE, time |-> TRUE, gray |-> FALSE, holder |-> FALSE, spring |-> FALSE,
   hi |-> 640, lo |-> 256, eps |-> 2, refxy |-> "o", refS |-> "o", refP |-> "s", file |-> FALSE, bad |-> FALSE,
   (* 1: limits that are not known exactly may be a hair nearer *)
   hair |-> 0]

(* options are taken in order; the last map asked for is the one to be drawn *)
Apply(st, p) ==
  CASE p.o = "x" -> [st EXCEPT !.x = Axis(p.a[1], p.a[2], p.none[1], p.none[2])]
    [] p.o = "y" -> [st EXCEPT !.y = Axis(p.a[1], p.a[2], p.none[1], p.none[2])]
    [] p.o = "size" -> [st EXCEPT !.w = p.a[1], !.h = p.a[2]]
    [] p.o = "B" -> [st EXCEPT !.B = TRUE]
    [] p.o = "V" -> [st EXCEPT !.V = TRUE, !.vsize = IF p.a = << >> THEN @ ELSE p.a[1]]
    [] p.o = "S" -> [st EXCEPT !.S = TRUE, !.levels = IF p.a = << >> THEN @ ELSE p.a]
    [] p.o = "G" -> [st EXCEPT !.G = TRUE, !.P = FALSE, !.U = "", !.bar = TRUE, !.gmax = IF p.a = << >> THEN @ ELSE p.a[1]]
    [] p.o = "P" -> [st EXCEPT !.G = FALSE, !.P = TRUE, !.U = "", !.bar = TRUE,
                               !.pmin = IF p.a = << >> THEN @ ELSE p.a[1], !.pmax = IF p.a = << >> THEN @ ELSE p.a[2]]
    [] p.o = "U" -> [st EXCEPT !.G = FALSE, !.P = FALSE, !.U = p.c, !.bar = TRUE, !.ulim = IF p.a = << >> THEN @ ELSE p.a]
    [] p.o = "colorbox" -> [st EXCEPT !.bar = (p.c = "")]
    [] p.o = "timelabel" -> [st EXCEPT !.time = (p.c = "")]
    [] p.o = "gray" -> [st EXCEPT !.gray = (p.c = "")]
    [] p.o = "holder" -> [st EXCEPT !.holder = (p.c = "")]
    [] p.o = "spring" -> [st EXCEPT !.spring = (p.c = "")]
    [] p.o = "res-hi" -> [st EXCEPT !.hi = p.a[1]]
    [] p.o = "res-lo" -> [st EXCEPT !.lo = p.a[1]]
    [] p.o = "eps" -> [st EXCEPT !.eps = p.a[1]]
    [] p.o = "ref-xy" -> [st EXCEPT !.refxy = p.c]
    [] p.o = "ref-S" -> [st EXCEPT !.refS = p.c]
    [] p.o = "ref-P" -> [st EXCEPT !.refP = p.c]
    [] p.o = "load-field" -> [st EXCEPT !.file = TRUE]
    [] OTHER -> [st EXCEPT !.bad = TRUE]
Told(opts) == FoldLeft(Apply, Start, opts)

(* ---------------------------------------------------------- the viewport *)
Known(a) == ~a.nolo /\ ~a.nohi
Sorted(a) == IF Known(a) /\ a.lo > a.hi THEN Axis(a.hi, a.lo, FALSE, FALSE) ELSE a
One(b) == IF b THEN 1 ELSE 0
Missing(st) ==
  One(st.w = 0) + One(st.h = 0) + One(Known(st.x) /\ st.x.lo = st.x.hi) + One(Known(st.y) /\ st.y.lo = st.y.hi)
  + One(st.x.nolo) + One(st.x.nohi) + One(st.y.nolo) + One(st.y.nohi)
Even(n) == n - (n % 2)
LimitsOver(a, s, d) ==
  CASE a.nolo -> [lo |-> a.hi * d - s, hi |-> a.hi * d, d |-> d]
    [] a.nohi -> [lo |-> a.lo * d, hi |-> a.lo * d + s, d |-> d]
    [] OTHER -> [lo |-> 2 * a.lo * d - s, hi |-> 2 * a.lo * d + s, d |-> 2 * d]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
(* limits of an axis as fractions over d, its length is s * n over d, when they follow from the other axis *)
Limits(a, s, n, m) ==
  LET g == Gcd(n, m) IN LimitsOver(a, s * (n \div g), m \div g)
Open(a) == ~Known(a) \/ a.lo = a.hi
Given(a) == [lo |-> a.lo, hi |-> a.hi, d |-> 1]
(* [ok, w, h, x, y] *)
Resolve(st) ==
  LET x == Sorted(st.x) y == Sorted(st.y) m == Missing(st)
      dx == x.hi - x.lo dy == y.hi - y.lo
      w == IF m = 1 /\ st.w = 0 THEN Even((st.h * dx - st.hair) \div dy) ELSE st.w
      h == IF m = 0 \/ (m = 1 /\ st.h = 0) THEN Even((st.w * dy - st.hair) \div dx) ELSE st.h
  IN IF m > 1 THEN [ok |-> FALSE]
     ELSE IF w < 1 \/ h < 1 THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, w |-> w, h |-> h,
           x |-> IF Open(x) THEN Limits(x, dy, w, h) ELSE Given(x),
           y |-> IF Open(y) THEN Limits(y, dx, h, w) ELSE Given(y)]

(* ------------------------------------------------------------- the layers *)
(* a flow: [bodies |-> how many, marker, axis (of the first)] *)
Needs(st, f) ==
  /\ ~st.bad
  /\ st.refxy \in {"b", "x", "y"} => f.bodies > 0
  /\ (st.P /\ st.refP = "b") => f.bodies > 0
  /\ (~st.file /\ st.refS = "b" /\ (st.S \/ st.U # "")) => f.bodies > 0
Shift(st, f) ==
  CASE st.refxy = "f" -> f.marker
    [] st.refxy = "b" -> f.axis
    [] st.refxy = "x" -> <<f.axis[1], 0>>
    [] st.refxy = "y" -> <<0, f.axis[2]>>
    [] OTHER -> <<0, 0>>
If(b, s) == IF b THEN s ELSE << >>
Velocity(st) == IF st.U = "x" THEN "map_velocity_x" ELSE "map_velocity_y"
(* in the order they are drawn, bodies left out: those come before the holders *)
Below(st) ==
  If(st.G, <<"map_vorticity">>) \o If(st.P, <<"map_pressure", "isopressure">>) \o If(st.U # "", <<Velocity(st)>>)
  \o If(st.V, <<"vortex_list">>) \o If(st.S, <<"streamlines">>)
Above(st) == If(st.holder, <<"body_holders">>) \o If(st.spring, <<"body_springs">>)
Files(st) ==
  ToSet(Below(st)) \cup (IF st.S THEN {"map_streamfunction"} ELSE {})
  \cup (IF st.holder \/ st.spring THEN {"body_holders", "body_springs"} ELSE {})
Reserved == {"plot.gp", "map_vorticity", "map_pressure", "isopressure", "map_velocity_x", "map_velocity_y", "vortex_list",
             "map_streamfunction", "streamlines", "body_holders", "body_springs",
             "ttree_bottom_nodes", "ttree_near_nodes", "ttree_find_node"}
(* cells of a map's grid up the y axis: up to one more, for a hair above *)
Rows(v, res) ==
  LET n == (v.y.hi - v.y.lo) * v.x.d * res d == (v.x.hi - v.x.lo) * v.y.d
  IN IF n % d = 0 THEN {n \div d, n \div d + 1} ELSE {n \div d + 1}
===============================================================================
