----------------------------- MODULE ViewportMC -----------------------------
(* All short command lines.                                                   *)
EXTENDS Viewport
CONSTANTS MaxOpts, R
Opt(o, a, none, c) == [o |-> o, a |-> a, none |-> none, c |-> c]
YN == {FALSE, TRUE}
Views == {Opt(o, <<a, b>>, <<m, n>>, "") : o \in {"x", "y"}, a \in (0 - R)..R, b \in {0 - R, 0, 3}, m \in YN, n \in YN}
         \cup {Opt("size", <<a, b>>, << >>, "") : a \in {0, 1, 16, 30}, b \in {0, 9, 40}}
Draws == {Opt(o, a, << >>, "") : o \in {"G", "V"}, a \in {<< >>, <<7>>}}
         \cup {Opt("P", a, << >>, "") : a \in {<< >>, <<-2, 2>>}}
         \cup {Opt("U", a, << >>, c) : a \in {<< >>, <<-2, 2>>}, c \in {"x", "y"}}
         \cup {Opt(o, << >>, << >>, c) : o \in {"colorbox", "holder", "spring"}, c \in {"", "no"}}
         \cup {Opt("S", << >>, << >>, ""), Opt("B", << >>, << >>, ""), Opt("bad", << >>, << >>, "")}
VARIABLES st, n, drawn
Init == st = Start /\ n = 0 /\ drawn \in YN
Next == n < MaxOpts /\ n' = n + 1 /\ UNCHANGED drawn /\ \E p \in (IF drawn THEN Draws ELSE Views) : st' = Apply(st, p)
v == Resolve(st)
(* one thing missing at most *)
Refusal == v.ok => Missing(st) <= 1
Sane == v.ok => v.w >= 1 /\ v.h >= 1 /\ v.x.lo < v.x.hi /\ v.y.lo < v.y.hi
dx == (v.x.hi - v.x.lo) * v.y.d
dy == (v.y.hi - v.y.lo) * v.x.d
(* nothing is stretched: exactly, or up to the pixels the image is rounded to *)
Abs(a) == IF a < 0 THEN -a ELSE a
Square == v.ok =>
  IF Open(st.x) \/ Open(st.y) THEN dx * v.h = dy * v.w
  ELSE Abs(dx * v.h - dy * v.w) < 2 * (IF st.w = 0 THEN dy ELSE dx)
(* what was given is kept: limits, or the middle of an axis given as a point *)
Kept(a, r) ==
  IF a.nolo THEN r.hi = a.hi * r.d
  ELSE IF a.nohi THEN r.lo = a.lo * r.d
  ELSE r.lo + r.hi = (a.lo + a.hi) * r.d /\ (a.lo # a.hi => {r.lo, r.hi} = {a.lo * r.d, a.hi * r.d})
Keeps == v.ok => /\ Kept(st.x, v.x) /\ Kept(st.y, v.y)
                 /\ (st.w # 0 => v.w = st.w) /\ (Missing(st) = 1 /\ st.h # 0 => v.h = st.h)
OneMap == One(st.G) + One(st.P) + One(st.U # "") <= 1
Drawn == ToSet(Below(st) \o Above(st)) \subseteq Files(st) /\ Files(st) \subseteq Reserved
         /\ Cardinality(ToSet(Below(st) \o Above(st))) = Len(Below(st) \o Above(st))
=============================================================================
