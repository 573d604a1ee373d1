---------------------------- MODULE PolygonTrace ----------------------------
EXTENDS Polygon, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
TInit == i = 1

(* areas come in units of 1/2, middles in units of 1/2, the rest rounded *)
Whole(p, axis, g) ==
  LET S == Area2(p) IN
  /\ g.n = Len(p)
  /\ g.area2 = S
  /\ Abs(g.cx * 3 * S - 256 * CX(p)) <= 3 * Abs(S)
  /\ Abs(g.cy * 3 * S - 256 * CY(p)) <= 3 * Abs(S)
  /\ Abs(g.moi * 36 * S - 16 * MomentNum(p)) <= 36 * Abs(S)
  (* about an axis: parallel axes *)
  /\ Abs(g.moi_axis * 36 * S
         - 16 * (MomentNum(p) + 2 * ((CX(p) - 3 * axis[1] * S) * (CX(p) - 3 * axis[1] * S)
                                     + (CY(p) - 3 * axis[2] * S) * (CY(p) - 3 * axis[2] * S)))) <= 36 * Abs(S)
  /\ g.slen >= Length256(p) - 1 /\ g.slen <= Length256(p) + Len(p) + 1
Geometry ==
  LET p == e.poly S == Area2(p) IN
  /\ Simple(p)
  /\ e.hollow = (S < 0)
  /\ Whole(p, <<2, -1>>, e)
  /\ \A k \in 1..Len(p) :
       /\ e.segs[k][1] = p[k][1] /\ e.segs[k][2] = p[k][2]
       /\ e.segs[k][3] = p[k][1] + p[Nxt(p, k)][1] /\ e.segs[k][4] = p[k][2] + p[Nxt(p, k)][2]
       /\ e.segs[k][5] = p[Nxt(p, k)][1] - p[k][1] /\ e.segs[k][6] = p[Nxt(p, k)][2] - p[k][2]
       /\ Abs(e.segs[k][7] - ISqrt(65536 * Dot(Sub(p[Nxt(p, k)], p[k]), Sub(p[Nxt(p, k)], p[k])))) <= 1

(* what a script is told of a body that it moves about: shifts, and turns by  *)
(* quarters about the axis, which is the holder plus the deviation from it    *)
RECURSIVE Quarters(_, _)
Quarters(d, k) == IF k = 0 THEN d ELSE Quarters(<<-d[2], d[1]>>, k - 1)
Add2(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Place(s, m) ==
  IF m[1] = "shift"
  THEN [p |-> [k \in DOMAIN s.p |-> Add2(s.p[k], <<m[2], m[3]>>)], h |-> Add2(s.h, <<m[2], m[3]>>), d |-> s.d, o |-> s.o]
  ELSE LET a == Add2(s.h, s.d)
       IN [p |-> [k \in DOMAIN s.p |-> Add2(a, Quarters(Sub(s.p[k], a), m[2] % 4))], h |-> s.h, d |-> s.d, o |-> s.o + m[2]]
RECURSIVE Told(_, _)
Told(s, k) ==
  LET g == e.told[k] axis == Add2(s.h, s.d) IN
  /\ Whole(s.p, axis, g)
  /\ g.axis = axis /\ g.holder = <<s.h[1], s.h[2], s.o>> /\ g.delta = <<s.d[1], s.d[2], 0>>
  /\ g.corners = s.p
  /\ \A c \in DOMAIN s.p : g.abs2[c] = Dot(s.p[c], s.p[c]) /\ Abs(g.abs[c] - ISqrt(65536 * Dot(s.p[c], s.p[c]))) <= 1
  /\ k <= Len(e.moves) => Told(Place(s, e.moves[k]), k + 1)
Script == Told([p |-> e.poly, h |-> e.holder, d |-> e.delta, o |-> 0], 1)

(* the inside test, on every point of the queried grid off the outline *)
Inside ==
  LET p == e.poly IN
  \A a, b \in 0..(e.m - 1) :
    LET q == <<e.x0 + a, e.y0 + b>> s == e.inv[b * e.m + a + 1]
    IN OnOutline(p, q)
       \/ (IF Invalid(p, q) THEN s \in 1..Len(p) /\ Nearest(p, s, q) ELSE s = 0)

TNext == i <= Len(Trace) /\ i' = i + 1 /\ IF "told" \in DOMAIN e THEN Script ELSE Geometry /\ Inside
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
