---------------------------- MODULE StreamlinesTrace ----------------------------
(* Lines the code drew over maps.                                             *)
EXTENDS Streamlines, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
Far(p, q) == LET a == Abs(p[1] - q[1]) b == Abs(p[2] - q[2]) IN IF a > b THEN a ELSE b
Same(s, t) == (Far(s[1], t[1]) <= 2 /\ Far(s[2], t[2]) <= 2) \/ (Far(s[1], t[2]) <= 2 /\ Far(s[2], t[1]) <= 2)
Longer(ss, l) == {s \in ss : Far(s[1], s[2]) > l}
Drawn == UNION {{<<e.lines[k][m], e.lines[k][m + 1]>> : m \in 1..(Len(e.lines[k]) - 1)} : k \in DOMAIN e.lines}

(* maps of integers: all the lines, and no other *)
Exact ==
  \E want \in {{WaysOf(e.z, e.cuts, q, e.levels[k]) : q \in Cells(e.z), k \in DOMAIN e.levels}} : \E got \in {Drawn} :
    /\ \A s \in Longer(got, 8) : Say(\E t \in UNION UNION want : Same(s, t), <<"not a line of the map", s>>)
    /\ \A ways \in want : Say(\E w \in ways : \A t \in Longer(w, 8) : \E s \in got : Same(s, t), <<"missing", ways>>)
    (* in one piece, where no level is a value of the map *)
    /\ IF e.generic THEN \A k \in DOMAIN e.lines : LET l == e.lines[k] IN
         Say(l[1] = l[Len(l)] \/ (OnBorder(e.z, l[1]) /\ OnBorder(e.z, l[Len(l)])), <<"torn", l[1], l[Len(l)]>>) ELSE TRUE

(* any map, its values rounded: a point of a line lies on a side of a cell at *)
(* one of the levels, and every side that goes well over a level is crossed   *)
Tol == 40
(* levels: [lo, hi, n] from lo in n steps to hi *)
Level(k) == e.levels[1] + (k * (e.levels[2] - e.levels[1])) \div e.levels[3]
AtLevel(v) == \E k \in 0..e.levels[3] : Abs(v - Level(k)) <= Tol
Between(a, b, t) == a + ((b - a) * t) \div T
SidesOf(p) ==
  LET a == p[1] \div T b == p[2] \div T x == p[1] % T y == p[2] % T
      cells == {q \in {<<a, b>>, <<a - 1, b>>, <<a, b - 1>>, <<a - 1, b - 1>>} : q \in Cells(e.z)}
  IN UNION {LET k == Corners(e.z, e.cuts, q[1], q[2]) IN
            (IF p[1] = T * q[1] /\ b = q[2] THEN {Between(k[1], k[2], y)} ELSE {})
            \cup (IF p[1] = T * q[1] + T /\ b = q[2] THEN {Between(k[4], k[3], y)} ELSE {})
            \cup (IF p[2] = T * q[2] /\ a = q[1] THEN {Between(k[5], k[4], x)} ELSE {})
            \cup (IF p[2] = T * q[2] + T /\ a = q[1] THEN {Between(k[2], k[3], x)} ELSE {})
            \cup {k[n] : n \in {m \in 1..5 : p = <<T * (q[1] + ((m - 1) % 4) \div 2), T * (q[2] + (IF m \in {2, 3} THEN 1 ELSE 0))>>}} : q \in cells}
(* a hair off a node is at the node *)
Snap(c) == LET r == c % T IN IF r <= 4 THEN c - r ELSE IF r >= T - 4 THEN c + (T - r) ELSE c
Snapped(p) == <<Snap(p[1]), Snap(p[2])>>
Sound(p) == Say(\E v \in SidesOf(Snapped(p)) : AtLevel(v), <<"off the levels", p, SidesOf(Snapped(p))>>)
(* the sides of a cell: from one corner to another *)
Sides(q) == LET k == Corners(e.z, e.cuts, q[1], q[2]) x == T * q[1] y == T * q[2] IN
  { <<k[1], k[2], <<x, y>>, <<x, y + T>>>>, <<k[2], k[3], <<x, y + T>>, <<x + T, y + T>>>>,
    <<k[4], k[3], <<x + T, y>>, <<x + T, y + T>>>>, <<k[5], k[4], <<x, y>>, <<x + T, y>>>> }
Crossing(s, c) == <<Between(s[3][1], s[4][1], Met(s[1], s[2], c)), Between(s[3][2], s[4][2], Met(s[1], s[2], c))>>
Well(s, c) == (s[1] < c - Tol /\ c + Tol < s[2]) \/ (s[2] < c - Tol /\ c + Tol < s[1])
(* how far the crossing may be off for the map being rounded *)
Slack(s) == 4 + (2 * T) \div Abs(s[2] - s[1])
Complete(points, q) ==
  \A s \in Sides(q) : \A k \in 0..(e.levels[3] - 1) :
    IF Well(s, Level(k)) THEN
      Say(\E p \in points : Far(p, Crossing(s, Level(k))) <= Slack(s), <<"not crossed", s, Level(k), Crossing(s, Level(k))>>)
    ELSE TRUE
Rough ==
  \E points \in {UNION {ToSet(e.lines[k]) : k \in DOMAIN e.lines}} :
    /\ \A p \in points : Sound(p)
    (* round a source lines need not pair up *)
    /\ \A q \in Cells(e.z) : IF \E n \in DOMAIN e.cuts : e.cuts[n][1] = q[1] /\ e.cuts[n][2] = q[2] THEN TRUE ELSE Complete(points, q)
TInit == i = 1
AsDrawn == IF e.exact THEN Exact ELSE Rough
(* a condition, not an action: hundreds of points *)
TNext == i <= Len(Trace) /\ (IF AsDrawn THEN TRUE ELSE FALSE) /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
==============================================================================
