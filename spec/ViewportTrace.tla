---------------------------- MODULE ViewportTrace ----------------------------
(* Archives and images the plotting tool made.                                *)
EXTENDS Viewport, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
Abs(a) == IF a < 0 THEN -a ELSE a

(* m: a limit in thousandths; the fraction n over d, shifted by s *)
Near(m, n, d, s, tol) == Abs((m - 1000 * s) * d - 1000 * n) <= tol * d
(* a node k of res steps between n0 and n1 over d, from n0 *)
Node(m, n0, n1, d, res, k, s) == Abs((m - 1000 * s) * d * res - 1000 * (n0 * res + k * (n1 - n0))) <= 3 * d * res
Close3(a, b) == Abs(a - b) <= 2 + Abs(b) \div 1000

Grid(g, v, st, s) ==
  LET res == IF g.name = "map_streamfunction" THEN st.lo ELSE st.hi
      d == v.x.d
  IN /\ Say(Len(g.x) = res + 1, <<"columns", g.name, Len(g.x), res>>)
     /\ Say(Len(g.y) - 1 \in Rows(v, res), <<"rows", g.name, Len(g.y), Rows(v, res)>>)
     /\ Say(\A k \in DOMAIN g.x : Node(g.x[k], v.x.lo, v.x.hi, d, res, k - 1, s[1]), <<"columns at", g.name>>)
     (* the same step up the y axis *)
     /\ Say(\A k \in DOMAIN g.y :
              Abs(((g.y[k] - 1000 * s[2]) * v.y.d - 1000 * v.y.lo) * d * res - 1000 * v.y.d * (k - 1) * (v.x.hi - v.x.lo)) <= 3 * d * res * v.y.d,
            <<"rows at", g.name>>)
     /\ Say(Len(g.z) = Len(g.want), <<"nodes of map", g.name>>)
     /\ \A k \in DOMAIN g.z : Say(Close3(g.z[k], g.want[k]), <<"map", g.name, k, g.z[k], g.want[k]>>)

(* ------------------------------------------------------------ the colours *)
Nth(z, lt(_, _), n) == SortSeq(z, lt)[IF n < 1 THEN 1 ELSE n]
Up(a, b) == a < b
Down(a, b) == a > b
Ranks(n) == {n \div 50, (n - 1) \div 50}
AutoG(z) ==
  IF z = << >> THEN {0}
  ELSE {IF -a > b THEN -a ELSE b : a \in {Nth(z, Up, k) : k \in Ranks(Len(z))}, b \in {Nth(z, Down, k) : k \in Ranks(Len(z))}}
Least(z) == Nth(z, Up, 1)
Most(z) == Nth(z, Down, 1)
About(a, b) == Abs(a - b) <= 2 + Abs(b) \div 20000
Colours(st) ==
  IF st.G THEN \E g \in (IF st.gmax = 0 THEN AutoG(e.got.cbz) ELSE {1000 * st.gmax}) : About(e.got.cb[1], -g) /\ About(e.got.cb[2], g)
  ELSE IF st.P THEN e.got.cb = <<st.pmin, st.pmax>>
  ELSE IF st.U # "" THEN
    IF st.ulim = << >> THEN About(e.got.cb[1], Least(e.got.cbz)) /\ About(e.got.cb[2], Most(e.got.cbz))
    ELSE e.got.cb = <<1000 * st.ulim[1], 1000 * st.ulim[2]>>
  ELSE e.got.cb = << >>

(* ------------------------------------------------------------- the bodies *)
Times(s, a) == Cardinality({k \in DOMAIN s : s[k] = a})
Plain(k) == e.flow.plain[k] /\ e.flow.names[k] \notin Reserved /\ Times(e.flow.names, e.flow.names[k]) = 1
Closed(o) == Append(o, o[1])
Layer(name) == {e.got.outlines[k][2] : k \in {m \in DOMAIN e.got.outlines : e.got.outlines[m][1] = name}}
Outlines(st) ==
  LET n == e.flow.bodies a == Len(Below(st)) p == e.got.plotted
      names == SubSeq(p, a + 1, Len(p) - Len(Above(st)))
      rest == ToSet(e.got.files) \ Files(st)
  IN /\ Say(SubSeq(p, 1, a) = Below(st) /\ SubSeq(p, Len(p) - Len(Above(st)) + 1, Len(p)) = Above(st)
            /\ Len(names) = (IF st.B THEN n ELSE 0), <<"plotted", p, Below(st), Above(st)>>)
     /\ Say(Files(st) \subseteq ToSet(e.got.files) /\ Cardinality(rest) = n /\ Len(e.got.files) = Cardinality(Files(st)) + n,
            <<"files", e.got.files, Files(st), n>>)
     /\ Say(\A k \in 1..n : Plain(k) => e.flow.names[k] \in rest /\ Layer(e.flow.names[k]) = {Closed(e.flow.outlines[k])}, <<"outline by label">>)
     /\ Say({e.got.outlines[k][2] : k \in {m \in DOMAIN e.got.outlines : e.got.outlines[m][1] \in rest}} = {Closed(e.flow.outlines[k]) : k \in 1..n}, <<"outlines", e.got.outlines>>)
     /\ Say(st.B => \A k \in 1..n : Layer(names[k]) = {Closed(e.flow.outlines[k])}, <<"outlines as plotted", names>>)

View(st, v) ==
  LET s == Shift(st, e.flow) g == e.got
  IN /\ Say(v.ok /\ Needs(st, e.flow), <<"not refused">>)
     /\ Say(g.w = v.w /\ g.h = v.h, <<"size", g.w, g.h, v>>)
     /\ Say(Near(g.x[1], v.x.lo, v.x.d, s[1], 1) /\ Near(g.x[2], v.x.hi, v.x.d, s[1], 1), <<"x", g.x, v.x, s>>)
     /\ Say(Near(g.y[1], v.y.lo, v.y.d, s[2], 1) /\ Near(g.y[2], v.y.hi, v.y.d, s[2], 1), <<"y", g.y, v.y, s>>)
     /\ Say(g.bar = st.bar, <<"colour box", g.bar>>)
     /\ Say(g.time = (IF st.time THEN <<e.flow.time>> ELSE << >>), <<"time", g.time>>)
     /\ Say(g.gray = st.gray, <<"gray", g.gray>>)
     /\ Say(Colours(st), <<"colours", g.cb>>)
     /\ Outlines(st)
     /\ Say(st.V => g.vortices = e.flow.vort, <<"vortices", g.vortices>>)
     (* circles are so many pixels wide *)
     /\ Say(st.V => IF st.vsize = 0 THEN g.radius = << >>
                    ELSE Len(g.radius) = 1 /\ Abs(g.radius[1] * 2 * v.w * v.x.d - (v.x.hi - v.x.lo) * st.vsize * 100) <= 4 * v.w * v.x.d,
            <<"circles", g.radius>>)
     /\ Say((st.holder \/ st.spring) => g.holders = e.flow.holders /\ g.springs = e.flow.springs, <<"holders", g.holders, g.springs>>)
     /\ \A k \in DOMAIN g.grids : Grid(g.grids[k], v, st, s)
(* nothing is left where the picture was to be *)
Refused(st, v) ==
  /\ Say(~v.ok \/ ~Needs(st, e.flow), <<"refused", e.got>>)
  /\ Say(~e.got.left /\ e.got.said, <<"refused untidily", e.got>>)
Archive ==
  \E st \in {Told(e.opts)} :
  \E hair \in {IF e.exact \/ st.bad THEN 0 ELSE IF e.got.refused THEN 1
               ELSE LET v == Resolve(st) IN IF ~v.ok THEN 0 ELSE IF v.w # e.got.w \/ v.h # e.got.h THEN 1 ELSE 0} :
  \E v \in {IF st.bad THEN [ok |-> FALSE] ELSE Resolve([st EXCEPT !.hair = hair])} :
    IF e.got.refused THEN Refused(st, v) ELSE View(st, v)
(* what the image is drawn of is what the archive holds *)
Image ==
  /\ Say(e.drawn = e.kept, <<"layers of the image", e.drawn, e.kept>>)
  /\ Say(e.script, <<"script">>)
  /\ Say(e.image = e.wrote, <<"image", e.image, e.wrote>>)
TInit == i = 1
Done ==
  CASE e.kind = "archive" -> Archive
    [] e.kind = "image" -> Image
    [] e.kind = "nowhere" -> Say(e.refused, <<"not written, not told", e.where>>)
    [] e.kind = "folder" -> Say(e.left = e.named /\ e.same, <<"in a folder", e.left, e.named, e.same>>)
TNext == i <= Len(Trace) /\ (IF Done THEN TRUE ELSE FALSE) /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
===============================================================================
