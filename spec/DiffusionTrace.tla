---------------------------- MODULE DiffusionTrace ----------------------------
(* What the code's viscosity and conduction gave to particles and segments.   *)
EXTENDS Diffusion, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
Say(b, what) == IF b THEN TRUE ELSE PrintT(<<"DIFFERS", what>>) /\ FALSE
NL == Len(e.leaves)
Of(s, r) == SelectSeq(SubSeq(s, r[1] + 1, r[2]), LAMBDA v : v[3] # 0)
NearV(n) == FlattenSeq([k \in DOMAIN e.leaves[n].near |-> Of(e.vort, e.leaves[e.leaves[n].near[k] + 1].v)])
NearH(n) == FlattenSeq([k \in DOMAIN e.leaves[n].near |-> Of(e.heat, e.leaves[e.leaves[n].near[k] + 1].h)])
Seg(id) == LET c == e.bodies[id[1] + 1] k == id[2] + 1 IN <<c[k], c[Nx(c, k)]>>
Segs(n) == FlattenSeq([k \in DOMAIN e.leaves[n].near |->
             LET b == e.leaves[e.leaves[n].near[k] + 1].b IN [m \in DOMAIN b |-> Seg(b[m])]])
(* just at the limit of sight *)
Edge(v, near, segs) ==
  \/ \E k \in DOMAIN near : AbsV(Norm2(Minus(v, near[k])) - 64 * v[4]) <= 1
  \/ \E k \in DOMAIN segs : AbsV(Norm2(Minus(v, SMid(segs[k]))) - 64 * v[4]) <= 1
Close(a, w, tol, r) == AbsV(a[1] - w[1]) <= tol + AbsV(w[1]) \div r /\ AbsV(a[2] - w[2]) <= tol + AbsV(w[2]) \div r
Vort(n, k) ==
  LET v == e.vort[k] IN
  IF v[3] = 0 THEN Say(v[5] = 0 /\ v[6] = 0, "of no strength")
  ELSE \E near \in {NearV(n)} : \E segs \in {Segs(n)} :
       IF Edge(v, near, segs) \/ v[4] < 1 THEN TRUE
       ELSE \E w \in {Spread(v, near, segs)} : Say(Close(<<v[5], v[6]>>, w, 3000, 400), <<"vortex", v, w>>)
Heat(n, k) ==
  LET v == e.heat[k] IN
  IF v[3] = 0 THEN Say(v[5] = 0 /\ v[6] = 0, "of no strength")
  ELSE \E near \in {NearH(n)} : \E segs \in {Segs(n)} :
       IF Edge(v, near, segs) \/ v[4] < 1 THEN TRUE
       ELSE LET p == ByLike(v, near) q == ByWalls(v, segs)
            IN IF v[4] > 300 \/ AbsV(q[1]) > 5000000 \/ AbsV(HeatDensity(v, p, q)) < AbsV(q[1] * v[4]) \div 2 THEN TRUE
               ELSE \E w \in {Conduct(v, near, segs)} : Say(Close(<<v[5], v[6]>>, w, 4000, 150), <<"heat", v, w>>)
SeenBy(m) == {n \in 1..NL : \E k \in DOMAIN e.leaves[n].near : e.leaves[n].near[k] + 1 = m}
FricOf(m, s) ==
  LET ns == SetToSeq(SeenBy(m))
  IN FoldLeft(LAMBDA acc, n : acc + Friction(s, SelectSeq(Of(e.vort, e.leaves[n].v), LAMBDA v : v[4] > 0)), 0, ns)
Walls(m) ==
  \A k \in DOMAIN e.leaves[m].b : LET id == e.leaves[m].b[k] s == Seg(id) f == e.fric[id[1] + 1][id[2] + 1] IN
    IF \E v \in DOMAIN e.vort : e.vort[v][3] # 0 /\ (e.vort[v][4] < 1 \/ AbsV(Norm2(Minus(e.vort[v], SMid(s))) - 64 * e.vort[v][4]) <= 1) THEN TRUE
    ELSE \E w \in {FricOf(m, s)} : Say(AbsV(f - w) <= 1000 + 30 * Len(e.vort) + AbsV(w) \div 400, <<"friction", id, f, w>>)
Flow ==
  /\ \A n \in 1..NL : \A k \in (e.leaves[n].v[1] + 1)..e.leaves[n].v[2] : Vort(n, k)
  /\ \A n \in 1..NL : \A k \in (e.leaves[n].h[1] + 1)..e.leaves[n].h[2] : Heat(n, k)
  /\ \A m \in 1..NL : Walls(m)
TInit == i = 1
TNext == i <= Len(Trace) /\ Flow /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
