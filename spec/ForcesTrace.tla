----------------------------- MODULE ForcesTrace -----------------------------
(* Recorded reports against Forces.                                          *)
(*   report, clear: the bodies before and after the operation                *)
(*   row: what the diagnostic file holds for a step of a run, next to the     *)
(*        saved flow of that step and the friction the next one remembers     *)
(*   absorb: a step of motion, after which some vortices (e.vort, where they *)
(*        have got to) are in bodies and what slipping walls bear stays there  *)
EXTENDS Forces, TLC, Json, IOUtils
Poly == INSTANCE Polygon
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
TInit == i = 1

Near(a, b, tol) == a - b <= tol /\ b - a <= tol
NearAll(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Near(a[k], b[k], tol)
(* rounded to the resolution of 32-bit numbers *)
Stored(a, b) == Near(a, b, 3 + AbsF(b) \div 4000000)
StoredAll(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Stored(a[k], b[k])

ReportOk == /\ Len(e.pre) = Len(e.post)
            /\ \A n \in DOMAIN e.pre : e.post[n] = Report(e.p, e.pre[n])
ClearOk == /\ Len(e.pre) = Len(e.post)
           /\ \A n \in DOMAIN e.pre : e.post[n] = Clear(e.pre[n])

(* the pressure profile accumulates the circulation of the step, per time *)
PressureOk(b) ==
  Len(b.pressure) = Len(b.g) /\
  \A k \in DOMAIN b.pressure :
    Near(b.pressure[k], Prefix(b.g, k) * e.rate, 4 + k * e.rate + AbsF(b.pressure[k]) \div 1000000)
(* the drag is the one of the friction profile; unit tangents in 1/1000 *)
FrictionOk(b) ==
  LET X(k) == -(b.t[k][1] * b.friction[k])
      Y(k) == -(b.t[k][2] * b.friction[k])
      O(k) == -((b.arm[k][1] * b.t[k][2] - b.arm[k][2] * b.t[k][1]) \div 1000) * b.friction[k]
      A(k) == AbsF(b.friction[k])
      tol == 1000 * Len(b.g) + 2 * SumF(A, Len(b.g))
  IN /\ Near(SumF(X, Len(b.g)), 1000 * b.drag[1], tol)
     /\ Near(SumF(Y, Len(b.g)), 1000 * b.drag[2], tol)
     /\ Near(SumF(O, Len(b.g)), 1000 * b.drag[3], 2 * tol)
RowOk == \A n \in DOMAIN e.bodies :
  LET b == e.bodies[n]
  IN /\ StoredAll(b.row, b.saved)
     /\ b.next = << >> \/ StoredAll(b.next, b.drag)
     /\ b.pressure # << >> => PressureOk(b)
     /\ b.friction # << >> => FrictionOk(b)

Within(n, v) == Poly!Invalid(e.post[n].c, <<2 * v[1], 2 * v[2]>>)
(* the first body, if any *)
TakenBy(n, v) == Within(n, v) /\ \A m \in 1..(n - 1) : ~Within(m, v)
Sum(s) == LET F(k) == s[k] IN SumF(F, Len(s))
AbsorbOk ==
  /\ e.left = SelectSeq(e.vort, LAMBDA v : \A n \in DOMAIN e.post : ~Within(n, v))
  /\ \A n \in DOMAIN e.post :
       LET b == e.pre[n] z == e.post[n]
           walls == SelectSeq([k \in DOMAIN e.wall[n] |-> <<z.c[k][1], z.c[k][2], e.wall[n][k], e.slip[n][k]>>], LAMBDA w : w[4])
           vs == SelectSeq(e.vort, LAMBDA v : TakenBy(n, v))
           t == Take(b, z.axis, vs \o walls)
       IN z.fd = t.fd /\ z.dead = t.dead /\ Sum(b.g) - Sum(z.g) = z.dead - b.dead

TNext == /\ i <= Len(Trace)
         /\ CASE e.op = "report" -> ReportOk
              [] e.op = "clear" -> ClearOk
              [] e.op = "row" -> RowOk
              [] e.op = "absorb" -> (IF AbsorbOk THEN TRUE ELSE FALSE)
         /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
