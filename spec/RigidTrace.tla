------------------------------ MODULE RigidTrace ------------------------------
(* Recorded motion against Rigid.  Lengths in 1/100, angles in quarter turns. *)
(*   move:  bodies before a step, what was measured after it, particles       *)
(*          <<x, y, vx, vy>> (v = way in a full step), the frame's marker     *)
(*   stop, bounce: the two solutions that follow a hit (unknowns in 1/1000)   *)
(*   limits: places of limited components in a whole run (1e-5)               *)
(*   shape: a body during a whole run: squared distances, joint, offsets      *)
EXTENDS Rigid, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
TInit == i = 1

Near(x, y, tol) == x - y <= tol /\ y - x <= tol

Seen(b) == [axis |-> b.axis, hold |-> b.hold, angle |-> b.angle, hangle |-> b.hangle, c |-> b.c]
MoveOk ==
  LET f == Part(e.bodies)
      new == Move(e.bodies, f)
  IN /\ [n \in DOMAIN new |-> Seen(new[n])] = [n \in DOMAIN e.after |-> Seen(e.after[n])]
     /\ \A n \in DOMAIN e.after : e.after[n].prev = e.after[n].speed
     /\ IF Reached(e.bodies) = {} THEN e.hit \in {<<0, 0>>} \cup JustReached(e.bodies)
        ELSE e.hit \in Hits(e.bodies)
     /\ Len(e.particles) = Len(e.parted)
     /\ \A k \in DOMAIN e.particles :
          LET p == e.particles[k] IN e.parted[k] = <<p[1] + Of(p[3], f), p[2] + Of(p[4], f)>>
     /\ e.marked = <<e.marker[1] + Of(e.wind[1], f), e.marker[2] + Of(e.wind[2], f)>>

(* a free component obeys its spring, unless it is the one that stops *)
Spring(b, k) == b.k[k] * b.off[k] + b.d[k] * b.v[k] + b.ext[k]
SpringOk(b, k, more) == Near(2 * b.H[k], 2 * Spring(b, k) + more, 10 + 2 * b.k[k] + 2 * b.d[k])
StopOk ==
  \A n \in DOMAIN e.bodies : \A k \in 1..3 :
    LET b == e.bodies[n] IN
    IF <<n, k>> = e.hit THEN Near(b.v[k], 0, 1)
    ELSE b.free[k] => SpringOk(b, k, 0)
BounceOk ==
  \A n \in DOMAIN e.bodies : \A k \in 1..3 :
    LET b == e.bodies[n] IN
    b.free[k] => SpringOk(b, k, IF <<n, k>> = e.hit THEN (2 + e.bounce2) * e.was ELSE 0)

LimitsOk == \A k \in DOMAIN e.at :
  LET a == e.at[k] IN /\ a[2] # NoLimit => a[1] >= a[2] - 1
                      /\ a[3] # NoLimit => a[1] <= a[3] + 1
ShapeOk == Len(e.first) = Len(e.now) /\ \A k \in DOMAIN e.first : Near(e.first[k], e.now[k], e.tol)

TNext == /\ i <= Len(Trace)
         /\ CASE e.op = "move" -> MoveOk
              [] e.op = "stop" -> StopOk
              [] e.op = "bounce" -> BounceOk
              [] e.op = "limits" -> LimitsOk
              [] e.op = "shape" -> ShapeOk
         /\ i' = i + 1
Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
