------------------------------ MODULE RunLoop ------------------------------
(* The main loop of a simulation and the files it leaves behind.  All times  *)
(* are integers, in ticks of a common unit.                                  *)
(*                                                                           *)
(* A configuration is [dt, save, streak, fin2, nsrc]: the step, the periods  *)
(* of snapshots and of streak release (0 = never), twice the finish time,    *)
(* and the number of streak sources.  The memory of the process is           *)
(* [t, ink]; the disk is [snaps, rows, lines]: the snapshots by index, the   *)
(* diagnostic rows and the sensor lines.                                     *)
EXTENDS Integers, Sequences, FiniteSets

Multiple(t, p) == p # 0 /\ t % p = 0

(* the loop runs through the step nearest to the finish time *)
More(cf, t) == 2 * t < cf.fin2 + cf.dt
Saves(cf, t) == t >= 0 /\ Multiple(t, cf.save)
Releases(cf, t) == Multiple(t, cf.streak)
Released(cf, t) == IF Releases(cf, t) THEN cf.nsrc ELSE 0
(* the number of the step, rounded *)
Index(cf, t) == (2 * t + cf.dt) \div (2 * cf.dt)

(* opening the diagnostic file: rows from the current time on are dropped *)
RECURSIVE Kept(_, _)
Kept(rows, t) ==
  IF rows = << >> \/ Head(rows).t >= t THEN << >>
  ELSE <<Head(rows)>> \o Kept(Tail(rows), t)

(* times of the steps a run makes, and the time it leaves behind *)
Steps(cf, t0) ==
  LET d == cf.fin2 + cf.dt - 2 * t0
  IN IF d <= 0 THEN 0 ELSE (d + 2 * cf.dt - 1) \div (2 * cf.dt)
TimeOf(cf, t0, k) == t0 + (k - 1) * cf.dt
EndOf(cf, t0) == t0 + Steps(cf, t0) * cf.dt

(* streak particles there are at the k-th step of a run, before release *)
RECURSIVE InkAt(_, _, _)
InkAt(cf, m, k) ==
  IF k = 1 THEN m.ink
  ELSE InkAt(cf, m, k - 1) + Released(cf, TimeOf(cf, m.t, k - 1))

SaveSteps(cf, t0) == {k \in 1..Steps(cf, t0) : Saves(cf, TimeOf(cf, t0, k))}

(* what a complete run writes *)
RunSnaps(cf, m) ==
  [i \in {Index(cf, TimeOf(cf, m.t, k)) : k \in SaveSteps(cf, m.t)} |->
     LET k == CHOOSE k \in SaveSteps(cf, m.t) : Index(cf, TimeOf(cf, m.t, k)) = i
     IN [t |-> TimeOf(cf, m.t, k), ink |-> InkAt(cf, m, k)]]
RunTimes(cf, t0) == [k \in 1..Steps(cf, t0) |-> TimeOf(cf, t0, k)]
RunMem(cf, m) == [t |-> EndOf(cf, m.t), ink |-> InkAt(cf, m, Steps(cf, m.t) + 1)]

Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
=============================================================================
