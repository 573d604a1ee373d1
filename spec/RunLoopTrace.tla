---------------------------- MODULE RunLoopTrace ----------------------------
(* Accepts recorded histories of real runs: configuring, running, killing,   *)
(* resuming.  After every run the complete content of the disk is observed.  *)
EXTENDS RunLoop, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, cf, m, disk, know, resumedAt
vars == <<i, cf, m, disk, know, resumedAt>>
e == Trace[i]

None == [x \in {} |-> 0]
Blank == [snaps |-> None, rows |-> << >>, lines |-> << >>]
NoTime == -2000000000

TInit == /\ i = 1 /\ cf = [dt |-> 1, save |-> 0, streak |-> 0, fin2 |-> 0, nsrc |-> 0]
         /\ m = [t |-> 0, ink |-> 0] /\ disk = Blank /\ know = {} /\ resumedAt = NoTime

(* a new story: fresh directory, fresh flow *)
Fresh == e.op = "fresh" /\ disk' = Blank /\ know' = {} /\ m' = [t |-> 0, ink |-> 0]
         /\ resumedAt' = NoTime /\ UNCHANGED cf
(* another number of threads or a repetition: the same flow must appear *)
Again == e.op = "again" /\ disk' = Blank /\ m' = [t |-> 0, ink |-> 0]
         /\ resumedAt' = NoTime /\ UNCHANGED <<cf, know>>
(* the script is run once more over the files of the previous time *)
Restart == e.op = "restart" /\ m' = [t |-> 0, ink |-> 0] /\ know' = {}
           /\ resumedAt' = NoTime /\ UNCHANGED <<cf, disk>>
(* the same, and it must give the same flow *)
Rerun == e.op = "rerun" /\ m' = [t |-> 0, ink |-> 0]
         /\ resumedAt' = NoTime /\ UNCHANGED <<cf, disk, know>>
(* the user removes the diagnostic file *)
Cleared == e.op = "cleared" /\ disk' = [disk EXCEPT !.rows = << >>]
           /\ UNCHANGED <<cf, m, know, resumedAt>>
Configure == e.op = "config" /\ cf' = e.cf /\ m' = [m EXCEPT !.t = e.t]
             /\ UNCHANGED <<disk, know, resumedAt>>
Refused == e.op = "refused" /\ e.files = 0 /\ UNCHANGED <<cf, m, disk, know, resumedAt>>
Resume == e.op = "resume" /\ e.idx \in DOMAIN disk.snaps
          /\ m' = [t |-> disk.snaps[e.idx].t, ink |-> disk.snaps[e.idx].ink]
          /\ resumedAt' = disk.snaps[e.idx].t
          /\ cf' = disk.snaps[e.idx].cf     \* the snapshot carries the configuration
          /\ UNCHANGED <<disk, know>>

RunSnapsC(c, mm) == LET r == RunSnaps(c, mm)
                    IN [x \in DOMAIN r |-> [t |-> r[x].t, ink |-> r[x].ink, cf |-> c]]

(* observed snapshots and rows as the model sees them *)
ObsSnaps(k, inked) ==
  [x \in {e.snaps[n].idx : n \in 1..Len(e.snaps)} |->
     LET s == e.snaps[CHOOSE n \in 1..Len(e.snaps) : e.snaps[n].idx = x]
     IN [t |-> s.t, ink |-> IF inked THEN s.ink ELSE 0]]
Distinct == Cardinality({e.snaps[n].idx : n \in 1..Len(e.snaps)}) = Len(e.snaps)

(* what is known about the flow at a time: the digest of its snapshot, the   *)
(* digest of its row, and that of the columns that contain friction *)
SnapFacts == {[k |-> "snap", t |-> e.snaps[n].t, d |-> e.snaps[n].d] : n \in 1..Len(e.snaps)}
RowFacts == {[k |-> "row", t |-> e.rows[n].t, d |-> e.rows[n].d] : n \in 1..Len(e.rows)}
FricFacts == {[k |-> "fric", t |-> e.rows[n].t, d |-> e.rows[n].f] :
                n \in {n \in 1..Len(e.rows) : e.rows[n].t \notin {e.exempt[x] : x \in 1..Len(e.exempt)}}}
Consistent(facts) ==
  Cardinality({<<a.k, a.t>> : a \in facts}) = Cardinality(facts)  \* one digest each

(* profiles are kept apart: a row has one exactly if its step recorded it *)
Apart == "prof" \in DOMAIN e
Row(t) == IF Apart THEN [t |-> t, p |-> e.prof] ELSE [t |-> t]
ProfFacts == IF ~ Apart THEN {}
             ELSE {[k |-> "prof", t |-> e.rows[n].t, d |-> e.rows[n].p] : n \in {n \in 1..Len(e.rows) : e.rows[n].p # ""}}
                  \cup {[k |-> "pfric", t |-> e.rows[n].t, d |-> e.rows[n].pf] : n \in {n \in 1..Len(e.rows) : e.rows[n].pf # ""}}
ProfilesOk(d2, kept) ==
  Apart => /\ \A n \in 1..Len(e.rows) : /\ (e.rows[n].p # "") = d2.rows[n].p
                                       /\ (e.rows[n].pf # "") = d2.rows[n].p
           (* and there is none beyond the rows *)
           /\ \A n \in 1..Len(e.pcols) : e.pcols[n] = IF e.prof THEN Len(d2.rows) ELSE Len(kept)

Learn(new) == LET all == know \cup new IN Consistent(all) /\ know' = all

Expect(d2) ==
  LET inked == cf.nsrc >= 0
      strip(f) == [x \in DOMAIN f |-> [t |-> f[x].t, ink |-> IF inked THEN f[x].ink ELSE 0]]
  IN /\ Distinct
     /\ ObsSnaps(e.snaps, inked) = strip(d2.snaps)
     /\ [n \in 1..Len(e.rows) |-> e.rows[n].t] = [n \in 1..Len(d2.rows) |-> d2.rows[n].t]
     (* every dataset has one row for each of them *)
     /\ \A n \in 1..Len(e.cols) : e.cols[n] = Len(d2.rows)
     /\ (e.sens => e.lines = d2.lines)

(* a run to the end: everything on the disk is what the model says *)
Run == /\ e.op = "run"
       /\ LET kept == Kept(disk.rows, m.t)
              d2 == [snaps |-> Over(disk.snaps, RunSnapsC(cf, m)),
                     rows |-> kept \o [k \in 1..Steps(cf, m.t) |-> Row(TimeOf(cf, m.t, k))],
                     lines |-> disk.lines \o RunTimes(cf, m.t)]
          IN Expect(d2) /\ ProfilesOk(d2, kept) /\ disk' = d2
       /\ m' = RunMem(cf, m)
       /\ (e.told => e.tend = m'.t)
       /\ Learn(SnapFacts \cup RowFacts \cup FricFacts \cup ProfFacts)
       /\ UNCHANGED <<cf, resumedAt>>

(* a killed run: all snapshots present are intact and belong to the run, the *)
(* earlier ones are still there, and (unless the diagnostic file was being   *)
(* written) no rows before the latest snapshot are missing                   *)
Killed ==
  /\ e.op = "killed"
  /\ LET whole == Over(disk.snaps, RunSnapsC(cf, m))
         obs == ObsSnaps(e.snaps, cf.nsrc >= 0)
         t0 == m.t
         allrows == Kept(disk.rows, t0)
                    \o [k \in 1..Steps(cf, t0) |-> [t |-> TimeOf(cf, t0, k)]]
         strip(x) == [t |-> x.t, ink |-> IF cf.nsrc >= 0 THEN x.ink ELSE 0]
     IN /\ Distinct
        /\ e.broken = 0
        /\ DOMAIN disk.snaps \subseteq DOMAIN obs
        /\ DOMAIN obs \subseteq DOMAIN whole
        /\ \A x \in DOMAIN obs : obs[x] = strip(whole[x])
        (* snapshots appear in order *)
        /\ \A x \in DOMAIN obs : \A k \in SaveSteps(cf, m.t) :
             (x \notin DOMAIN disk.snaps /\ TimeOf(cf, m.t, k) < obs[x].t)
                => Index(cf, TimeOf(cf, m.t, k)) \in DOMAIN obs
        /\ disk' = [snaps |-> [x \in DOMAIN obs |-> whole[x]],
                    (* e.front: the last snapshot this life started from or wrote *)
                    rows |-> IF e.front \notin DOMAIN obs \/ e.lost THEN << >>
                             ELSE Kept(allrows, obs[e.front].t),
                    lines |-> << >>]
  /\ Learn(SnapFacts)
  /\ UNCHANGED <<cf, m, resumedAt>>

(* a further fact about the flow at a time: a map drawn from its snapshot *)
Fact == e.op = "fact" /\ Learn({[k |-> e.k, t |-> e.t, d |-> e.d]})
        /\ UNCHANGED <<cf, m, disk, resumedAt>>

(* in a uniform stream a + b t every probe sees exactly that *)
Stream == e.op = "stream" /\ e.v = <<e.u[1] + e.u[2] * e.t, e.u[3] + e.u[4] * e.t>>
          /\ UNCHANGED <<cf, m, disk, know, resumedAt>>

(* a velocity is that induced by everything in the flow *)
Abs(x) == IF x < 0 THEN -x ELSE x
Near == e.op = "near" /\ \A k \in 1..2 : Abs(e.a[k] - e.b[k]) <= e.tol
        /\ UNCHANGED <<cf, m, disk, know, resumedAt>>

TNext == /\ i <= Len(Trace) /\ i' = i + 1
         /\ Fresh \/ Again \/ Restart \/ Rerun \/ Cleared \/ Configure \/ Refused \/ Resume \/ Run \/ Killed \/ Fact \/ Stream \/ Near

Accepted == PrintT(<<"TRACE_DEPTH", TLCGet("stats").diameter - 1>>)
=============================================================================
