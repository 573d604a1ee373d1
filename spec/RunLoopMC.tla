----------------------------- MODULE RunLoopMC -----------------------------
(* The loop action by action, with crashes at any point and resumption from  *)
(* any snapshot, for all small configurations.                               *)
EXTENDS RunLoop, TLC
CONSTANTS MaxT, MaxCrash

VARIABLES cf, pc, m, buf, disk, crashes, started, front
vars == <<cf, pc, m, buf, disk, crashes, started, front>>

(* front: the snapshot the present life of the process was started from or    *)
(* wrote last (resuming from an earlier one makes the later ones worthless).  *)
(* m: memory; buf: rows the process holds (what the file will be once        *)
(* flushed); disk.rows: what a crash leaves                                  *)
None == [x \in {} |-> 0]

Configs ==
  [dt : 1..3, save : 0..3, streak : 0..2, fin2 : 0..(2 * MaxT), nsrc : {1}]

Init ==
  /\ cf \in Configs
  /\ pc = "open" /\ front = -1
  /\ \E t0 \in -2..1 : m = [t |-> t0, ink |-> 0] /\ started = t0
  /\ buf = << >> /\ crashes = 0
  /\ disk = [snaps |-> None, rows |-> << >>, lines |-> << >>]

Open == pc = "open" /\ pc' = "loop" /\ buf' = Kept(disk.rows, m.t)
        /\ UNCHANGED <<cf, m, disk, crashes, started, front>>
Enter == pc = "loop" /\ pc' = (IF ~More(cf, m.t) THEN "close"
                               ELSE IF Saves(cf, m.t) THEN "flush" ELSE "release")
         /\ UNCHANGED <<cf, m, buf, disk, crashes, started, front>>
Flush == pc = "flush" /\ pc' = "save" /\ disk' = [disk EXCEPT !.rows = buf]
         /\ UNCHANGED <<cf, m, buf, crashes, started, front>>
Save == pc = "save" /\ pc' = "release"
        /\ disk' = [disk EXCEPT !.snaps = Over(@, Index(cf, m.t) :> m)]
        /\ front' = Index(cf, m.t)
        /\ UNCHANGED <<cf, m, buf, crashes, started>>
Release == pc = "release" /\ pc' = "row" /\ m' = [m EXCEPT !.ink = @ + Released(cf, m.t)]
           /\ UNCHANGED <<cf, buf, disk, crashes, started, front>>
Row == pc = "row" /\ pc' = "sensors" /\ buf' = Append(buf, [t |-> m.t])
       /\ UNCHANGED <<cf, m, disk, crashes, started, front>>
Sensors == pc = "sensors" /\ pc' = "advance"
           /\ disk' = [disk EXCEPT !.lines = Append(@, m.t)]
           /\ UNCHANGED <<cf, m, buf, crashes, started, front>>
Advance == pc = "advance" /\ pc' = "loop" /\ m' = [m EXCEPT !.t = @ + cf.dt]
           /\ UNCHANGED <<cf, buf, disk, crashes, started, front>>
Close == pc = "close" /\ pc' = "done" /\ disk' = [disk EXCEPT !.rows = buf]
         /\ UNCHANGED <<cf, m, buf, crashes, started, front>>
Crash == pc \notin {"open", "done", "dead"} /\ crashes < MaxCrash /\ crashes' = crashes + 1
         /\ pc' = "dead" /\ UNCHANGED <<cf, m, buf, disk, started, front>>
Resume == pc \in {"dead", "done"} /\ crashes <= MaxCrash
          /\ \E i \in DOMAIN disk.snaps :
               /\ pc = "dead" => i = front
               /\ m' = disk.snaps[i] /\ front' = i
          /\ pc' = "open" /\ UNCHANGED <<cf, buf, disk, crashes, started>>

Next == Open \/ Enter \/ Flush \/ Save \/ Release \/ Row \/ Sensors \/ Advance \/ Close
        \/ Crash \/ Resume
View == <<cf, pc, m, buf, disk.snaps, disk.rows, crashes, started, front>>

m0 == [t |-> started, ink |-> 0]
(* the files of the uninterrupted run *)
WholeSnaps == RunSnaps(cf, m0)
WholeRows == [k \in 1..Steps(cf, started) |-> [t |-> TimeOf(cf, started, k)]]

(* P02, P03, P04: whenever a run is over, the files are those of the run     *)
(* that was never interrupted *)
Complete == pc = "done" => disk.snaps = WholeSnaps /\ disk.rows = WholeRows
(* P04: at any moment the snapshots are a part of them, and no rows before   *)
(* the latest of them are missing *)
Safe ==
  /\ \A i \in DOMAIN disk.snaps : i \in DOMAIN WholeSnaps /\ disk.snaps[i] = WholeSnaps[i]
  /\ front \in DOMAIN disk.snaps =>
       Kept(disk.rows, disk.snaps[front].t) = Kept(WholeRows, disk.snaps[front].t)
(* no two steps share an index *)
Named == Cardinality(DOMAIN WholeSnaps) = Cardinality(SaveSteps(cf, started))
Times == pc = "done" => m.t = EndOf(cf, started) /\ ~More(cf, m.t)
(* steps never repeat or skip within a life of the process *)
RowsGrow == \A k \in 1..(Len(buf) - 1) : buf[k + 1].t = buf[k].t + cf.dt
Monotone == [][DOMAIN disk.snaps \subseteq DOMAIN disk'.snaps]_vars
=============================================================================
