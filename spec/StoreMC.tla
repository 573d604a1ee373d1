------------------------------ MODULE StoreMC ------------------------------
(* A space, changed, saved and loaded in any order: what a load brings back   *)
(* is what was saved, and nothing of what was there.                          *)
EXTENDS Store
CONSTANTS Files, Bodies, Steps
VARIABLES space, disk, ghost        \* ghost: the flows as they were when saved

Base(T) == [k \in {w[2] : w \in T} |-> IF \E w \in T : w[2] = k /\ w[1] \in Texts THEN "" ELSE "1"]
Empty ==
  [l \in Lists |-> <<>>] @@ [attr |-> Base(SpaceNames), bodies |-> <<>>]
Body(r, slips, fr) ==
  [attr |-> Base(BodyNames), root |-> r, segs |-> [k \in 1..2 |-> <<"1", "2", "0", "5", IF fr = k THEN "3" ELSE "0", slips[k], "0">>]]

Init == space = Empty /\ disk = [n \in {} |-> <<>>] /\ ghost = [n \in {} |-> <<>>]
Edit ==
  \/ \E n \in {"caption", "re"}, v \in {"", "a"} : (v = "" => n = "caption") /\ space' = [space EXCEPT !.attr[n] = v]
  \/ \E l \in {"source", "ink"} : space' = [space EXCEPT ![l] = IF Len(@) = 2 THEN <<>> ELSE Append(@, <<"1", "2", ToString(Len(@))>>)]
  \/ Len(space.bodies) < Bodies
     /\ \E r \in -1..(Len(space.bodies) - 1), s \in {<<"0", "0">>, <<"1", "1">>, <<"0", "1">>}, f \in {0, 2} :
          space' = [space EXCEPT !.bodies = Append(@, Body(r, s, f))]
  \/ space.bodies # <<>> /\ \E r \in 0..(Len(space.bodies) - 1) : space' = [space EXCEPT !.bodies[1].root = r]
  \/ space.bodies # <<>> /\ space' = [space EXCEPT !.bodies = <<>>]
Save(n) ==
  /\ disk' = [m \in DOMAIN disk \cup {n} |-> IF m = n THEN FileOf(space) ELSE disk[m]]
  /\ ghost' = [m \in DOMAIN ghost \cup {n} |-> IF m = n THEN space ELSE ghost[m]]
  /\ UNCHANGED space
Load(n) == n \in DOMAIN disk /\ space' = FlowOf(disk[n]) /\ UNCHANGED <<disk, ghost>>
Next == (Edit /\ UNCHANGED <<disk, ghost>>) \/ \E n \in Files : Save(n) \/ Load(n)

Short == TLCGet("level") < Steps

RoundTrip == FlowOf(FileOf(space)) = space
Again == FileOf(FlowOf(FileOf(space))) = FileOf(space)
LoadsWhatWasSaved == [][\A n \in Files : Load(n) => space' = ghost[n]]_<<space, disk, ghost>>
ASSUME \A j, k \in 0..130 : BodyName(j) = BodyName(k) => j = k
=============================================================================
