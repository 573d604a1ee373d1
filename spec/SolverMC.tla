------------------------------ MODULE SolverMC ------------------------------
(* How the solver works: it keeps the inverse of the last matrix inverted, a  *)
(* key to recognise that matrix by, and works in place, so that the contents  *)
(* are used up unless the key matched. Checked: whatever was done before, a   *)
(* solution belongs to the matrix and the right-hand side last filled in.     *)
(* Matrices and right-hand sides stand for themselves as names; storage that  *)
(* was moved to another size holds junk.                                      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sizes, Matrices, Rights, Forget
VARIABLES n, body, right, ok, inverse, key, wanted, got
vars == <<n, body, right, ok, inverse, key, wanted, got>>
Junk == <<-1, -1>>      \* as contents of the matrix
Nothing == <<0, 0>>
Spoilt == -1

Init == /\ n = 0 /\ body = Junk /\ right = Spoilt /\ ok = FALSE
        /\ inverse = Junk /\ key = Nothing /\ wanted = <<Junk, Spoilt>> /\ got = <<Nothing, 0>>

Resize == \E k \in Sizes :
  IF k = n THEN UNCHANGED vars
  ELSE /\ n' = k /\ body' = Junk /\ right' = Spoilt /\ ok' = FALSE /\ inverse' = Junk
       /\ key' = IF Forget THEN Nothing ELSE key
       /\ wanted' = <<Junk, Spoilt>> /\ got' = <<Nothing, 0>>

\* the matrix names carry the size: equal names, equal contents
Fill == \E m \in Matrices, r \in Rights :
  /\ n > 0
  /\ body' = <<n, m>> /\ right' = r /\ ok' = TRUE
  /\ wanted' = <<<<n, m>>, r>> /\ got' = <<Nothing, 0>>
  /\ UNCHANGED <<n, inverse, key>>

NewRight == \E r \in Rights :
  /\ ok
  /\ right' = r /\ wanted' = <<wanted[1], r>> /\ got' = <<Nothing, 0>>
  /\ UNCHANGED <<n, body, ok, inverse, key>>

Direct == /\ ok
          /\ got' = <<body, right>>
          /\ body' = Junk /\ right' = Spoilt /\ ok' = FALSE
          /\ UNCHANGED <<n, inverse, key, wanted>>

Cached == /\ ok
          /\ IF body = key
             THEN got' = <<inverse, right>> /\ UNCHANGED <<body, ok, inverse, key>>
             ELSE got' = <<body, right>> /\ inverse' = body /\ key' = body /\ body' = Junk /\ ok' = FALSE
          /\ UNCHANGED <<n, right, wanted>>

Next == Resize \/ Fill \/ NewRight \/ Direct \/ Cached
Spec == Init /\ [][Next]_vars

Right == got = <<Nothing, 0>> \/ got = wanted
KeptIsWhatWasFilled == ok => body = wanted[1]
=============================================================================
