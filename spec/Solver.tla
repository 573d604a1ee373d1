------------------------------- MODULE Solver -------------------------------
(* The linear solver as its user sees it: a system of n equations, whose      *)
(* columns are bound to variables. Filling it in gives the coefficients and   *)
(* the right-hand side; solving writes the solution into the variables. A     *)
(* solver may keep what it was filled with (then it says so, and a new        *)
(* right-hand side suffices), or ask to be filled again.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* a matrix is a sequence of rows
RECURSIVE Det(_)
Minor(m, c) == [r \in 1 .. Len(m) - 1 |-> [k \in 1 .. Len(m) - 1 |-> m[r + 1][IF k < c THEN k ELSE k + 1]]]
RECURSIVE Expand(_, _)
Det(m) == IF m = <<>> THEN 1 ELSE Expand(m, Len(m))
Expand(m, c) ==
  IF c = 0 THEN 0
  ELSE (IF m[1][c] = 0 THEN 0
        ELSE (IF c % 2 = 1 THEN 1 ELSE -1) * m[1][c] * Det(Minor(m, c)))
       + Expand(m, c - 1)

Dot(a, x) == FoldLeftDomain(LAMBDA sum, k : sum + a[k] * x[k], 0, x)
Solves(m, x, r) == \A i \in 1 .. Len(m) : Dot(m[i], x) = r[i]

Empty == [n |-> 0, filled |-> FALSE, m |-> <<>>, r |-> <<>>, bind |-> <<>>]

Resize(s, n) == IF n = s.n THEN s ELSE [Empty EXCEPT !.n = n]
Fill(s, bind, m, r) == [s EXCEPT !.bind = bind, !.m = m, !.r = r, !.filled = TRUE]
Wipe(s) == [s EXCEPT !.filled = FALSE]
Right(s, r) == [s EXCEPT !.r = r]
Change(s, row, col, x) == [s EXCEPT !.m[row][col] = x]

\* solving: whether it may be said to be still filled afterwards
After(s, still) == [s EXCEPT !.filled = still]
Allowed(s, still) == still => s.filled
=============================================================================
