----------------------------- MODULE IsolineMC -----------------------------
(* Every small field and level; the pieces of the cells, joined one by one in *)
(* any order (AnyOrder) or in that of the cells.                              *)
EXTENDS Isoline
CONSTANTS Values, Levels, NX, NY, AnyOrder
VARIABLES z, c, todo, lines
Nodes == (0..(NX - 1)) \X (0..(NY - 1))
All == FoldLeft(LAMBDA acc, p : acc \o (CHOOSE ch \in Drawings(z, p, c) : TRUE), <<>>, SetToSeq(Cells(NX, NY)))
Init == z \in [Nodes -> Values] /\ c \in Levels /\ lines = <<>> /\ todo = All
Next ==
  /\ todo # <<>>
  /\ \E k \in (IF AnyOrder THEN DOMAIN todo ELSE {1}) :
       /\ lines' = Join(lines, todo[k])
       /\ todo' = Without(todo, k)
  /\ UNCHANGED <<z, c>>
(* crossings come in pairs around a cell, never three *)
Paired == lines = <<>> => \A p \in Cells(NX, NY) : Len(Spots(z, p, c)) \in {0, 2, 4}
(* at an inner place pieces meet in even number: no line ends inside *)
Degree(q) == LET s == Proper(All) IN Cardinality({k \in DOMAIN s : q = s[k][1]}) + Cardinality({k \in DOMAIN s : q = s[k][2]})
Ends == UNION {{s[1], s[2]} : s \in ToSet(All)}
Closed == lines = <<>> => \A q \in Ends : Inside(q, NX, NY) => Degree(q) % 2 = 0
(* lines separate: an edge is met exactly when its ends are on both sides *)
Edges == {<<a, b>> \in Nodes \X Nodes : (b[1] = a[1] + 1 /\ b[2] = a[2]) \/ (b[1] = a[1] /\ b[2] = a[2] + 1)}
On(q, a, b) == \/ a[1] = b[1] /\ q[1] = Unit * a[1] /\ Unit * a[2] <= q[2] /\ q[2] <= Unit * b[2]
               \/ a[2] = b[2] /\ q[2] = Unit * a[2] /\ Unit * a[1] <= q[1] /\ q[1] <= Unit * b[1]
Separate == lines = <<>> => \A e \in Edges : Crossed(z, e[1], e[2], c) => \E q \in Ends : On(q, e[1], e[2])
Only == lines = <<>> => (Generic(z, {c}) => \A e \in Edges : (\E q \in Ends : On(q, e[1], e[2])) => Crossed(z, e[1], e[2], c))
(* the transposed field has the transposed pieces *)
Turn(q) == <<q[2], q[1]>>
Turned == lines = <<>> => \A p \in Cells(NX, NY) :
  LET zt == [n \in {Turn(m) : m \in Nodes} |-> z[Turn(n)]]
      Flip(ch) == {Seg(Turn(ch[k][1]), Turn(ch[k][2])) : k \in DOMAIN ch}
  IN {ToSet(ch) : ch \in Drawings(zt, Turn(p), c)} = {Flip(ch) : ch \in Drawings(z, p, c)}
(* joining loses nothing, and at the end no line stops inside the field *)
Kept == LET drawn == Pieces(lines) \o todo IN SameBag(Proper(drawn), Proper(All))
Whole == todo = <<>> /\ Generic(z, {c}) => \A k \in DOMAIN lines :
  Head(lines[k]) = Last(lines[k]) \/ (~Inside(Head(lines[k]), NX, NY) /\ ~Inside(Last(lines[k]), NX, NY))
Greedy == lines = <<>> => SameBag(Expected(z, NX, NY, {c}, ToSet(Proper(All))), Proper(All))
=============================================================================
