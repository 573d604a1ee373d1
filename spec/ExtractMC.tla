----------------------------- MODULE ExtractMC -----------------------------
(* All small files and requests: the table holds every cell of every          *)
(* requested dataset in its place, once, and nothing else.                    *)
EXTENDS Extract
CONSTANTS MaxRows, MaxCols, MaxReq
VARIABLES data, req
Data(n) == {[dims |-> <<r, c>>, rows |-> [i \in 1..r |-> [j \in 1..c |-> n \o ToString(10 * i + j)]]] : r \in 0..MaxRows, c \in 1..MaxCols}
Init == /\ data \in [{"a"} -> Data("a")] \cup {x @@ y : x \in [{"a"} -> Data("a")], y \in [{"b"} -> Data("b")]}
        /\ req = <<>>
Next == Len(req) < MaxReq /\ \E n \in DOMAIN data : req' = Append(req, n) /\ UNCHANGED data

T == Table(data, req)
Width == FoldLeft(LAMBDA a, n : a + Columns(data[n]), 0, req)
Shape == req # <<>> => Len(T) = 1 + Lines(data, req) /\ \A k \in DOMAIN T : Len(T[k]) = Width
Start(m) == FoldLeft(LAMBDA a, n : a + Columns(data[n]), 0, SubSeq(req, 1, m - 1))
Placed ==
  \A m \in DOMAIN req : LET d == data[req[m]] IN
    \A c \in 1..Columns(d), r \in 1..Lines(data, req) :
      T[r + 1][Start(m) + c] = IF r <= d.dims[1] THEN d.rows[r][c] ELSE Blank
Rebuilt ==      \* what was asked for can be read back
  \A m \in DOMAIN req : LET d == data[req[m]] IN
    [r \in 1..d.dims[1] |-> SubSeq(T[r + 1], Start(m) + 1, Start(m) + Columns(d))] = d.rows
=============================================================================
