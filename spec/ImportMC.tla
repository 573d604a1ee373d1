------------------------------ MODULE ImportMC ------------------------------
(* A flow filled from any of a number of small files, in any order.           *)
EXTENDS Import
CONSTANTS Width, Height, Steps
VARIABLES s, last
N(x) == <<"n", x>>
WordsAre == {N("1"), N("0"), <<"w", "a">>}
LineSet == UNION {[1..k -> WordsAre] : k \in 0..Width}
Texts == [kind : {"lines"}, lines : UNION {[1..k -> LineSet] : k \in 0..Height}]
Binaries == [kind : {"bytes"}, values : UNION {[1..k -> {"1", "7"}] : k \in 0..4}, rest : {0, 5}]
Bad == {[kind |-> "missing"], [kind |-> "folder"]}
D == [area |-> "1", cofm |-> "2", moi_cofm |-> "3", moi_axis |-> "4"]
Events ==
  [op : {"text"}, list : {"vort", "ink"}, file : Texts \cup Bad]
    \cup [op : {"binary"}, list : {"vort", "source"}, file : Binaries \cup Bad]
    \cup [op : {"outline"}, derived : {D}, file : Texts \cup Bad]
    \cup [op : {"reload"}, body : {0}, derived : {D}, file : Texts \cup Bad]
    \cup [op : {"open"}, file : Bad]
Init == s = NewFlow /\ last = [op |-> "none"]
Next ==
  \E e \in Events : /\ e.op = "reload" => Len(s.bodies) > 0
                    /\ (IF e.op \in {"reload", "outline"} /\ Readable(e.file) THEN Plain(e.file) ELSE TRUE)
                    /\ s' = After(s, e) /\ last' = e
Plainly(e) == e.file.kind = "lines"
Short == TLCGet("level") < Steps /\ \A l \in Lists : Len(s[l]) <= 2
(* what was there stays, at its place; the rest is not touched *)
Kept == [][\A l \in Lists : IsPrefix(s[l], s'[l]) /\ (s'[l] # s[l] => last'.op \in {"text", "binary"} /\ last'.list = l)]_<<s, last>>
BodiesKept == [][/\ Len(s'.bodies) >= Len(s.bodies)
                 /\ \A k \in DOMAIN s.bodies : s'.bodies[k] # s.bodies[k] => last'.op = "reload" /\ last'.body = k - 1]_<<s, last>>
AllOrNothing == [][Refused(last'.op, last'.file) => s' = s]_<<s, last>>
(* a table of three numbers a line is read line by line; an outline has as many corners as lines *)
Tables == [][last'.op = "text" /\ last'.file.kind = "lines" =>
    ((\A k \in DOMAIN last'.file.lines : Len(last'.file.lines[k]) = 3 /\ \A j \in 1..3 : IsNumber(last'.file.lines[k][j]))
      => Len(s'[last'.list]) = Len(s[last'.list]) + Len(last'.file.lines))]_<<s, last>>
Corners == [][last'.op = "outline" /\ s' # s => Len(s'.bodies[Len(s'.bodies)].segs) = Len(last'.file.lines)]_<<s, last>>
(* the numbers of a text are those of the binary file of them *)
SameNumbers == \A v \in UNION {[1..k -> {"1", "7"}] : k \in 0..4} :
  BinaryRows([values |-> v]) = TextRows([lines |-> <<[k \in DOMAIN v |-> N(v[k])]>>])
ASSUME SameNumbers
(* the order of the sections of an old file, as far as it is free, is of no effect *)
Sec == <<[name |-> "Header", attr |-> [caption |-> "c"]], [name |-> "Vortexes", rows |-> <<<<"1", "2", "3">>>>],
         [name |-> "Heat", rows |-> <<<<"4", "5", "6">>>>], [name |-> "Streak", rows |-> <<>>]>>
ASSUME \A p \in SetToSeqs(1..4) : OldFlow([k \in 1..4 |-> Sec[p[k]]]) = OldFlow(Sec)
=============================================================================
