------------------------------- MODULE Import -------------------------------
(* Flows filled from files: particles as text or as binary numbers, outlines  *)
(* of bodies, and whole flows as earlier versions of the program saved them.  *)
(* A flow is that of Store.  A file is a record of                            *)
(*   kind    "lines", "bytes", "missing" or "folder"                          *)
(*   lines   the words of each line; a word is <<"n", its value>> when it is a *)
(*           number, <<"w", ...>> otherwise                                   *)
(*   values, rest   (bytes) the whole numbers, how many bytes follow them.    *)
(* Values are strings: numbers in a notation that loses nothing.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Lists == {"vort", "heat", "ink", "ink_source", "source"}
IsNumber(w) == w[1] = "n"
Readable(f) == f.kind \in {"lines", "bytes"}

(* three numbers in a row are a particle, wherever the lines break; reading   *)
(* ends at the first place where there are no three numbers                   *)
Words(f) == FoldLeft(LAMBDA a, l : a \o l, <<>>, f.lines)
Leading(ws) ==
  LET bad == {k \in DOMAIN ws : ~IsNumber(ws[k])}
  IN IF bad = {} THEN Len(ws) ELSE (CHOOSE k \in bad : \A m \in bad : k <= m) - 1
Triples(v, n) == [k \in 1..(n \div 3) |-> <<v[3 * k - 2], v[3 * k - 1], v[3 * k]>>]
TextRows(f) == LET ws == Words(f) IN Triples([k \in DOMAIN ws |-> ws[k][2]], Leading(ws))
BinaryRows(f) == Triples(f.values, Len(f.values))

(* an outline has a corner in every line: x y, and 1 if the flow slips there  *)
Corner(l) == Len(l) >= 2 /\ IsNumber(l[1]) /\ IsNumber(l[2])
Outlines(f) == \A k \in DOMAIN f.lines : Corner(f.lines[k])
(* what else than a flag may follow is left open *)
Flagged(l) == IF Len(l) = 2 THEN TRUE ELSE IsNumber(l[3]) /\ l[3][2] \in {"0", "1"}
Plain(f) == \A k \in DOMAIN f.lines : IF Corner(f.lines[k]) THEN Flagged(f.lines[k]) ELSE TRUE
Slip(l) == IF Len(l) = 2 THEN "0" ELSE l[3][2]
Seg(x, y, slip) == <<x, y, "0", "0", "0", slip, "0">>
Outline(f) == [k \in DOMAIN f.lines |-> Seg(f.lines[k][1][2], f.lines[k][2][2], Slip(f.lines[k]))]

(* a body nothing was said of *)
None3 == "o=0,x=0,y=0"
Inf3 == "o=inf,x=inf,y=inf"
Nan3 == "o=nan,x=nan,y=nan"
NewBody ==
  [label |-> "", speed_x |-> "", speed_y |-> "", speed_o |-> "", force_o |-> "",
   holder |-> None3, dpos |-> None3, speed |-> None3, speed_prev |-> None3, hydro |-> None3, fholder |-> None3,
   friction_prev |-> None3, fdt_dead |-> None3, kspring |-> Inf3, damping |-> None3, cmin |-> Nan3, cmax |-> Nan3,
   density |-> "1", g_dead |-> "0", bounce |-> "0", special |-> "0", bc |-> "0", hc |-> "0"]

(* what is computed from the outline *)
Derived == {"area", "cofm", "moi_cofm", "moi_axis"}
Body(attr, derived, segs) == [attr |-> attr @@ derived, root |-> -1, segs |-> segs]

(* the flow after the operation on flow s, and whether it is refused *)
Refused(op, f) == CASE op \in {"text", "binary"} -> ~Readable(f)
                    [] op \in {"outline", "reload"} -> ~(Readable(f) /\ Outlines(f))
                    [] op = "open" -> ~Readable(f)
After(s, e) ==
  IF Refused(e.op, e.file) THEN s
  ELSE CASE e.op = "text" -> [s EXCEPT ![e.list] = @ \o TextRows(e.file)]
         [] e.op = "binary" -> [s EXCEPT ![e.list] = @ \o BinaryRows(e.file)]
         [] e.op = "outline" -> [s EXCEPT !.bodies = Append(@, Body(NewBody, e.derived, Outline(e.file)))]
         [] e.op = "reload" -> [s EXCEPT !.bodies[e.body + 1] =
                                  [@ EXCEPT !.segs = Outline(e.file), !.attr = e.derived @@ @]]

-----------------------------------------------------------------------------
(* A flow saved by version 1.3 is a file of sections; a section is a record   *)
(* [name, ...].  The parts of a flow are in any order, a body's outline right *)
(* after the rest of that body.                                               *)
NewFlow ==
  [vort |-> <<>>, heat |-> <<>>, ink |-> <<>>, ink_source |-> <<>>, source |-> <<>>, bodies |-> <<>>,
   attr |-> [caption |-> "", inf_vx |-> "", inf_vy |-> "", re |-> "inf", pr |-> "0", inf_g |-> "0", finish |-> "inf",
             marker |-> "x=0,y=0", gravity |-> "x=0,y=0", time |-> "timescale=1,value=0", dt |-> "timescale=1,value=1",
             dt_save |-> "timescale=1,value=0", dt_streak |-> "timescale=1,value=0", dt_profile |-> "timescale=1,value=0"]]
OldLists == [Vortexes |-> "vort", Heat |-> "heat", StrkSrc |-> "ink_source", Streak |-> "ink"]
(* old segments: <<x, y, g, gsum, heat, boundary, warmth>>; boundary is n (no slip), l (slip), s or i (no *)
(* slip, and the body is steady) or z (and the body keeps the Kutta condition); warmth is n, i, t or w     *)
OldSeg(o) == <<o[1], o[2], o[3], o[4], "0", IF o[6] = "l" THEN "1" ELSE "0", o[5]>>
LastOf(segs, c, ok, deflt) ==
  LET K == {k \in DOMAIN segs : segs[k][c] \in ok}
  IN IF K = {} THEN deflt ELSE segs[CHOOSE k \in K : \A m \in K : m <= k][c]
OldBc(segs) == IF LastOf(segs, 6, {"s", "i", "z"}, "s") = "z" THEN "1" ELSE "0"
Warmth == [n |-> "0", i |-> "1", t |-> "2", w |-> "3"]
OldHc(segs) == Warmth[LastOf(segs, 7, {"n", "i", "t", "w"}, "n")]
Section(s, p) ==
  CASE p.name = "Header" -> [s EXCEPT !.attr = p.attr]
    [] p.name \in DOMAIN OldLists -> [s EXCEPT ![OldLists[p.name]] = @ \o p.rows]
    [] p.name = "BData" -> [s EXCEPT !.bodies = Append(@, Body(p.attr @@ NewBody, p.derived, <<>>))]
    [] p.name = "Body" -> [s EXCEPT !.bodies[Len(s.bodies)] =
                             [@ EXCEPT !.segs = [k \in DOMAIN p.segs |-> OldSeg(p.segs[k])],
                                       !.attr = [@ EXCEPT !.bc = OldBc(p.segs), !.hc = OldHc(p.segs)]]]
OldFlow(sections) == FoldLeft(Section, NewFlow, sections)
=============================================================================
