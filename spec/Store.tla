------------------------------- MODULE Store -------------------------------
(* A flow and the file that holds it.  A flow is a record of                  *)
(*   attr    what is set once: numbers, times, expressions, the caption       *)
(*   the lists of particles and sources, and                                  *)
(*   bodies  [attr, root, segs]; root is the number of the body it is joined  *)
(*           to, from 0, or -1; a segment is <<x, y, g, gsum, fric, slip,      *)
(*           heat>>.                                                          *)
(* A file is a record of                                                      *)
(*   attr    its attributes by their names in the file                        *)
(*   data    its datasets by name [attr, rows].                               *)
(* Values are strings: numbers in a notation that loses nothing.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* names in the file and of the fields *)
SpaceNames ==
  {<<"caption", "caption">>, <<"time", "time">>, <<"dt", "dt">>, <<"dt_save", "dt_save">>, <<"dt_streak", "dt_streak">>,
   <<"dt_profile", "dt_profile">>, <<"re", "re">>, <<"pr", "pr">>, <<"inf_marker", "marker">>, <<"inf_speed_x", "inf_vx">>,
   <<"inf_speed_y", "inf_vy">>, <<"inf_circulation", "inf_g">>, <<"gravity", "gravity">>, <<"time_to_finish", "finish">>}
BodyNames ==
  {<<"label", "label">>, <<"holder_position", "holder">>, <<"delta_position", "dpos">>, <<"speed_x", "speed_x">>,
   <<"speed_y", "speed_y">>, <<"speed_o", "speed_o">>, <<"force_o", "force_o">>, <<"speed_slae", "speed">>,
   <<"speed_slae_prev", "speed_prev">>, <<"spring_const", "kspring">>, <<"spring_damping", "damping">>,
   <<"density", "density">>, <<"force_hydro", "hydro">>, <<"force_holder", "fholder">>, <<"friction_prev", "friction_prev">>,
   <<"fdt_dead", "fdt_dead">>, <<"g_dead", "g_dead">>, <<"collision_min", "cmin">>, <<"collision_max", "cmax">>,
   <<"bounce", "bounce">>, <<"area", "area">>, <<"cofm", "cofm">>, <<"moi_cofm", "moi_cofm">>, <<"moi_axis", "moi_axis">>,
   <<"special_segment_no", "special">>, <<"boundary_condition", "bc">>, <<"heat_condition", "hc">>}
Texts == {"caption", "inf_speed_x", "inf_speed_y", "label", "speed_x", "speed_y", "speed_o", "force_o"}
Lists == {"vort", "heat", "ink", "ink_source", "source"}

Field(Names, n) == (CHOOSE w \in Names : w[1] = n)[2]
(* a text that is empty is not written *)
Written(Names, a) == {w[1] : w \in {v \in Names : ~(v[1] \in Texts /\ a[v[2]] = "")}}
AttrOf(Names, a) == [n \in Written(Names, a) |-> a[Field(Names, n)]]
FieldsOf(Names, fa) ==
  [k \in {w[2] : w \in Names} |-> LET n == (CHOOSE w \in Names : w[2] = k)[1] IN IF n \in DOMAIN fa THEN fa[n] ELSE ""]

BodyName(k) == "body" \o (IF k < 10 THEN "0" ELSE "") \o ToString(k)
FrictionName(k) == "friction_" \o BodyName(k)
(* what is the same for all segments is an attribute *)
Uniform(v) == \A i, j \in DOMAIN v : v[i] = v[j]
Column(segs, c) == [k \in DOMAIN segs |-> segs[k][c]]
BodyData(s, b) ==
  [rows |-> [k \in DOMAIN b.segs |-> SubSeq(b.segs[k], 1, 4)],
   attr |-> AttrOf(BodyNames, b.attr)
            @@ (IF b.root < 0 THEN <<>> ELSE [root_body |-> BodyName(b.root)])
            @@ (IF Uniform(Column(b.segs, 6)) THEN [general_slip |-> b.segs[1][6]] ELSE <<>>)
            @@ [general_heat_const |-> b.segs[1][7], simplified_dataset |-> "2"],
   slip |-> IF Uniform(Column(b.segs, 6)) THEN <<>> ELSE Column(b.segs, 6)]
HasFriction(b) == \E k \in DOMAIN b.segs : b.segs[k][5] # "0"
Bare(rows) == [rows |-> rows, attr |-> <<>>, slip |-> <<>>]
FrictionData(b) == Bare([k \in DOMAIN b.segs |-> <<b.segs[k][5]>>])

(* the file of a flow *)
DataNames(s) ==
  {l \in Lists : s[l] # <<>>} \cup {BodyName(k - 1) : k \in DOMAIN s.bodies}
    \cup {FrictionName(k - 1) : k \in {m \in DOMAIN s.bodies : HasFriction(s.bodies[m])}}
FileOf(s) ==
  [attr |-> AttrOf(SpaceNames, s.attr),
   data |-> [n \in DataNames(s) |->
     IF n \in Lists THEN Bare(s[n])
     ELSE LET W == {k \in DOMAIN s.bodies : BodyName(k - 1) = n}
          IN IF W # {} THEN BodyData(s, s.bodies[CHOOSE k \in W : TRUE])
             ELSE FrictionData(s.bodies[CHOOSE k \in DOMAIN s.bodies : FrictionName(k - 1) = n])]]
(* only what can be stored is stored *)
Storable(s) == \A k \in DOMAIN s.bodies : Uniform(Column(s.bodies[k].segs, 7))

(* the flow in a file *)
BodiesIn(f) == {n \in DOMAIN f.data : \E k \in 0..Cardinality(DOMAIN f.data) : n = BodyName(k)}
BodyOf(f, k, N) ==
  LET d == f.data[BodyName(k)]
      fr == FrictionName(k)
      roots == {m \in 0..(N - 1) : "root_body" \in DOMAIN d.attr /\ d.attr["root_body"] = BodyName(m)}
  IN [attr |-> FieldsOf(BodyNames, d.attr),
      root |-> IF roots = {} THEN -1 ELSE CHOOSE m \in roots : TRUE,
      segs |-> [i \in DOMAIN d.rows |->
        d.rows[i] \o <<IF fr \in DOMAIN f.data THEN f.data[fr].rows[i][1] ELSE "0",
                       IF d.slip = <<>> THEN d.attr["general_slip"] ELSE d.slip[i],
                       d.attr["general_heat_const"]>>]]
FlowOf(f) ==
  LET N == Cardinality(BodiesIn(f))
  IN [l \in Lists |-> IF l \in DOMAIN f.data THEN f.data[l].rows ELSE <<>>]
     @@ [attr |-> FieldsOf(SpaceNames, f.attr), bodies |-> [k \in 1..N |-> BodyOf(f, k - 1, N)]]
=============================================================================
