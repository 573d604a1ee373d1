------------------------------ MODULE Extract ------------------------------
(* What vvxtract prints for a file.  data: its datasets by name, [dims, rows]: *)
(* the sizes, and for two dimensions the cells, as printed with seven digits. *)
(* The summary of a flow is a list of <<name, value>>.                        *)
EXTENDS Store, SequencesExt

Blank == "             "
Max2(a, b) == IF a > b THEN a ELSE b
Columns(d) == d.dims[2]
Lines(data, req) == FoldLeft(LAMBDA a, n : Max2(a, data[n].dims[1]), 0, req)
Heading(data, n) ==
  IF Columns(data[n]) = 1 THEN <<n>> ELSE [k \in 1..Columns(data[n]) |-> n \o "[" \o ToString(k) \o "]"]
Cells(d, r) == IF r <= d.dims[1] THEN d.rows[r] ELSE [k \in 1..Columns(d) |-> Blank]
Row(data, req, r) == FoldLeft(LAMBDA a, n : a \o Cells(data[n], r), <<>>, req)
Head1(s) == [s EXCEPT ![1] = "#" \o @]
Table(data, req) ==
  LET head == FoldLeft(LAMBDA a, n : a \o Heading(data, n), <<>>, req)
  IN <<IF head = <<>> THEN <<"#">> ELSE Head1(head)>> \o [r \in 1..Lines(data, req) |-> Row(data, req, r)]

(* the first thing in the request that can not be printed decides *)
Status(data, n) == IF n \notin DOMAIN data THEN 3 ELSE IF Len(data[n].dims) # 2 THEN 5 ELSE 0
Failed(data, req) == SelectSeq(req, LAMBDA n : Status(data, n) # 0)

-----------------------------------------------------------------------------
Quoted(x) == "'" \o x \o "'"
Braces(v) == "{" \o FoldLeft(LAMBDA a, w : IF a = "" THEN w ELSE a \o ", " \o w, "", v) \o "}"
Fraction(t) == "'" \o t[1] \o "/" \o t[2] \o "'"
Size(l) == ToString(Len(l))
SpaceSummary(s) ==
  LET a == s.attr
  IN <<<<"S.re", a.re>>, <<"S.inf_g", a.inf_g>>, <<"S.inf_vx", Quoted(a.inf_vx)>>, <<"S.inf_vy", Quoted(a.inf_vy)>>,
       <<"S.gravity", Braces(a.gravity)>>, <<"S.time", Fraction(a.time)>>, <<"S.dt", Fraction(a.dt)>>,
       <<"S.dt_save", Fraction(a.dt_save)>>, <<"S.dt_streak", Fraction(a.dt_streak)>>,
       <<"S.dt_profile", Fraction(a.dt_profile)>>, <<"S.finish", a.finish>>,
       <<"#S.body_list", Size(s.bodies)>>, <<"#S.vort_list", Size(s.vort)>>, <<"#S.sink_list", Size(s.source)>>,
       <<"#S.streak_source_list", Size(s.ink_source)>>, <<"#S.streak_domain_list", Size(s.ink)>>>>
NameOf(s, k) == IF s.bodies[k].attr.label = "" THEN BodyName(k - 1) ELSE s.bodies[k].attr.label
Slip(b) ==
  LET v == Column(b.segs, 6) IN IF ~Uniform(v) THEN "nil" ELSE IF v[1] = "0" THEN "false" ELSE "true"
BodySummary(s, k) ==
  LET b == s.bodies[k]
      a == b.attr
      n == NameOf(s, k)
  IN <<<<n \o ".label", Quoted(a.label)>>, <<n \o ".density", a.density>>, <<n \o ".holder_pos", Braces(a.holder)>>,
       <<n \o ".holder_vx", Quoted(a.speed_x)>>, <<n \o ".holder_vy", Quoted(a.speed_y)>>,
       <<n \o ".holder_vo", Quoted(a.speed_o)>>, <<n \o ".holder_mo", Quoted(a.force_o)>>,
       <<n \o ".speed", Braces(a.speed)>>, <<n \o ".delta_pos", Braces(a.dpos)>>,
       <<n \o ".spring_const", Braces(a.kspring)>>, <<n \o ".spring_damping", Braces(a.damping)>>,
       <<n \o ".collision_min", Braces(a.cmin)>>, <<n \o ".collision_max", Braces(a.cmax)>>,
       <<n \o ".bounce", a.bounce>>, <<n \o ".slip", Slip(b)>>, <<n \o ".special_segment", a.special>>,
       <<n \o ".root", IF b.root < 0 THEN "nil" ELSE NameOf(s, b.root + 1)>>,
       <<"#" \o n, Size(b.segs)>>, <<n \o ".get_cofm()", Braces(a.cofm)>>, <<n \o ".get_area()", a.area>>,
       <<n \o ".get_moi_cofm()", a.moi_cofm>>, <<n \o ".get_moi_axis()", a.moi_axis>>>>
Summary(s) ==
  SpaceSummary(s) \o FoldLeft(LAMBDA a, k : a \o BodySummary(s, k), <<>>, [k \in DOMAIN s.bodies |-> k])
=============================================================================
