----------------------------- MODULE Scripting -----------------------------
(* The objects a script works with: the space S, bodies, and particles in    *)
(* the space's lists. An object is a function from the names of its leaves   *)
(* to values; a value is a tuple that starts with its sort: <<"n", eighths>>, *)
(* <<"deg", degrees>> (an angle given in degrees), <<"s", text>>, <<"e",      *)
(* expression>>, <<"b", truth>>, <<"body", number>>, <<"nil">>.               *)
(* A state is [s, b, in, held, l]: the space, all bodies made so far, the     *)
(* body list, the bodies the script itself holds, the particle lists.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SpaceKind ==
  [caption |-> "string", re |-> "number", finish |-> "number", inf_g |-> "number", inf_vx |-> "eval",
   inf_vy |-> "eval", gravity |-> "vec", time |-> "time", dt |-> "time", dt_save |-> "time",
   dt_streak |-> "time", dt_profile |-> "time", body_list |-> "bodies", vort_list |-> "list",
   sink_list |-> "list", streak_source_list |-> "list", streak_domain_list |-> "list",
   save |-> "method", load |-> "method"]
BodyKind ==
  [label |-> "string", holder_pos |-> "vec3", delta_pos |-> "vec3", speed |-> "vec3",
   collision_min |-> "vec3", collision_max |-> "vec3", spring_const |-> "vec3", spring_damping |-> "vec3",
   holder_vx |-> "eval", holder_vy |-> "eval", holder_vo |-> "eval", holder_mo |-> "eval",
   density |-> "number", bounce |-> "number", special_segment |-> "integer", slip |-> "bool",
   root |-> "root", move_r |-> "method", get_slen |-> "method"]
ParticleKind == [r |-> "vec", g |-> "number", v |-> "vec", tostring |-> "method"]
Sub(kind, name) ==
  CASE kind = "vec" /\ name \in {"x", "y"} -> "number"
    [] kind = "vec" /\ name \in {"abs", "totable"} -> "method"
    [] kind = "vec3" /\ name = "r" -> "vec"
    [] kind = "vec3" /\ name = "o" -> "number"
    [] kind = "vec3" /\ name = "d" -> "degree"
    [] kind = "vec3" /\ name = "totable" -> "method"
    [] kind = "eval" /\ name \in {"eval", "tostring"} -> "method"
    [] OTHER -> "none"
Top(class, name) ==
  LET t == IF class = "S" THEN SpaceKind ELSE IF class = "B" THEN BodyKind ELSE ParticleKind
  IN IF name \in DOMAIN t THEN t[name] ELSE "none"
Kind(class, path) == FoldLeft(LAMBDA k, n : Sub(k, n), Top(class, path[1]), Tail(path))
(* the name of a leaf; an angle is one leaf in both units *)
Leaf(path) == FoldLeft(LAMBDA a, n : a \o "." \o n, path[1], IF Last(path) = "d" THEN Append(Front(Tail(path)), "o") ELSE Tail(path))
Parts(kind, path) ==
  CASE kind = "vec" -> <<Append(path, "x"), Append(path, "y")>>
    [] kind = "vec3" -> <<path \o <<"r", "x">>, path \o <<"r", "y">>, Append(path, "o")>>
    [] OTHER -> <<path>>

(* objects: [c |-> "S"], [c |-> "B", id |-> n], [c |-> "O", list |-> n, i |-> k] *)
Object(st, o) == IF o.c = "S" THEN st.s ELSE IF o.c = "B" THEN st.b[o.id] ELSE st.l[o.list][o.i]
Put(st, o, x) ==
  IF o.c = "S" THEN [st EXCEPT !.s = x]
  ELSE IF o.c = "B" THEN [st EXCEPT !.b = [@ EXCEPT ![o.id] = x]]
  ELSE [st EXCEPT !.l = [@ EXCEPT ![o.list] = [@ EXCEPT ![o.i] = x]]]
Alive(st) == st.held \cup ToSet(st.in)

(* What a literal is worth for a leaf or a compound: the values of its parts, *)
(* or <<>> when it is refused.                                                *)
(* Literals: [k |-> "num", v], [k |-> "str", t, and optionally num, frac,     *)
(* expr], [k |-> "table", v |-> literals], [k |-> "bool", v], [k |-> "nil"],  *)
(* [k |-> "fn"], [k |-> "body", id], [k |-> "ref", o, p]                      *)
NumberLike(x) == IF x.k = "num" THEN TRUE ELSE x.k = "str" /\ "num" \in DOMAIN x
NumOf(x) == IF x.k = "num" THEN x.v ELSE x.num
Whole(x) == IF NumberLike(x) THEN NumOf(x) % 8 = 0 ELSE FALSE
RefOf(x, st, kind) == IF x.k = "ref" THEN Kind(x.o.c, x.p) = kind ELSE FALSE
RefVals(x, st, kind) == LET ps == Parts(kind, x.p) IN [n \in 1..Len(ps) |-> Object(st, x.o)[Leaf(ps[n])]]
TableOf(x, n) ==
  IF x.k # "table" THEN <<>> ELSE IF Len(x.v) # n THEN <<>>
  ELSE IF \A m \in 1..n : NumberLike(x.v[m]) THEN [m \in 1..n |-> <<"n", NumOf(x.v[m])>>] ELSE <<>>
Degrees(v) == IF v = 0 THEN <<"n", 0>> ELSE <<"deg", v>>
Coerce(st, kind, x) ==
  CASE kind = "number" -> IF NumberLike(x) THEN <<<<"n", NumOf(x)>>>> ELSE <<>>
    [] kind = "degree" -> IF NumberLike(x) THEN <<Degrees(NumOf(x))>> ELSE <<>>
    [] kind = "integer" -> IF Whole(x) THEN <<<<"n", NumOf(x)>>>> ELSE <<>>
    [] kind = "string" -> IF x.k = "str" THEN <<<<"s", x.t>>>> ELSE <<>>
    [] kind = "bool" -> IF x.k = "bool" THEN <<<<"b", x.v>>>> ELSE <<>>
    [] kind = "root" -> IF x.k = "nil" THEN <<<<"nil">>>> ELSE IF x.k = "body" THEN <<<<"body", x.id>>>> ELSE <<>>
    [] kind = "eval" -> IF RefOf(x, st, "eval") THEN RefVals(x, st, "eval")
                        ELSE IF x.k = "str" THEN (IF x.expr THEN <<<<"e", x.t>>>> ELSE <<>>) ELSE <<>>
    [] kind = "time" -> IF x.k = "num" THEN <<<<"n", x.v>>>>
                        ELSE IF x.k = "str" THEN (IF "frac" \in DOMAIN x THEN <<<<"n", (8 * x.frac[1]) \div x.frac[2]>>>> ELSE <<>>)
                        ELSE IF x.k # "table" THEN <<>> ELSE IF Len(x.v) # 2 THEN <<>>
                        ELSE IF Whole(x.v[1]) /\ Whole(x.v[2])
                             THEN (IF NumOf(x.v[2]) >= 8 THEN <<<<"n", (8 * NumOf(x.v[1])) \div NumOf(x.v[2])>>>> ELSE <<>>)
                             ELSE <<>>
    [] kind \in {"vec", "vec3"} -> IF RefOf(x, st, kind) THEN RefVals(x, st, kind) ELSE TableOf(x, IF kind = "vec" THEN 2 ELSE 3)
    [] OTHER -> <<>>
SetResult(st, o, path, x) == Coerce(st, Kind(o.c, path), x)
AfterSet(st, o, path, x) ==
  LET r == SetResult(st, o, path, x)
      ps == Parts(Kind(o.c, path), path)
  IN IF r = <<>> THEN st
     ELSE Put(st, o, [k \in DOMAIN Object(st, o) |->
            IF \E n \in 1..Len(ps) : Leaf(ps[n]) = k THEN r[CHOOSE n \in 1..Len(ps) : Leaf(ps[n]) = k] ELSE Object(st, o)[k]])

(* What reading gives. *)
InDegrees(v) == IF v[1] = "deg" THEN <<"n", v[2]>> ELSE IF v[2] = 0 THEN v ELSE <<"rad", v[2]>>
GetResult(st, o, path) ==
  LET kind == Kind(o.c, path)
      v(p) == Object(st, o)[Leaf(p)]
  IN CASE kind = "none" -> <<"nil">>
       [] kind = "method" -> <<"function">>
       [] kind \in {"list", "bodies"} -> <<"userdata">>
       [] kind \in {"vec", "vec3"} -> <<kind, [n \in 1..Len(Parts(kind, path)) |-> v(Parts(kind, path)[n])]>>
       [] kind = "degree" -> InDegrees(v(path))
       [] kind = "root" -> IF v(path)[1] = "body" /\ v(path)[2] \notin Alive(st) THEN <<"nil">> ELSE v(path)
       [] OTHER -> v(path)
(* a root that is gone stays gone *)
Settle(st) ==
  [st EXCEPT !.b = [n \in DOMAIN @ |-> IF @[n]["root"][1] = "body"
     THEN (IF @[n]["root"][2] \in Alive(st) THEN @[n] ELSE [@[n] EXCEPT !["root"] = <<"nil">>]) ELSE @[n]]]

(* The body list. *)
Insert(st, id) == [st EXCEPT !.in = Append(@, id)]
Erase(st, id) == [st EXCEPT !.in = SelectSeq(@, LAMBDA k : k # id)]
(* The particle lists. *)
Particle(x, y, g) == [k \in {"r.x", "r.y", "g", "v.x", "v.y"} |->
  IF k = "r.x" THEN <<"n", x>> ELSE IF k = "r.y" THEN <<"n", y>> ELSE IF k = "g" THEN <<"n", g>> ELSE <<"n", 0>>]
Addable(st, x) == IF x.k = "at" THEN TRUE ELSE TableOf(x, 3) # <<>>
Added(st, x) == IF x.k = "at" THEN st.l[x.list][x.i] ELSE Particle(NumOf(x.v[1]), NumOf(x.v[2]), NumOf(x.v[3]))
FirstBad(st, xs) == IF \A n \in 1..Len(xs) : Addable(st, xs[n]) THEN 0 ELSE CHOOSE n \in 1..Len(xs) : ~Addable(st, xs[n]) /\ \A m \in 1..(n - 1) : Addable(st, xs[m])
(* the first n of xs *)
AfterAppend(st, list, xs, n) == [st EXCEPT !.l = [@ EXCEPT ![list] = @ \o [m \in 1..n |-> Added(st, xs[m])]]]
AfterClear(st, list) == [st EXCEPT !.l = [@ EXCEPT ![list] = <<>>]]
=============================================================================
