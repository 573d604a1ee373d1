-------------------------------- MODULE Eval --------------------------------
(* Expressions of time. Times and values are counted in 1/65536.              *)
(* Trees: <<"t">>, <<"c", value>>, <<"+", a, b>>, <<"-", a, b>>, <<"*", k, a>>*)
(* (k a whole number), <<"abs", a>>, <<"step", a>> (1 from zero on, else 0),  *)
(* <<"if", a, b, x, y>> (x when a < b else y), <<"fails", a, b, x>> (no value *)
(* when a < b), <<"text", text, value>> (constant text).                      *)
EXTENDS Integers, Sequences
One == 65536
None == <<>>
(* the value at time t, in a sequence of one, or None *)
RECURSIVE Den(_, _)
Den(x, t) ==
  LET two(f(_, _)) == LET a == Den(x[2], t) b == Den(x[3], t) IN IF a = None THEN None ELSE IF b = None THEN None ELSE <<f(a[1], b[1])>>
      one(f(_)) == LET a == Den(x[2], t) IN IF a = None THEN None ELSE <<f(a[1])>>
      less == LET a == Den(x[2], t) b == Den(x[3], t) IN IF a = None THEN None ELSE IF b = None THEN None ELSE <<a[1] < b[1]>>
  IN CASE x[1] = "t" -> <<t>>
       [] x[1] = "c" -> <<x[2]>>
       [] x[1] = "text" -> <<x[3]>>
       [] x[1] = "+" -> two(LAMBDA a, b : a + b)
       [] x[1] = "-" -> two(LAMBDA a, b : a - b)
       [] x[1] = "*" -> LET a == Den(x[3], t) IN IF a = None THEN None ELSE <<x[2] * a[1]>>
       [] x[1] = "abs" -> one(LAMBDA a : IF a < 0 THEN -a ELSE a)
       [] x[1] = "step" -> one(LAMBDA a : IF a >= 0 THEN One ELSE 0)
       [] x[1] = "if" -> IF less = None THEN None ELSE IF less[1] THEN Den(x[4], t) ELSE Den(x[5], t)
       [] x[1] = "fails" -> IF less = None THEN None ELSE IF less[1] THEN None ELSE Den(x[4], t)
       [] x[1] = "bad" -> None
       [] x[1] = "empty" -> <<0>>
Empty == <<"empty">>
(* an expression is accepted when it has a value at time zero *)
Accepted0(x) == Den(x, 0) # None
Assign(old, x) == IF Accepted0(x) THEN x ELSE old

(* The evaluator with its memory of the last two times and values.            *)
Fresh == [x |-> Empty, m |-> <<>>]
Give(e, x) == IF ~Accepted0(x) THEN e ELSE [x |-> x, m |-> <<>>]
Known(e, t) == \E k \in DOMAIN e.m : e.m[k][1] = t
Answer(e, t) == IF Known(e, t) THEN <<e.m[CHOOSE k \in DOMAIN e.m : e.m[k][1] = t][2]>> ELSE Den(e.x, t)
After(e, t) ==
  IF Known(e, t) THEN e
  ELSE IF Den(e.x, t) = None THEN e
  ELSE [e EXCEPT !.m = <<<<t, Den(e.x, t)[1]>>>> \o SubSeq(@, 1, IF Len(@) > 1 THEN 1 ELSE Len(@))]
=============================================================================
