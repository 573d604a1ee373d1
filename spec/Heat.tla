-------------------------------- MODULE Heat --------------------------------
(* The account of heat.  A body is a record [kind, want, sum]:                *)
(*   kind  0 takes no part, 1 insulated, 2 of constant temperature, 3 giving  *)
(*         off a constant flux                                                *)
(*   want  per segment the strength its temperature or flux calls for         *)
(*   sum   per segment the heat given to the flow less the heat taken from it *)
(*         since the last report                                              *)
(* Around a body of constant temperature there is a layer of particles, one a *)
(* segment; held[k] is the strength of the one in the layer of segment k,     *)
(* or <<>>.  Strengths are those of Ledger.                                   *)
EXTENDS Ledger
Nothing == << >>
(* the strengths of the particles segment k lets go into the flow *)
Emits(b, held, k) ==
  CASE b.kind = 1 /\ b.sum[k] # Zero -> <<Neg(b.sum[k])>>
    [] b.kind = 2 /\ held[k] = Nothing -> <<b.want[k]>>
    [] b.kind = 3 -> <<b.want[k]>>
    [] OTHER -> << >>
(* the particle in the layer takes the strength called for *)
Refills(b, held, k) == b.kind = 2 /\ held[k] # Nothing
SumAfter(b, held, k) ==
  CASE b.kind = 1 -> Zero
    [] b.kind = 2 -> Add(b.sum[k], Add(b.want[k], IF held[k] = Nothing THEN Zero ELSE Neg(held[k])))
    [] b.kind = 3 -> Add(b.sum[k], b.want[k])
    [] OTHER -> b.sum[k]
HeatShedBody(b, held) == [b EXCEPT !.sum = [k \in DOMAIN b.sum |-> SumAfter(b, held, k)]]
(* what segments took from the flow is taken off their sums *)
HeatTaken(b, took) == [b EXCEPT !.sum = [k \in DOMAIN b.sum |-> Add(b.sum[k], Neg(took[k]))]]
HeatClosed(b) == [b EXCEPT !.sum = [k \in DOMAIN b.sum |-> Zero]]
HeatSums(bodies) == Total([n \in DOMAIN bodies |-> Total(bodies[n].sum)])
=============================================================================
